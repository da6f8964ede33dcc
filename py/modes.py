"""Arbitrary inputs in all error modes, validated against JudgeModes."""
import base64
import core, mutate


def validate(run, inputs, aspects, tag, element=True):
    reqs = [dict(op='modes', id=i, b64=base64.b64encode(b).decode()) for i, b in enumerate(inputs)]
    for q, b in zip(reqs, inputs):
        if not b:
            q.update(b64='', src='')
    obs = core.observe(run.exe(), reqs)
    none = dict(err=True, nil=True, logs=0, h='', ph=[])
    js = []
    for i, o in enumerate(obs):
        if o:
            runs = [{k: x[k] for k in none} for x in o['runs']] if o['out'] == 'ok' else [none] * 4
            js.append(dict(id=i, out=o['out'], element=element, runs=runs))
    res, st, tr = core.judge('JudgeModes', js)
    run.add(st, tr, len(js))
    bad = sorted((len(inputs[i]), i, set(filter(None, f[0].split(',')))) for i, f in res.items() if set(f[0].split(',')) & aspects)
    ok = sum(1 for o in obs if o and o['out'] == 'ok' and not o['runs'][0]['err'])
    run.note('%s: %d inputs (%d accepted)' % (tag, len(js), ok))
    run.sample(repr(inputs[0][:200]))
    for _, i, found in bad[:3]:
        o = obs[i]
        run.violation('%s: %s: %s %s' % (tag, ','.join(sorted(found & aspects)), repr(inputs[i][:160]), str(o.get('panic', ''))[:200]),
                      dict(kind='modes', b64=reqs[i]['b64'], element=element, found=sorted(found), obs=o))
    run.count += len(bad)
