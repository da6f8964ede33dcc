"""The text form of paths, validated against the path grammar."""
import json, os, random, re
import core, docs, gen, svgtext
from docs import hash_

KIND = dict(M=0, L=1, Q=2, C=3, Z=4)
LEN = dict(M=2, L=2, Q=4, C=6, Z=0)


def op(k, *p):
    return dict(k=k, p=list(p))


OPS = [op('M', 640, 1281), op('M', -63, 0), op('L', 64, -64), op('L', 1, -1), op('L', 639935, -639935), op('Q', 32, 33, -5, 97), op('Q', 0, 0, 7, 8),
       op('C', 10, 20, 30, 40, 50, 60), op('C', -1, 63, 65, -127, 0, 2), op('Z')]


def validate(run, reqs, want, tag):
    obs = core.observe(run.exe(), reqs)
    js, src = [], []
    for i, o in enumerate(obs):
        if o is None or o.get('perr'):
            run.skipped += 1
            continue
        if o['out'] != 'ok':
            run.violation('%s: %s' % (tag, o.get('panic', o['out'])), dict(kind='pathtext', req=reqs[i], want=want[i] if want else None))
            run.count += 1
            continue
        for j, p in enumerate(o['paths']):
            js.append(dict(id=len(js), ops=want[i] if want else p['ops'], texts=[dict(cs=t['cs'], err=t['err'], n=t['n'], back=t['back']) for t in p['texts']]))
            src.append((i, p['texts'][0]['text']))
    res, st, tr = core.judge('JudgePathText', js)
    run.add(st, tr, len(js))
    bad = [(len(src[i][1]), i) for i in res if res[i][0]]
    run.count += len(bad)
    if src:
        run.sample(src[0][1][:200])
    for _, i in sorted(bad)[:3]:
        run.violation('%s: the text form %s differs from the path in %s' % (tag, src[i][1][:200], res[i][0]),
                      dict(kind='pathtext', req=reqs[src[i][0]], want=want[src[i][0]] if want else None))


def replay(run, r):
    validate(run, [r['req']], [r['want']] if r['want'] else None, 'replay')


def request(ops):
    return dict(op='text', id=0, nums=[[KIND[o['k']]] + o['p'] for o in ops])


def words(run, mx, limit):
    f = os.path.join(core.tmp(), 'ops.json')
    with open(f, 'w') as h:
        h.write(json.dumps(dict(ops=OPS, max=mx)))
    t = core.tlc('MCText', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('MCText: ' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    ws = sorted([int(x) for x in m.group(1).split(',') if x] for m in re.finditer(r'"W\|ops\|([\d,]*)"', t.out))
    total = len(ws)
    if limit and total > limit:
        ws = random.Random(core.SEED).sample(ws, limit)
    run.note('MCText: %d states, every path has a text form; %d of %d paths replayed' % (t.states, len(ws), total))
    ops = [[OPS[i - 1] for i in w] for w in ws]
    validate(run, [request(o) for o in ops], ops, 'paths of the model')


def rand(run, n):
    r = random.Random(core.SEED * 7 + 5)

    def num():
        m = r.choice([64, 640, 6400, 64000, 639000, 64 * 300000, 900000000])
        v = r.randint(-m, m)
        return v if r.random() < 0.7 else v // 64 * 64
    all_ = []
    for _ in range(n):
        ops = [op('M', num(), num())]
        for _ in range(r.randint(0, 14)):
            k = 'M' if ops[-1]['k'] == 'Z' else r.choice('MLLLQQCCZ')
            ops.append(op(k, *[num() for _ in range(LEN[k])]))
        all_.append(ops)
    validate(run, [request(o) for o in all_], all_, 'random paths')


def parsed(run, n):
    """paths of parsed documents"""
    base = core.SEED * 1000003 + 77
    reqs = []
    for i in range(n):
        ev = gen.document(base + i, arcs=0.3, degenerate=0.1, defs=0.1, use=0.2)
        reqs.append(dict(op='text', id=i, src=svgtext.render(ev, random.Random(base + i)), mode=0))
    validate(run, reqs, None, 'paths of documents')
