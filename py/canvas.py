"""Sequences of draws onto one canvas, validated against SvgCanvas."""
import base64, itertools, json, os, random, re
import core, gen, mutate, svgtext

U = 64
BACKS = ['rasterx', 'gg', 'draw2d', 'winding']     # winding: rasterx with a scanner that knows the winding rules


def schedules(run, calls, lst, size, shows):
    """behaviours of MCCanvas by the marks that they leave: {marks: [calls]}"""
    f = os.path.join(core.tmp(), 'canvas.json')
    with open(f, 'w') as h:
        h.write(json.dumps(dict(paths=[dict(fill=x in 'fb', line=x in 'lb') for x in shows], calls=calls, list=lst, size=size)))
    t = core.tlc('MCCanvas', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('MCCanvas: ' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    out = {}
    for key, w in re.findall(r'"W\|canvas\|([^|"]*)\|([^"]*)"', t.out):
        cs = [dict(keep=c[0] == 'k', mute=c[1] == 'm', list=[int(x) for x in c[2:].split('.') if x]) for c in w.split(',') if c]
        out.setdefault(key, []).append(cs)
    n = sum(map(len, out.values()))
    run.note('MCCanvas %d calls, %s: %d states, the laws hold; %d sequences of draws with %d different marks' % (calls, shows, t.states, n, len(out)))
    return out


def runs(r, sched, k):
    """some sequences that have to agree with each other"""
    keys = sorted(x for x in sched if len(sched[x]) > 3)
    out = []
    for _ in range(k):
        key = r.choice([x for x in keys if x.count('.') > 1] if r.random() < 0.8 else keys)
        ws = sched[key]
        some = r.sample(ws, min(len(ws), 4))
        for b in BACKS:
            out += [dict(back=b, calls=w) for w in some]
    return out


def documents(n, tag, **profile):
    r = random.Random('%s %d' % (tag, core.SEED))
    for _ in range(n):
        yield svgtext.render(gen.document(r.randrange(1 << 40), **profile), random.Random(r.randrange(1 << 40))).encode()


def mask_graphs():
    """every way in which the contents of three masks refer to masks"""
    refs = ['', 'a', 'b', 'c', 'nope']
    for x in itertools.product(refs, repeat=3):
        d = '<svg viewBox="0 0 40 40">'
        for i, (m, to) in enumerate(zip('abc', x)):
            d += '<mask id="%s"><rect x="%d" y="%d" width="%d" height="30"%s/></mask>' % (m, 2 + 3 * i, 5, 28 - 4 * i, ' mask="url(#%s)"' % to if to else '')
        d += '<rect width="36" height="34" mask="url(#a)"/><g mask="url(#b)"><circle cx="20" cy="20" r="12" fill="red"/><rect width="9" height="9" mask="url(#c)"/></g></svg>'
        yield d.encode()


STROKES = [b'', b'', b' stroke="red"', b' stroke="url(#g0)" fill="url(#g1)"', b' stroke="blue" stroke-width="5" stroke-linejoin="arc" stroke-linecap="round"',
           b' stroke="#080" stroke-width="3" stroke-dasharray="7 3" stroke-linejoin="miter-clip" stroke-linecap="cubic"', b' stroke="navy" fill="url(#a)" stroke-linejoin="arc-clip" stroke-linegap="cubic"']


def validate(run, docs, tag, sched, per=2, bare=False):
    r = random.Random('%s %d' % (tag, core.SEED))
    reqs = []
    for i, b in enumerate(docs):
        if not bare:        # the outermost element gets paint
            b = re.sub(rb'<svg\b', lambda m: m.group(0) + r.choice(STROKES), b, count=1)
        opts = [dict(k='target', v=[r.randint(0, 9), r.randint(0, 9), r.randint(30, 64), r.randint(30, 64)])] if r.random() < 0.5 else []
        if r.random() < 0.2:
            opts.append(dict(k='opacity', v=[r.choice([0.5, 0.25, 1])]))
        s = r.choice(sched)
        reqs.append(dict(op='fold', id=i, b64=base64.b64encode(b).decode(), mode=r.choice([0, 0, 0, 1, 2]), w=64, h=64, opts=opts, picks=[r.randrange(1 << 30) for _ in range(3)],
                         runs=runs(r, s, per), limit=20))
    return judge(run, reqs, core.observe(run.exe(), reqs), tag)


def judge(run, reqs, obs, tag):
    js, skipped, errs = [], 0, 0
    for i, o in enumerate(obs):
        if o is None:
            continue
        if o['out'] != 'ok':
            js.append(dict(id=i, out=o['out'], same=True, paths=[], runs=[]))
            continue
        if 'skip' in o:
            skipped += 1
            continue
        errs += o['perr']
        rs = [dict(x, calls=q['calls']) for x, q in zip(o['runs'], reqs[i]['runs'])]
        rs += [dict(x, calls=[], res=['']) for x in o['runs'][len(rs):]]
        for x in rs[len(reqs[i]['runs']):]:
            x['back'] = 'whole ' + x['back']
        js.append(dict(id=i, out='ok', same=o['same'], paths=o['paths'], runs=rs))
    res, st, tr = core.judge('JudgeCanvas', js)
    run.add(st, tr, sum(len(j['runs']) for j in js))
    bad = sorted((len(reqs[i]['b64']), i, sorted(filter(None, f[0].split(',')))) for i, f in res.items() if f[0])
    run.note('%s: %d documents drawn (%d of a failed parse), %d outside of the bounds or empty' % (tag, len(js), errs, skipped))
    run.skipped += skipped
    if js:
        run.sample(repr(base64.b64decode(reqs[js[0]['id']]['b64'])[:200]))
    for _, i, found in bad[:3]:
        o = obs[i]
        run.violation('%s: %s: %s %s %s' % (tag, ','.join(found), repr(base64.b64decode(reqs[i]['b64'])[:160]), str(o.get('panic', ''))[:200], str(o.get('where', ''))[:100]),
                      dict(kind='canvas', req=reqs[i], found=found))
    run.count += len(bad)


def replay(run, r):
    judge(run, [r['req']], core.observe(run.exe(), [r['req']]), 'replay')
