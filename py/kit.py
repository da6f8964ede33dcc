"""The helpers for painting drivers, validated against SvgKit."""
import json, os, random, re
import core

S, U = 4096, 64


def grad(radial=False, units=0, spread=0, m=(1, 0, 0, 1, 0, 0), b=(0, 0, 10, 20), dir_=None, stops=()):
    """a gradient; stops are (colour or None, offset, opacity, premultiplied type)"""
    d = list(dir_ or ((0.5, 0.25, 0.5, 0.5, 0.75, 0) if radial else (0, 0.5, 1, -0.25)))
    return dict(radial=radial, units=units, spread=spread, m=list(m), b=list(b), dir=d,
                stops=[dict(c=list(c) if c else [], off=o, op=a, pre=p) for c, o, a, p in stops])


def model(g):
    """the gradient as the specification has it"""
    q = lambda x, s: int(round(x * s))
    return dict(t='grad', kind='rad' if g['radial'] else 'lin', dir=[q(x, S) for x in g['dir']], m=[q(x, S) for x in g['m'][:4]] + [q(x, U) for x in g['m'][4:]],
                b=[q(x, U) for x in g['b']], spread=g['spread'], units=g['units'], stops=[dict(c=s['c'], off=q(s['off'], S), op=q(s['op'], S)) for s in g['stops']])


RED, BLUE, HALF = (255, 0, 0, 255), (0, 0, 255, 255), (0, 128, 255, 255)
GRADS = [grad(stops=[(RED, 0, 1, False), (BLUE, 1, 0.5, False)]),
         grad(radial=True, units=1, spread=2, m=(0.5, 0, 0, 2, 0.25, 1), b=(-3, 4.5, 40, 30), stops=[(None, 0.25, 1, False), (HALF, 0.5, 0.25, True), (RED, 1, 1, False)]),
         grad(m=(0, 1, -1, 0, 1, 0), spread=1, b=(1, 2, 0, 0), stops=[(None, 0, 1, False), (None, 1, 1, False)]),
         grad(radial=True)]


def call(k, *p, n=0, w=''):
    return dict(k=k, p=list(p), n=n, w=w)


CALLS = [call('start', 64, -65), call('line', 1, 2), call('quad', 3, 4, 5, -6), call('cube', 7, 8, 9, 10, 11, 12), call('stop', n=1), call('stop', n=0), call('clear'),
         call('extent', 0, 0, 640, 1280), call('extent', -320, 96, 32, 97), call('copy'), call('units', n=1), call('units', n=0), call('colour', n=2)]


def request(g, calls):
    return dict(op='kit', id=0, kit=dict(g, calls=calls))


def validate(run, cases, tag):
    obs = core.observe(run.exe(), [request(g, cs) for g, cs in cases])
    js = []
    for i, o in enumerate(obs):
        if o is None:
            run.skipped += 1
        elif o['out'] != 'ok':
            run.violation('%s: %s' % (tag, o.get('panic', o['out'])), dict(kind='kit', grad=cases[i][0], calls=cases[i][1]))
            run.count += 1
        else:
            js.append(dict(id=i, grad=model(cases[i][0]), calls=cases[i][1], obs=o['steps']))
    res, st, tr = core.judge('JudgeKit', js)
    run.add(st, tr, len(js))
    bad = [(len(cases[i][1]), i) for i in res if res[i][0]]
    run.count += len(bad)
    run.sample(json.dumps(cases[0]))
    for _, i in sorted(bad)[:3]:
        run.violation('%s: the calls %s disagree in %s' % (tag, json.dumps(cases[i][1]), res[i][0]), dict(kind='kit', grad=cases[i][0], calls=cases[i][1]))


def replay(run, r):
    validate(run, [(r['grad'], r['calls'])], 'replay')


def words(run, mx, limit):
    f = os.path.join(core.tmp(), 'kit.json')
    with open(f, 'w') as h:
        h.write(json.dumps(dict(calls=CALLS, grads=[model(g) for g in GRADS], max=mx)))
    t = core.tlc('MCKit', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('MCKit: ' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    ws = sorted((int(m.group(1)), [int(x) for x in m.group(2).split(',') if x]) for m in re.finditer(r'"W\|kit\|(\d+)\|([\d,]*)"', t.out))
    total = len(ws)
    if limit and total > limit:
        ws = random.Random(core.SEED).sample(ws, limit)
    run.note('MCKit: %d states, the laws hold; %d of %d sequences repeated' % (t.states, len(ws), total))
    validate(run, [(GRADS[g - 1], [CALLS[i - 1] for i in w]) for g, w in ws], 'calls of the model')


def names(run):
    """every name, and every plain pattern"""
    cs = [call('name', n=i, w=w) for w in ('join', 'cap', 'gap') for i in range(8)] + [call('colour', n=i) for i in range(3)]
    validate(run, [(GRADS[0], [c]) for c in cs], 'names')


def rand(run, n):
    r = random.Random(core.SEED * 17 + 5)
    c64 = lambda: r.choice([r.randint(-640, 640), r.randint(-64000, 64000), r.choice([0, 1, -1, 64, 2**26 - 1, -2**26])])
    f = lambda lo, hi, d: r.randint(lo * d, hi * d) / d
    cs = []
    for _ in range(n):
        stops = [(tuple(r.choice([0, 17, 128, 255]) for _ in range(3)) + (255,) if r.random() < 0.7 else None, f(0, 1, 16), f(0, 1, 16), r.random() < 0.4)
                 for _ in range(r.randint(0, 4))]
        rad = r.random() < 0.5
        g = grad(rad, r.randint(0, 1), r.randint(0, 2), [f(-3, 3, 8) for _ in range(4)] + [f(0, 3, 8), f(0, 3, 8)] if r.random() < 0.7 else (1, 0, 0, 1, 0, 0),
                 [f(-50, 50, 4) for _ in range(4)], [f(-2, 2, 8) for _ in range(6 if rad else 4)], stops)
        calls = []
        for _ in range(r.randint(1, 8)):
            k = r.choice(['start', 'line', 'quad', 'cube', 'stop', 'clear', 'extent', 'extent', 'extent', 'copy', 'units', 'colour', 'line'])
            if k in ('start', 'line', 'quad', 'cube'):
                calls.append(call(k, *[c64() for _ in range(dict(start=2, line=2, quad=4, cube=6)[k])]))
            elif k == 'extent':
                x, y = r.randint(-6400, 6400), r.randint(-6400, 6400)
                calls.append(call(k, x, y, x + r.choice([0, r.randint(1, 3800)]), y + r.choice([64, r.randint(0, 3800)])))
            elif k == 'colour':
                calls.append(call(k, n=r.randint(0, 2)))
            else:
                calls.append(call(k, n=r.randint(0, 1)))
        cs.append((g, calls))
    validate(run, cs, 'random calls')
