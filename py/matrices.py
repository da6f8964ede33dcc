"""The matrix API, validated against SvgMatrix."""
import json, math, os, random, re
import core

S, U = 4096, 64
KIND = dict(translate=0, scale=1, rotate=2, skewx=3, skewy=4, matrix=5)


def fn(f, *a):
    """arguments in S-ths of one (degrees for angles)"""
    return dict(f=f, a=[int(round(x * S)) for x in a])


FNS = [fn('translate', 5, -3), fn('translate', -1.5, 0.25), fn('scale', 2, 3), fn('scale', 0.5, -1), fn('scale', -2, 0.5), fn('rotate', 90), fn('rotate', 30),
       fn('rotate', -45), fn('rotate', 195), fn('skewx', 45), fn('skewx', -30), fn('skewy', 45), fn('skewy', -15), fn('matrix', 1, 2, 3, 4, 5, 6),
       fn('matrix', 0.5, -0.25, 1.5, 2, -7, 3)]
POINTS = [(64, 0), (0, 64), (192, -320), (-97, 1000), (0, 0)]


def request(fns, p):
    nums = [[p[0] / U, p[1] / U]]
    for t in fns:
        a = [x / S for x in t['a']]
        nums.append([KIND[t['f']]] + ([math.radians(a[0])] if t['f'] in ('rotate', 'skewx', 'skewy') else a))
    return dict(op='matrix', id=0, nums=nums)


def validate(run, cases, tag):
    obs = core.observe(run.exe(), [request(f, p) for f, p in cases])
    js = []
    for i, o in enumerate(obs):
        if o is None:
            run.skipped += 1
        elif o['out'] != 'ok':
            run.violation('%s: %s' % (tag, o.get('panic', o['out'])), dict(kind='matrices', fns=cases[i][0], p=cases[i][1]))
            run.count += 1
        else:
            js.append(dict(id=i, fns=cases[i][0], p=list(cases[i][1]), obs={k: v for k, v in o.items() if k not in ('out', 'id_')}))
    for j in js:
        j['obs']['id'] = j['obs'].pop('idm')
    res, st, tr = core.judge('JudgeMat', js)
    run.add(st, tr, len(js))
    bad = [(len(cases[i][0]), i) for i in res if res[i][0]]
    run.count += len(bad)
    run.sample(json.dumps(cases[0]))
    for _, i in sorted(bad)[:3]:
        run.violation('%s: %s at %s disagrees in %s' % (tag, json.dumps(cases[i][0]), cases[i][1], res[i][0]), dict(kind='matrices', fns=cases[i][0], p=cases[i][1]))


def replay(run, r):
    validate(run, [(r['fns'], r['p'])], 'replay')


def words(run, mx, limit):
    f = os.path.join(core.tmp(), 'fns.json')
    with open(f, 'w') as h:
        h.write(json.dumps(dict(fns=FNS, max=mx, big=30 if mx < 4 else 12)))
    t = core.tlc('MCMat', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('MCMat: ' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    ws = sorted([int(x) for x in m.group(1).split(',') if x] for m in re.finditer(r'"W\|mat\|([\d,]*)"', t.out))
    total = len(ws)
    if limit and total > limit:
        ws = random.Random(core.SEED).sample(ws, limit)
    run.note('MCMat: %d states, the laws hold; %d of %d products repeated' % (t.states, len(ws), total))
    validate(run, [([FNS[i - 1] for i in w], POINTS[k % len(POINTS)]) for k, w in enumerate(ws)], 'products of the model')


def small(fns):
    """the products stay within the integers of TLC"""
    m = (1, 0, 0, 1, 0, 0)
    for t in fns:
        a = [x / S for x in t['a']]
        w = math.radians(a[0])
        n = dict(translate=lambda: (1, 0, 0, 1, *a), scale=lambda: (a[0], 0, 0, a[1], 0, 0), matrix=lambda: tuple(a),
                 rotate=lambda: (math.cos(w), math.sin(w), -math.sin(w), math.cos(w), 0, 0),
                 skewx=lambda: (1, 0, math.tan(w), 1, 0, 0), skewy=lambda: (1, math.tan(w), 0, 1, 0, 0))[t['f']]()
        m = (m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3],
             m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5])
        if max(map(abs, m[:4])) > 30 or max(map(abs, m[4:])) > 3000:
            return False
    return True


def rand(run, n):
    r = random.Random(core.SEED * 13 + 1)

    def g(lo, hi):
        return r.randint(lo * 16, hi * 16) / 16
    cs = []
    for _ in range(n):
        fns = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            k = r.choice(list(KIND))
            if k == 'translate':
                fns.append(fn(k, g(-40, 40), g(-40, 40)))
            elif k == 'scale':
                fns.append(fn(k, *(lambda z: (r.choice([-1, 1]) * g(1, 3) * z * r.choice([1, 0.25]), r.choice([-1, 1]) * g(1, 3) * z * r.choice([1, 0.5])))(r.choice([1, 1, 1, 1 / 16, 1 / 32]))))
            elif k == 'rotate':
                fns.append(fn(k, 15 * r.randint(-30, 30)))
            elif k in ('skewx', 'skewy'):
                fns.append(fn(k, 15 * r.choice([-4, -3, -2, -1, 0, 1, 2, 3, 4])))
            else:
                fns.append(fn(k, *[g(-3, 3) for _ in range(4)], g(-20, 20), g(-20, 20)))
        if small(fns):
            cs.append((fns, (r.randint(-6400, 6400), r.randint(-6400, 6400))))
    validate(run, cs, 'random products')
