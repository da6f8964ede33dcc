"""Pictures painted by the back ends, validated against SvgPaint."""
import json, math, os, random, re
import core

S, U = 4096, 64
W = 96
JOINS = ['Round', 'Bevel', 'Miter', 'MiterClip', 'Arc', 'ArcClip']
CAPS = ['ButtCap', 'RoundCap', 'SquareCap', 'CubicCap', 'QuadraticCap']
GAPS = ['NilGap', 'FlatGap', 'RoundGap', 'CubicGap', 'QuadraticGap']
NONE = dict(t='none')
ID = [S, 0, 0, S, 0, 0]


def colour(r, g, b):
    return dict(t='color', c=[r, g, b, 255])


def style(**k):
    st = dict(fo=S, lo=S, lw=2 * U, nz=True, ml=4 * U, join='Bevel', tcap='ButtCap', lcap='NilCap', gap='NilGap', dash=[], doff=0,
              fill=NONE, line=NONE, masks=[], t=ID)
    st.update(k)
    return st


def poly(pts, close, **st):
    ops = [dict(k='M' if i == 0 else 'L', p=[int(round(x * U)), int(round(y * U))]) for i, (x, y) in enumerate(pts)]
    return dict(ops=ops + ([dict(k='Z', p=[])] if close else []), st=style(**st))


# ---- floats: where does the geometry land
def mul(m, n):
    return [m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3],
            m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5]]


def fmat(t):
    return [t[0] / S, t[1] / S, t[2] / S, t[3] / S, t[4] / U, t[5] / U]


def target(vb, opts):
    m = [1, 0, 0, 1, 0, 0]
    for o in opts:
        if o['k'] == 'target':
            x, y, w, h = o['v']
            sx = w / vb[2] if vb[2] else 1
            sy = h / vb[3] if vb[3] else 1
            m = [sx, 0, 0, sy, x / U - vb[0] / U * sx, y / U - vb[1] / U * sy]
    return m


def device(path, m):
    """lists of points, one per subpath, curves sampled"""
    subs, at = [], lambda p: (m[0] * p[0] / U + m[2] * p[1] / U + m[4], m[1] * p[0] / U + m[3] * p[1] / U + m[5])
    for o in path['ops']:
        p = [at(o['p'][i:i + 2]) for i in range(0, len(o['p']), 2)]
        if o['k'] == 'M':
            subs.append([p[0]])
        elif o['k'] == 'L':
            subs[-1].append(p[0])
        elif o['k'] == 'Z':
            subs[-1].append(subs[-1][0])
        else:
            c = [subs[-1][-1]] + p
            for k in range(1, 7):
                t, q = k / 6, c
                while len(q) > 1:
                    q = [(a[0] * (1 - t) + b[0] * t, a[1] * (1 - t) + b[1] * t) for a, b in zip(q, q[1:])]
                subs[-1].append(q[0])
    return subs


def scale(m):
    return (math.hypot(m[0], m[1]) + math.hypot(m[2], m[3])) / 2


def aims(rng, path, m, n):
    """interesting places: vertices, segments, ends, dashes"""
    hw = path['st']['lw'] / U * scale(m) / 2
    out = []
    subs = [s for s in device(path, m) if len(s) > 1]
    while subs and len(out) < n:
        s = rng.choice(subs)
        i = rng.randrange(len(s) - 1)
        (x, y), (u, v) = s[i], s[i + 1]
        d = math.hypot(u - x, v - y)
        if d < 0.01:
            subs = [q for q in subs if q is not s]
            continue
        dx, dy = (u - x) / d, (v - y) / d
        if len(s) > 2 and s[0] != s[-1] and rng.random() < 0.08:    # where a closing line would be
            t = rng.uniform(0.1, 0.9)
            out.append((s[0][0] * t + s[-1][0] * (1 - t), s[0][1] * t + s[-1][1] * (1 - t)))
            continue
        what = rng.random()
        if what < 0.4:      # along a segment
            al, pe = rng.uniform(0, d), hw * rng.choice([0, 0.3, -0.3, 0.6, -0.6, 1.5, -1.5]) + rng.choice([0, 0, 2, -2])
        elif what < 0.7:    # around a vertex
            r, w = hw * rng.uniform(0.3, 2) + rng.choice([0, 1]), rng.uniform(0, 2 * math.pi)
            al, pe = r * math.cos(w) + (d if rng.random() < 0.5 else 0), r * math.sin(w)
        elif what < 0.85:   # beyond the ends
            al, pe = d + hw * rng.choice([0.3, 0.5, 0.7, 1.4]) + rng.choice([0, 1]), hw * rng.uniform(-0.6, 0.6)
            if rng.random() < 0.5:
                al = d - al
        else:               # the diagonal of a corner
            a, b = s[i - 1 if i else -2 if s[0] == s[-1] and len(s) > 2 else 0], s[i]
            e = math.hypot(b[0] - a[0], b[1] - a[1]) or 1
            nx, ny = (b[0] - a[0]) / e - dx, (b[1] - a[1]) / e - dy
            k = math.hypot(nx, ny)
            if k < 0.05:
                continue
            r = hw * rng.choice([0.4, 0.5, 0.85, 1.0, 1.12, 1.2, 1.3, 1.6, 2, 2.6])
            out.append((x + nx / k * r, y + ny / k * r))
            continue
        out.append((x + dx * al - dy * pe, y + dy * al + dx * pe))
    return out


def points(rng, pic, n=26):
    tm = target(pic['vb'], pic['opts'])
    pts = [(rng.uniform(0, W), rng.uniform(0, W)) for _ in range(n // 3)]
    each = max(4, (n - len(pts)) // max(1, len(pic['paths'])))
    for p in pic['paths']:
        pts += aims(rng, p, mul(tm, fmat(p['st']['t'])), each)
    return sorted({(int(x), int(y)) for x, y in pts if 1 <= x < W - 1 and 1 <= y < W - 1})   # rasterisers clip at the border


def inside(pic):
    """the coordinates fit the integers of TLC"""
    tm = target(pic['vb'], pic['opts'])
    if max(abs(x) for x in tm[:4]) > 15:
        return False
    for masked, p in [(0, p) for p in pic['paths']] + [(1, p) for m in pic['masks'] for p in m['paths']]:
        for by in ([tm] if not masked else [mul(tm, fmat(q['st']['t'])) for q in pic['paths']]):
            m = mul(by, fmat(p['st']['t']))
            if max(abs(x) for x in m[:4]) > 15 or min(math.hypot(m[0], m[1]), math.hypot(m[2], m[3])) < 0.05:
                return False
            if p['st']['lw'] / U * scale(m) > 40:
                return False
            mm = lambda o: [(m[0] * o['p'][i] / U + m[2] * o['p'][i + 1] / U + m[4], m[1] * o['p'][i] / U + m[3] * o['p'][i + 1] / U + m[5]) for i in range(0, len(o['p']), 2)]
            for o in p['ops']:
                if any(not (-90 <= c <= 190) for q in mm(o) for c in q):
                    return False
    return True


# ---- random pictures
class Gen:
    def __init__(self, rng, back, tgt=0.4, masks=1.0):
        self.r, self.back, self.tgt, self.masks = rng, back, tgt, masks

    def coord(self, lo=6, hi=90):
        r = self.r
        return r.randint(lo, hi) if r.random() < 0.7 else r.randint(lo * 8, hi * 8) / 8

    def shape(self):
        r, c = self.r, self.coord
        k = r.choice(['rect', 'rect', 'tri', 'nested', 'star', 'corner', 'corner', 'corner', 'stairs', 'zig', 'long', 'line', 'lines', 'quad', 'cubic', 'round', 'mixed', 'two'])
        P = lambda x, y: [int(round(x * U)), int(round(y * U))]
        M = lambda x, y: dict(k='M', p=P(x, y))
        L = lambda x, y: dict(k='L', p=P(x, y))
        Z = dict(k='Z', p=[])
        ring = lambda x, y, w, h, cw: [M(x, y)] + [L(*q) for q in ([(x + w, y), (x + w, y + h), (x, y + h)] if cw else [(x, y + h), (x + w, y + h), (x + w, y)])] + [Z]
        if k == 'rect':
            return ring(c(6, 50), c(6, 50), r.randint(12, 40), r.randint(12, 40), r.random() < 0.5)
        if k == 'nested':
            x, y, w, h = c(6, 30), c(6, 30), r.randint(40, 60), r.randint(40, 60)
            return ring(x, y, w, h, True) + ring(x + 10, y + 10, w - 20, h - 20, r.random() < 0.5)
        if k == 'two':
            return ring(c(4, 30), c(4, 30), r.randint(10, 30), r.randint(10, 30), True) + ring(c(20, 60), c(20, 60), r.randint(10, 30), r.randint(10, 30), r.random() < 0.5)
        if k == 'tri':
            return [M(c(), c()), L(c(), c()), L(c(), c())] + ([Z] if r.random() < 0.7 else [])
        if k == 'star':
            cx, cy, q = 48, 48, r.randint(25, 40)
            a0 = r.random() * 6
            pts = [(cx + q * math.cos(a0 + 4 * math.pi * i / 5), cy + q * math.sin(a0 + 4 * math.pi * i / 5)) for i in range(5)]
            return [M(*pts[0])] + [L(*p) for p in pts[1:]] + ([Z] if r.random() < 0.7 else [])
        if k == 'corner':
            x, y, a, b = c(25, 70), c(25, 70), r.choice([-1, 1]) * r.randint(16, 40), r.choice([-1, 1]) * r.randint(16, 40)
            pts = [(x + a, y), (x, y), (x, y + b)]
            if r.random() < 0.3:
                pts.append((x + a, y + b))
            if r.random() < 0.4:       # another angle
                w = r.uniform(0, 6.28)
                pts[2] = (x + abs(b) * math.cos(w), y + abs(b) * math.sin(w))
            return [M(*pts[0])] + [L(*p) for p in pts[1:]]
        if k == 'stairs':
            x, y, out = c(6, 30), c(6, 30), []
            for i in range(r.randint(3, 5)):
                out.append((x, y))
                if i % 2:
                    y += r.randint(12, 24)
                else:
                    x += r.randint(12, 24)
            return [M(*out[0])] + [L(*p) for p in out[1:]]
        if k == 'zig':
            return [M(c(), c())] + [L(c(), c()) for _ in range(r.randint(2, 4))]
        if k == 'long':            # many operations, open or closed, around the middle
            n, a0, q = r.randint(9, 20), r.uniform(0, 6.28), r.uniform(4.4, 5.4)
            pts = [(48 + 36 * math.cos(a0 + q * i / n), 48 + 36 * math.sin(a0 + q * i / n)) for i in range(n)]
            if r.random() < 0.4:
                pts = [(c(), c()) for _ in range(r.randint(6, 9))]
            return [M(*pts[0])] + [L(*p) for p in pts[1:]] + ([Z] if r.random() < 0.3 else [])
        if k == 'line':
            return [M(c(), c()), L(c(), c())]
        if k == 'lines':
            return [M(c(), c()), L(c(), c()), M(c(), c()), L(c(), c())]
        if k == 'quad':
            return [M(c(), c()), dict(k='Q', p=P(c(), c()) + P(c(), c()))] + ([L(c(), c())] if r.random() < 0.3 else []) + ([Z] if r.random() < 0.3 else [])
        if k == 'cubic':
            return [M(c(), c()), dict(k='C', p=P(c(), c()) + P(c(), c()) + P(c(), c()))] + ([Z] if r.random() < 0.3 else [])
        if k == 'round':
            cx, cy, q = c(30, 60), c(30, 60), r.randint(14, 28)
            f = 0.5523 * q
            seg = lambda a: dict(k='C', p=sum((P(cx + x, cy + y) for x, y in a), []))
            return [M(cx + q, cy), seg([(q, f), (f, q), (0, q)]), seg([(-f, q), (-q, f), (-q, 0)]), seg([(-q, -f), (-f, -q), (0, -q)]), seg([(f, -q), (q, -f), (q, 0)])] + ([Z] if r.random() < 0.8 else [])
        return [M(c(), c()), L(c(), c()), dict(k='Q', p=P(c(), c()) + P(c(), c())), Z, M(c(), c()), L(c(), c()), L(c(), c())]

    def rgb(self):
        return [self.r.choice([0, 64, 128, 200, 255]) for _ in range(3)]

    def paint(self, grad):
        r = self.r
        if r.random() >= grad:
            return colour(*self.rgb())
        lin = r.random() < 0.5
        bbox = r.random() < 0.5
        f = lambda: r.choice([0, 0.25, 0.5, 0.75, 1]) if bbox else r.randint(0, 96)
        if lin:
            d = [f(), f(), f(), f()]
        else:
            cx, cy, q = f(), f(), r.choice([0.25, 0.5, 0.75]) if bbox else r.randint(10, 50)
            d = [cx, cy, cx, cy, q, 0]
        n = r.randint(2, 4) if r.random() < 0.93 else 1
        if r.random() < 0.06:       # without extent
            d = d[:2] + d[:2] if lin else d[:2] + [f(), f(), 0, 0]
        offs = sorted(r.sample(range(0, 9), n))
        if r.random() < 0.4:
            offs[0], offs[-1] = 0, 8
        same = r.random() < 0.3
        c0 = self.rgb()
        stops = [dict(off=o * 512, op=S if same or r.random() < 0.7 else r.choice([S // 2, S // 4]), c=(c0 if same else self.rgb()) + [255]) for o in offs]
        if r.random() < 0.2:
            r.shuffle(stops)
        return dict(t='grad', kind='lin' if lin else 'rad', dir=[int(x * S) for x in d], stops=stops, m=ID, spread=r.choice([0, 0, 1, 2]), units=0 if bbox else 1, b=[0, 0, 0, 0])

    def matrix(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            return ID
        c = [S, 0, 0, S, 0, 0]
        about = lambda a, b, e, d: [int(round(x)) for x in (a * S, b * S, e * S, d * S, (48 - 48 * a - 48 * e) * U, (48 - 48 * b - 48 * d) * U)]
        if k < 0.55:
            return [S, 0, 0, S, r.randint(-1500, 1500), r.randint(-1500, 1500)]
        if k < 0.65:
            q = r.choice([0.5, 0.75, 1.25, 1.5, 2])
            return about(q, 0, 0, q)
        if k < 0.8:
            w = r.choice([90, 180, 270, 30, 45, 60, 15, 200]) * math.pi / 180
            q = r.choice([1, 1, 0.75, 1.5])
            return about(q * math.cos(w), q * math.sin(w), -q * math.sin(w), q * math.cos(w))
        if k < 0.88:
            return about(*r.choice([(-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, 1, 0), (0, -1.25, -1.25, 0)]))
        if k < 0.95:
            return about(r.choice([0.5, 0.8, 1.5]), 0, 0, r.choice([0.6, 1, 1.4]))
        return about(1, 0, r.choice([-0.5, 0.3]), 1)

    def path(self, masks=()):
        r = self.r
        ops = self.shape()
        st = style()
        k = r.random()
        if k < 0.45 or k > 0.95:
            st['fill'] = self.paint(0.35)
        if 0.3 < k < 0.97:
            st['line'] = self.paint(0.12)
        if k > 0.97:
            st['fill'] = NONE
            st['line'] = NONE
        st['nz'] = r.random() < 0.5
        op = lambda: r.choice([S, S, S, S // 2, S // 4, 3 * S // 4, S // 2, 0 if r.random() < 0.3 else S])
        st['fo'], st['lo'] = op(), op()
        st['lw'] = r.choice([4, 5, 6, 8, 10, 12, 16, 24]) * U + r.choice([0, 0, 13])
        if r.random() < 0.03:
            st['lw'] = 0
        st['join'] = r.choice(JOINS)
        st['tcap'] = r.choice(CAPS)
        st['lcap'] = r.choice(['NilCap'] * 3 + CAPS)
        st['gap'] = r.choice(['NilGap'] * 4 + GAPS)
        st['ml'] = r.choice([1, 1.2, 1.5, 2, 4, 4, 10]) * U
        st['ml'] = int(st['ml'])
        if r.random() < 0.35:
            n = r.choice([2, 2, 4])
            st['dash'] = [r.randint(5, 20) * U for _ in range(n)]
            if r.random() < 0.5:
                st['doff'] = r.randint(0, 60) * U // 2
            if r.random() < 0.6:
                st['lw'] = r.choice([4, 5, 6, 8]) * U
        st['t'] = self.matrix()
        if masks and r.random() < 0.6:
            st['masks'] = r.choice([[m] for m in masks] + [[m, q] for m in masks for q in masks])
        return dict(ops=ops, st=st)

    def picture(self):
        r = self.r
        ids = r.choice([[], ['a'], ['a', 'b']]) if self.back == 'gg' and r.random() < self.masks else []
        names = ids + (['nope'] if ids and r.random() < 0.3 else [])
        vb = [0, 0, W * U, W * U]
        opts = []
        if r.random() < self.tgt:
            vb = [r.randint(-40, 40) * U, r.randint(-40, 40) * U, r.choice([48, 96, 100, 64, 192]) * U, r.choice([48, 96, 100, 64, 192]) * U]
            if r.random() < 0.05:
                vb[r.choice([2, 3])] = 0
            opts.append(dict(k='target', v=[r.randint(-10, 20) * U, r.randint(-10, 20) * U, r.randint(40, 120) * U, r.randint(40, 120) * U]))
        if r.random() < 0.3:
            opts.append(dict(k='opacity', v=[r.choice([S, S // 2, S // 4, 3 * S // 4, 0])]))
        r.shuffle(opts)
        for _ in range(60):
            pic = dict(vb=vb, opts=opts, paths=[self.path(names) for _ in range(r.choice([1, 1, 2, 3, 4]))],
                       masks=[dict(id=i, paths=[self.path(names) for _ in range(r.randint(0, 2))]) for i in ids])
            if inside(pic):
                return pic
        return self.picture()


# ---- running
def request(back, pic, pts):
    o = [dict(k=x['k'], v=[y / (U if x['k'] == 'target' else S) for y in x['v']]) for x in pic['opts']]
    return dict(op='pic', id=0, pic=dict(vb=pic['vb'], paths=pic['paths'], masks=pic['masks']), opts=o, w=W, h=W, pts=pts, backs=[] if back in ('options', 'corners') else [back])


def case(i, back, pic, pts, o):
    j = dict(id=i, back=back, pic=dict(vb=pic['vb'], opts=pic['opts'], paths=pic['paths'], masks=pic['masks']))
    if back == 'options':
        j.update(target=o['target'], opacity=o['opacity'])
    elif back == 'corners':
        j.update(corners=o['corners'], opacity=o['opacity'])
    elif back == 'draw2d':
        j['calls'] = o['backs'][back]['calls']
    else:
        j.update(pts=pts, px=o['backs'][back]['px'])
    return j


def validate(run, cases, tag, obs=None):
    """cases: (back, picture, points) or, if already painted, (back, picture, points, text)"""
    if obs is None:
        obs = core.observe(run.exe(), [request(*c) for c in cases])
    js = []
    for i, o in enumerate(obs):
        back, pic, pts = cases[i][:3]
        bad = None
        if o is None:
            run.skipped += 1
            continue
        if o['out'] != 'ok':
            bad = o.get('panic', o['out'])
        elif back not in ('options', 'corners') and o['backs'][back]['derr']:
            bad = o['backs'][back]['derr']
        if bad:
            run.violation('%s: %s: %s' % (tag, back, bad), record(cases[i]))
            run.count += 1
        else:
            js.append(case(i, back, pic, pts, o))
    res, st, tr = core.judge('JudgePaint', js, chunk=1500)
    run.add(st, tr, len(js))
    bad = sorted((len(json.dumps(cases[i][1])), i) for i in res if res[i][0])
    run.count += len(bad)
    sure, total = sum(int(res[i][1]) for i in res), sum(len(cases[i][2]) for i in res)
    if js:
        run.sample(json.dumps(dict(back=js[0]['back'], pic=js[0]['pic']))[:700])
    run.note('%s: %d pictures, %d of %d observations decided' % (tag, len(js), sure, total))
    for _, i in bad[:3]:
        run.violation('%s: %s: %s' % (tag, cases[i][0], res[i][0]), record(cases[i]))
    return bad, res


def record(c):
    return dict(kind='paint', back=c[0], pic=c[1], pts=c[2], **(dict(src=c[3]) if len(c) > 3 else {}))


def replay(run, r):
    if 'src' in r:
        opts = [dict(k=x['k'], v=[y / (U if x['k'] == 'target' else S) for y in x['v']]) for x in r['pic']['opts']]
        q = dict(op='pic', id=0, src=r['src'], w=W, h=W, pts=r['pts'], backs=[r['back']], opts=opts)
        return validate(run, [(r['back'], r['pic'], [tuple(p) for p in r['pts']], r['src'])], 'replay', core.observe(run.exe(), [q]))
    validate(run, [(r['back'], r['pic'], [tuple(p) for p in r['pts']])], 'replay')


def rand(run, back, n, tag, **k):
    rng = random.Random('%s %d' % (tag, core.SEED))
    cs = []
    for _ in range(n):
        pic = Gen(rng, back, **k).picture()
        cs.append((back, pic, [] if back in ('draw2d', 'options') else points(rng, pic)))
    return validate(run, cs, tag)


def corners(run, n, tag):
    """view boxes and rectangles of every size, also of none, and any number of options"""
    r = random.Random('%s %d' % (tag, core.SEED))

    def size():
        k = r.random()
        return r.choice([1, 16, 32, 63, 64, 65, 96, 128]) if k < 0.3 else 0 if k < 0.35 else r.randint(1, 64 * 64) if k < 0.7 else r.randint(1, 10000) * U

    def at():
        return 0 if r.random() < 0.3 else r.randint(-2000, 2000) if r.random() < 0.5 else r.randint(-3000, 3000) * U

    cs = []
    for _ in range(n):
        vb = [at(), at(), size(), size()]
        opts = []
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 2, 3])):
            opts.append(dict(k='target', v=[at(), at(), size(), size()]) if r.random() < 0.7 else dict(k='opacity', v=[r.choice([0, 1, S, S // 2, S // 3, r.randint(0, S)])]))
        cs.append(('corners', dict(vb=vb, opts=opts, paths=[], masks=[]), []))
    return validate(run, cs, tag)


# ---- every keyword
def features(run, back):
    """one wide stroke or one fill for every combination of keywords, observed on a grid"""
    red, blue = colour(255, 0, 0), colour(0, 0, 255)
    rot = [int(S * x) for x in (0.8, 0.6, -0.6, 0.8)] + [40 * U, -20 * U]
    grid = lambda x0, y0, x1, y1, d: [(x, y) for x in range(x0, x1, d) for y in range(y0, y1, d)]
    cs = []

    def put(path, pts, opts=()):
        cs.append((back, dict(vb=[0, 0, W * U, W * U], opts=list(opts), paths=[path], masks=[]), [] if back == 'draw2d' else pts))
    gaps = GAPS if back == 'rasterx' else ['NilGap']
    for join in JOINS:
        for gap in gaps:
            for ml in (U, U + U // 2, 4 * U):
                st = dict(line=red, lw=28 * U, join=join, gap=gap, ml=ml)
                put(poly([(80, 36), (36, 36), (36, 80)], False, **st), grid(14, 14, 46, 46, 2))
                put(poly([(84, 30), (36, 36), (84, 50)], False, **dict(st, lw=18 * U)), grid(8, 16, 44, 58, 3))
                put(poly([(20, 28), (50, 40), (80, 28)], False, **st), grid(34, 36, 68, 62, 3))
                if gap == 'NilGap' and ml == 4 * U:
                    put(poly([(80, 36), (36, 36), (36, 80)], False, **dict(st, t=rot)), grid(10, 10, 80, 80, 4))
                    put(poly([(76, 36), (36, 36), (36, 76)], True, **st), grid(12, 12, 90, 90, 4))
    for tcap in CAPS + ['NilCap']:
        for lcap in ['NilCap'] + CAPS:
            put(poly([(32, 48), (64, 48)], False, line=blue, lw=28 * U, tcap=tcap, lcap=lcap), grid(10, 32, 34, 66, 3) + grid(62, 32, 88, 66, 3))
            put(poly([(26, 30), (70, 62)], False, line=blue, lw=12 * U, tcap=tcap, lcap=lcap, dash=[16 * U, 22 * U]), grid(14, 20, 84, 74, 4))
    stops = [dict(op=S, c=[255, 0, 0, 255]), dict(op=S // 2, c=[0, 255, 0, 255]), dict(op=S, c=[0, 0, 255, 255])]
    if back == 'rasterx':
        for kind in ('lin', 'rad'):
            for units in (0, 1):
                for spread in (0, 1, 2):
                    for m in (ID, [S // 2, 0, 0, S, 0, 0], rot):
                        k = S if units == 0 else 96 * S
                        d = [k // 4, k // 4, 5 * k // 8, k // 2] if kind == 'lin' else [k // 2, k // 2, k // 2, k // 2, k // 4, 0]
                        for fo, offs in ((S, (0, S // 2, S)), (S // 2, (S // 8, S // 2, 7 * S // 8))):
                            g = dict(t='grad', kind=kind, dir=d, stops=[dict(s, off=o) for s, o in zip(stops, offs)], m=ID, spread=spread, units=units, b=[0, 0, 0, 0])
                            put(poly([(10, 16), (86, 16), (86, 80), (10, 80)], True, fill=g, fo=fo, t=m), grid(4, 4, 92, 92, 6))
                            put(poly([(12, 50), (84, 44)], False, line=g, lo=fo, lw=30 * U, t=m), grid(4, 4, 92, 92, 6))
        for kind in ('lin', 'rad'):
            for units in (0, 1):
                for spread in (0, 1, 2):
                    k = S if units == 0 else 96 * S
                    room, none, off = ([k // 4, k // 4, 5 * k // 8, k // 2], [k // 4, k // 2] * 2, []) if kind == 'lin' else ([k // 2] * 4 + [k // 4, 0], [k // 2] * 4 + [0, 0], [k // 2, k // 2, k // 4, k // 2, 0, 0])
                    same = [dict(stops[0], off=S), dict(stops[0], off=S)]
                    for d, ss in ((room, [dict(stops[1], off=S // 2)]), (none, [dict(x, off=o) for x, o in zip(stops[1:] + stops[1:2], (0, S // 2, S))]), (off, [dict(stops[0], off=0), dict(stops[1], off=S)]), (room, same)):
                        for fo in (S, S // 2, 0):
                            g = dict(t='grad', kind=kind, dir=d, stops=ss, m=ID, spread=spread, units=units, b=[0, 0, 0, 0])
                            if d:
                                put(poly([(10, 16), (86, 16), (86, 80), (10, 80)], True, fill=g, fo=fo), grid(4, 4, 92, 92, 8))
                                put(poly([(12, 50), (84, 44)], False, line=g, lo=fo, lw=30 * U), grid(4, 4, 92, 92, 8))
    for fo in (0, S // 4, S // 2, S):
        for lo in (0, S // 4, 3 * S // 4, S):
            for op in (S, S // 2, 0):
                put(poly([(24, 24), (72, 24), (72, 72), (24, 72)], True, fill=red, line=blue, fo=fo, lo=lo, lw=20 * U), grid(6, 6, 92, 92, 9), [dict(k='opacity', v=[op])] if op < S else [])
    for nz in (True, False):
        for turn in (1, -1):
            inner = [(30, 30), (66, 30), (66, 66), (30, 66)][::turn]
            two = dict(ops=poly([(12, 12), (84, 12), (84, 84), (12, 84)], True)['ops'] + poly(inner, True)['ops'], st=style(fill=red, nz=nz))
            put(two, grid(4, 4, 92, 92, 6))
    return validate(run, cs, 'keywords on ' + back)


# ---- words of MCPaint
def alphabet(back):
    """paths that set every part of the state of a back end, and paths that set none of it"""
    red, blue, green, grey = colour(255, 0, 0), colour(0, 0, 255), colour(0, 200, 64), colour(128, 128, 128)
    ring = lambda x, y, w, h, cw=True: [(x, y)] + ([(x + w, y), (x + w, y + h), (x, y + h)] if cw else [(x, y + h), (x + w, y + h), (x + w, y)])
    multi = lambda parts, **st: dict(ops=sum((poly(p, z)['ops'] for p, z in parts), []), st=style(**st))
    stop = lambda o, c, op=S: dict(off=o, op=op, c=c + [255])
    lin = dict(t='grad', kind='lin', dir=[20 * S, 0, 70 * S, 0], stops=[stop(0, [255, 0, 0]), stop(S, [0, 0, 255])], m=ID, spread=0, units=1, b=[0, 0, 0, 0])
    box = dict(lin, kind='rad', dir=[S // 2, S // 2, S // 2, S // 2, S // 2, 0], units=0, stops=[stop(0, [255, 255, 0]), stop(S // 2, [0, 128, 0], S // 2), stop(S, [0, 0, 0])], spread=1)
    flat = dict(lin, stops=[stop(0, [200, 0, 200]), stop(S, [200, 0, 200])])
    rot = [int(S * 0.75 * x) for x in (0.8660254, 0.5, -0.5, 0.8660254)] + [30 * U, -8 * U]
    ks = [
        multi([(ring(10, 10, 60, 50), True), (ring(22, 20, 36, 30), True)], fill=red, nz=True),
        multi([(ring(14, 24, 60, 50), True), (ring(26, 34, 36, 30), True)], fill=green, nz=False, fo=S // 2),
        poly([(16, 70), (40, 30), (80, 60)], False, line=blue, lw=8 * U, join='Round', tcap='RoundCap'),
        poly(ring(24, 24, 44, 40), True, line=grey, lw=6 * U, join='Miter', ml=4 * U),
        poly([(8, 8), (88, 40), (20, 88)], False),
        poly(ring(30, 30, 40, 40), True, fill=red, line=blue, lw=10 * U, fo=S // 2, lo=S // 2, join='Bevel'),
        poly([(10, 50), (86, 50)], False, line=green, lw=9 * U, dash=[14 * U, 9 * U], doff=5 * U),
        poly([(12, 44), (60, 44), (60, 90)], False, line=red, lw=8 * U, dash=[12 * U, 18 * U], tcap='SquareCap'),
        poly(ring(20, 16, 50, 60), True, fill=lin if back == 'rasterx' else flat, nz=False),
        poly([(14, 20), (84, 76)], False, line=lin if back == 'rasterx' else flat, lw=12 * U, lo=S // 2, tcap='SquareCap'),
        poly(ring(20, 20, 50, 30, False), True, fill=green, line=red, lw=6 * U, t=rot, join='Round'),
        multi([], fill=red, line=blue, lw=8 * U),
        multi([([(12, 30), (80, 34)], False), ([(20, 62), (84, 58)], False)], line=blue, lw=10 * U, lo=S // 2, tcap='RoundCap'),
        poly([(70, 20), (30, 48), (70, 76)], False, fill=box if back == 'rasterx' else blue, line=red, lw=8 * U, join='MiterClip', ml=int(1.5 * U), gap='NilGap', lcap='SquareCap'),
        dict(ops=[dict(k='M', p=[12 * U, 60 * U]), dict(k='C', p=[20 * U, 10 * U, 70 * U, 10 * U, 84 * U, 60 * U])], st=style(line=grey, lw=7 * U, join='Round')),
        poly(ring(40, 10, 40, 30), True, fill=blue, fo=0, line=red, lo=S // 4, lw=8 * U),
    ]
    masks = []
    if back == 'gg':
        masks = [dict(id='a', paths=[poly(ring(0, 0, 48, 96), True, fill=red, fo=S // 2), poly([(20, 80), (90, 80)], False, line=blue, lw=12 * U)]),
                 dict(id='b', paths=[poly(ring(30, 20, 50, 60), True, fill=red, masks=['a'])]),
                 dict(id='e', paths=[])]
        ks += [poly(ring(12, 12, 70, 70), True, fill=green, line=blue, lw=8 * U, masks=['a']),
               poly(ring(16, 20, 60, 60), True, fill=red, masks=['a', 'b'], t=[S, 0, 0, S, 6 * U, 4 * U]),
               poly(ring(20, 12, 60, 60), True, fill=blue, masks=['nope']),
               poly(ring(20, 12, 60, 60), True, fill=blue, masks=['b', 'e'])]
    return ks, masks


def random_alphabet(back, i):
    rng = random.Random('alphabet %s %d %d' % (back, i, core.SEED))
    g = Gen(rng, back)
    ids = ['a', 'b'] if back == 'gg' else []
    ok = lambda p, by=ID: all(inside(dict(vb=[-4 * U, 6 * U, 100 * U, 90 * U], opts=o, paths=[p], masks=[])) for o in OPTIONS)

    def some(n, names):
        out = []
        while len(out) < n:
            p = g.path(names)
            if ok(p):
                out.append(p)
        return out
    kinds = some(14, ids + ids[:1])
    masks = [dict(id=i, paths=some(2, ids)) for i in ids]
    for m in masks:
        for p in m['paths']:
            p['st']['t'] = ID
    return kinds, masks


OPTIONS = [[], [dict(k='target', v=[8 * U, 4 * U, 80 * U, 60 * U])], [dict(k='opacity', v=[S // 2])],
           [dict(k='target', v=[-8 * U, 10 * U, 110 * U, 80 * U]), dict(k='opacity', v=[3 * S // 4])],
           [dict(k='opacity', v=[0])], [dict(k='opacity', v=[3 * S // 4]), dict(k='target', v=[-8 * U, 10 * U, 110 * U, 80 * U])]]


def words(run, back, depth, limit, kinds=None, masks=None, tag='', npts=40):
    if kinds is None:
        kinds, masks = alphabet(back)
    rng = random.Random('words %s %s %d' % (back, tag, core.SEED))
    opts = OPTIONS if depth < 3 else OPTIONS[:1] + [rng.choice(OPTIONS[1:])]
    vb = [-4 * U, 6 * U, 100 * U, 90 * U]
    pts = set()
    for o in opts:
        q = points(rng, dict(vb=vb, opts=o, paths=kinds, masks=[]), 4 * len(kinds))
        pts |= set(rng.sample(q, min(len(q), npts)))
    pts = sorted(rng.sample(sorted(pts), min(len(pts), npts)))
    f = os.path.join(core.tmp(), 'paint.json')
    with open(f, 'w') as h:
        h.write(json.dumps(dict(back=back, kinds=kinds, masks=masks, opts=opts, vb=vb, pts=pts, depth=depth, whole=1 if depth > 2 else 2)))
    t = core.tlc('MCPaint', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('MCPaint: ' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    ws = sorted(set(re.findall(r'"W\|paint\|([^"]*)"', t.out)))
    total = len(ws)
    if limit and total > limit:
        ws = rng.sample(ws, limit)
    run.note('MCPaint %s %s: %d states, the laws hold; %d of %d pictures replayed' % (back, tag, t.states, len(ws), total))
    cs = []
    for w in ws:
        o, ks = w.split(':')
        pic = dict(vb=vb, opts=opts[int(o) - 1], paths=[kinds[int(k) - 1] for k in ks.split(',') if k], masks=masks)
        cs.append((back, pic, [] if back == 'draw2d' else pts))
    return validate(run, cs, 'pictures of MCPaint on %s' % back)


# ---- documents, parsed and painted
def parsed(run, back, n, tag, **profile):
    import gen, svgtext
    rng = random.Random('%s %d' % (tag, core.SEED))
    srcs, reqs = [], []
    for _ in range(n):
        ev = gen.document(rng.randrange(1 << 40), **profile)
        srcs.append(svgtext.render(ev, random.Random(rng.randrange(1 << 40))))
        opts = [dict(k='target', v=[rng.randint(0, 10) * U, rng.randint(0, 10) * U, rng.randint(60, 100) * U, rng.randint(60, 100) * U])] if rng.random() < 0.7 else []
        if rng.random() < 0.3:
            opts.append(dict(k='opacity', v=[rng.choice([S // 2, S // 4, 0])]))
        reqs.append(opts)
    ask = lambda i, pts, backs: dict(op='pic', id=0, src=srcs[i], w=W, h=W, pts=pts, backs=backs,
                                     opts=[dict(k=x['k'], v=[y / (U if x['k'] == 'target' else S) for y in x['v']]) for x in reqs[i]])
    docs = core.observe(run.exe(), [ask(i, [], []) for i in range(n)])
    keep = []
    for i, o in enumerate(docs):
        if o is None or o['out'] != 'ok' or o['perr']:
            continue           # not this property
        d = o['doc']
        pic = dict(vb=d['vb'], opts=reqs[i], paths=d['paths'], masks=[dict(id=m['id'], paths=m['paths']) for m in d['masks']])
        if pic['paths'] and readable(pic) and inside(pic):
            keep.append((i, pic, points(rng, pic)))
    obs = core.observe(run.exe(), [ask(i, pts, [back]) for i, pic, pts in keep])
    cases, got = [], []
    for (i, pic, pts), o in zip(keep, obs):
        if o is not None:
            cases.append((back, pic, pts, srcs[i]))
            got.append(o)
    return validate(run, cases, tag, got)


def readable(pic):
    """the path data begins every subpath with a move"""
    for p in pic['paths'] + [p for m in pic['masks'] for p in m['paths']]:
        last = 'Z'
        for o in p['ops']:
            if o['k'] == '?' or last == 'Z' and o['k'] != 'M':
                return False
            last = o['k']
        if '?' in (p['st']['fill']['t'], p['st']['line']['t']) or len(p['ops']) > 60 or any(abs(d) > 400 * U for d in p['st']['dash'] + [p['st']['doff']]):
            return False
        if not 0 <= p['st']['ml'] <= 20000:
            return False
    return len(pic['paths']) <= 12
