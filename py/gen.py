"""Random documents as sequences of abstract events."""
import math, random
from arcs import annotate, ARITY

U, S = 64, 4096
NAMES = ['red', 'green', 'blue', 'white', 'black', 'orange', 'navy', 'teal', 'rebeccapurple'][:8] + ['cornflowerblue', 'lightgoldenrodyellow', 'gray', 'darkslategrey']
UNITS = ['px', 'in', 'cm', 'mm', 'Q', 'pt', 'pc']
KEYWORDS = {
    'fill-rule': ['evenodd', 'nonzero'],
    'stroke-linejoin': ['miter', 'round', 'bevel', 'arc', 'miter-clip', 'arc-clip'],
    'stroke-linecap': ['butt', 'round', 'square', 'cubic', 'quadratic'],
    'stroke-leadlinecap': ['butt', 'round', 'square', 'cubic', 'quadratic'],
    'stroke-linegap': ['flat', 'round', 'cubic', 'quadratic'],
}
STYLE = ['fill', 'stroke', 'fill-rule', 'stroke-linejoin', 'stroke-linecap', 'stroke-leadlinecap', 'stroke-linegap',
         'stroke-miterlimit', 'stroke-width', 'stroke-dashoffset', 'stroke-dasharray', 'opacity', 'fill-opacity', 'stroke-opacity']
SHAPES = ['rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path']

DEFAULTS = {'fill': dict(t='name', s='black'), 'stroke': dict(t='none'), 'stroke-miterlimit': dict(t='num', n=4 * U, sc=U),
            'stroke-width': dict(t='len', n=2 * U, u=''), 'stroke-dashoffset': dict(t='len', n=0, u=''), 'stroke-dasharray': dict(t='none'),
            'opacity': dict(t='num', n=S, pct=False)}


def undo(fs):
    """the inverse of a list of transform functions, or None"""
    out = []
    for f in reversed(fs):
        a = list(f['a'])
        if f['f'] == 'translate':
            a = [-x for x in a]
        elif f['f'] == 'scale' and all(x and S * S % x == 0 and abs(x) >= S // 2 for x in a):
            a = [S * S // x for x in a]
        elif f['f'] in ('rotate', 'skewx', 'skewy'):
            a[0] = -a[0]
        else:
            return None
        out.append(dict(f=f['f'], a=a))
    return out


class Gen:
    def __init__(self, r, **o):
        self.r = r
        self.o = dict(style=0.35, xform=0.25, shapes=SHAPES, curves=True, arcs=0.2, defs=0.0, use=0.0, grads=0.0, masks=0.0, meta=0.0,
                      unknown=0.0, bad=0.0, kwbad=0.0, units=0.1, pct=0.1, inline=0.4, depth=4, size=10, nested=0.0, cmdbad=0.0,
                      malformed=0.0, arity=0.0, degenerate=0.1, refs=0.3, xfbad=0.0, usebad=0.0, geombad=0.0, noref=0.15, span=0, ids=0.5, vbneg=0.0, wide=0, noround=0, longtext=0,
                      letters='ab c<&>"\'\n;xyzé€')
        self.o.update(o)
        self.ev = []
        self.budget = 5
        self.gids, self.mids, self.dids, self.tfs = [], [], [], []
        self.n = 0
        self.indefs = 0
        self.bads = 1 if r.random() < 0.3 else 0

    def p(self, k):
        return self.r.random() < self.o[k]

    # ---- values
    def coord(self, lo=-100, hi=100):
        r = self.r
        if self.o['span']:
            lo, hi = max(lo, -6), min(hi, self.o['span'])
        k = r.random()
        if self.o['wide'] and r.random() < 0.5:
            m = r.choice([4, 32, 100, 1000])
            return r.randint(lo * m * U, hi * m * U)
        if k < 0.5:
            return r.randint(lo, hi) * U
        if k < 0.8:
            return r.randint(lo * 4, hi * 4) * (U // 4)
        return r.randint(lo * U, hi * U)

    def pos(self, hi=100):
        return max(8, abs(self.coord(1, hi)))

    def len(self, lo=-100, hi=100, units=True):
        r = self.r
        if units and self.p('pct'):
            return dict(t='len', n=r.randint(0, 120) * U if r.random() < 0.7 else r.randint(0, 100 * U), u='%')
        if units and self.p('units'):
            u = r.choice(UNITS)
            f = {'px': 1, 'in': 96, 'cm': 38, 'mm': 4, 'Q': 1, 'pt': 1.4, 'pc': 16}[u]
            m = max(1, int(hi / f))
            return dict(t='len', n=r.randint(0 if lo >= 0 else -m * U, m * U), u=u)
        return dict(t='len', n=self.coord(lo, hi), u='')

    def plen(self, hi=100):
        v = self.len(1, hi)
        v['n'] = max(v['n'], 25 * U if v['u'] == '%' else U)
        return v

    def colour(self):
        r = self.r
        if r.random() < 0.4:
            return dict(t='name', s=r.choice(NAMES))
        if r.random() < 0.3:
            return dict(t='rgb', c=[17 * r.randrange(16) for _ in range(3)])
        return dict(t='rgb', c=[r.randrange(256) for _ in range(3)])

    def paint(self):
        r = self.r
        k = r.random()
        if k < 0.12:
            return dict(t='none')
        if self.gids and k < 0.12 + self.o['refs']:
            return dict(t='url', id=r.choice(self.gids))
        if k > 0.97:
            return dict(t='url', id='nowhere')
        return self.colour()

    def frac(self):
        r = self.r
        if r.random() < 0.25:
            return dict(t='num', n=r.choice([0, 25, 50, 75, 100, 150, 12]) * S, pct=True)
        return dict(t='num', n=r.choice([0, S // 4, S // 2, 3 * S // 4, S, S // 8, 5 * S // 4, -S // 2, r.randint(0, S)]), pct=False)

    def fn(self):
        r = self.r
        n = lambda x: int(x * S)
        k = r.choice(['translate', 'translate', 'scale', 'rotate', 'rotate', 'skewx', 'skewy', 'matrix'])
        if k in ('scale', 'skewx', 'skewy', 'matrix') and self.budget <= 0:
            k = 'translate'
        if k == 'translate':
            a = [r.randint(-400, 400) * S // 4 for _ in range(r.choice([1, 2, 2]))]
        elif k == 'scale':
            self.budget -= 1
            a = [n(r.choice([0.5, 2, 1.5, -1, 1, 0.25, 0.75])) for _ in range(r.choice([1, 2]))]
        elif k == 'rotate':
            a = [r.randint(-24, 24) * 15 * S] + ([r.randint(-200, 200) * S // 4, r.randint(-200, 200) * S // 4] if r.random() < 0.5 else [])
        elif k in ('skewx', 'skewy'):
            self.budget -= 1
            a = [r.choice([15, 30, 45, -15, -30, -45]) * S]
        else:
            self.budget -= 2
            a = [n(r.choice([-1, 0, 0.5, 1, 1.25, -0.25])) for _ in range(4)] + [r.randint(-200, 200) * S // 4 for _ in range(2)]
        return dict(f=k, a=a)

    def plainfn(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return dict(f='translate', a=[r.randint(-40, 40) * S // 4 for _ in range(r.choice([1, 2, 2]))])
        if k < 0.8:
            return dict(f='rotate', a=[r.randint(-4, 4) * 90 * S])
        return dict(f='scale', a=[r.choice([-S, S]) for _ in range(r.choice([1, 2]))])

    def tf(self):
        if self.bads and self.p('xfbad'):
            self.bads = 0
            return dict(t='bad')
        if self.tfs and self.r.random() < 0.15:   # undo an earlier list, perhaps the one of the parent
            back = undo(self.r.choice(self.tfs[-3:]))
            if back:
                return dict(t='tf', a=back)
        if self.r.random() < 0.04:                # a long list
            return dict(t='tf', a=[self.plainfn() for _ in range(self.r.randint(6, 14))])
        self.tfs.append([self.fn() for _ in range(self.r.choice([1, 1, 1, 1, 1, 2, 2, 2, 3, 3, 5]))])
        return dict(t='tf', a=list(self.tfs[-1]))

    def decl(self, k):
        r = self.r
        if self.bads and self.p('bad'):
            if k in KEYWORDS:
                pass
            else:
                self.bads = 0
                return dict(t='bad')
        if k in KEYWORDS:
            if not self.indefs and self.p('kwbad'):
                return dict(t='kw', s=r.choice(['nope', 'inherit', '', 'Round', 'round butt']))
            return dict(t='kw', s=r.choice(KEYWORDS[k]))
        if k in DEFAULTS and r.random() < 0.12:
            return dict(DEFAULTS[k])
        if k in ('fill', 'stroke'):
            return self.paint()
        if k == 'stroke-miterlimit':
            return dict(t='num', n=r.randint(1, 10 * U), sc=U)
        if k == 'stroke-width':
            return self.len(0, 20)
        if k == 'stroke-dashoffset':
            return self.len(-20, 20)
        if k == 'stroke-dasharray':
            if r.random() < 0.2:
                return dict(t='none')
            return dict(t='dash', a=[self.len(0, 12) if r.random() > 0.1 else dict(t='len', n=0, u='') for _ in range(r.choice([1, 2, 3, 4, 5, 5, 6, 7, 9, 11, 16]))])
        return self.frac()

    def styled(self, xform=True):
        """attributes and inline declarations"""
        r = self.r
        at, sty = [], []
        if self.p('style'):
            for k in r.sample(STYLE, r.choice([1, 1, 1, 2, 2, 3, 4, 4, 6, 14])):
                v = self.decl(k)
                if self.p('inline'):
                    sty.append(dict(k=k, v=v))
                    if r.random() < 0.25:  # a competing attribute or an earlier declaration
                        (at if r.random() < 0.6 else sty).insert(0, dict(k=k, v=self.decl(k)))
                else:
                    at.append(dict(k=k, v=v))
        if xform and self.p('xform'):
            (sty if self.p('inline') and r.random() < 0.2 else at).append(dict(k='transform', v=self.tf()))
        if self.o['masks'] and r.random() < 0.3:
            v = dict(t='none') if self.p('noref') else dict(t='ref', id=r.choice(self.mids + ['m0', 'm1', 'm2']))
            if self.bads and self.p('bad'):
                self.bads, v = 0, dict(t='bad')
            (sty if r.random() < 0.3 else at).append(dict(k='mask', v=v))
        return at, sty

    # ---- events
    def open(self, tag, at, sty=()):
        at = list(at)
        if self.r.random() < 0.5:
            self.r.shuffle(at)
        # attributes are unique
        seen, out = set(), []
        for d in at:
            if d['k'] not in seen:
                seen.add(d['k'])
                out.append(d)
        self.ev.append(dict(e='open', tag=tag, at=out, sty=list(sty)))
        self.n += 1

    def close(self):
        self.ev.append(dict(e='close'))

    def a(self, k, v):
        return dict(k=k, v=v)

    def group(self, n):
        r = self.r
        c, rel = r.choice(['L', 'H', 'V'] + (['C', 'S', 'Q', 'T'] * 2 if self.o['curves'] else [])), r.random() < 0.5
        if self.p('arcs') and not n:
            c = 'A'
        k = r.choice([1, 1, 1, 1, 1, 2, 2, 3, 3, 4, 5, 7])
        if r.random() < 0.015 and not self.o['span']:
            k = r.randint(8, 70)
        a = []
        far = lambda: r.randint(-8000 * U, 8000 * U) if n and r.random() < 0.5 else self.coord()
        for _ in range(k if c != 'A' else min(k, 3)):
            if c == 'A':
                a += [r.choice([1, 1, 1, -1]) * self.pos(80) if not self.p('degenerate') else r.choice([0, 30 * U]),
                      self.pos(80) if not self.p('degenerate') else r.choice([0, 20 * U]),
                      r.randint(-12, 24) * 15, r.randrange(2), r.randrange(2)]
                a += [self.coord(), self.coord()] if not (rel and self.p('degenerate')) else [0, 0]
                if r.random() < 0.04:           # radii that are far too small
                    q = r.randint(1, 12)
                    a[-7:-5] = [q, q * r.choice([1, 1, 1, 2, 3])]
                if rel and r.random() < 0.05:   # end points that almost coincide
                    a[-2:] = [r.choice([-1, 1]) * r.randint(8, 40), r.randint(-40, 40)]
                    a[-7:-5] = [r.randint(400, 5000), r.randint(400, 5000)]
                    continue
                if rel and r.random() < 0.25:   # about half an ellipse
                    q, w, f = self.pos(80), r.uniform(0, 6.283), r.choice([1, 1, 1.0001, 0.9999, 0.999, 0.99, 1.01, 0.95])
                    a[-7:-4] = [q, q, r.choice([0, 0, 30, 90])]
                    a[-2:] = [int(2 * q * f * math.cos(w)), int(2 * q * f * math.sin(w))] if r.random() < 0.6 else r.choice([[2 * q, 0], [0, 2 * q], [-2 * q, 0], [0, -2 * q]])
            else:
                a += [far() if not self.p('degenerate') else 0 for _ in range(ARITY[c])]
        return dict(c=c, rel=rel, a=a, w=[])

    def path(self):
        r = self.r
        for _ in range(50):
            cmds = []
            big = int(not self.o['span'] and r.random() < 0.05)
            for sub in range(r.choice([1, 1, 1, 2, 3])):
                cmds.append(dict(c='M', rel=r.random() < 0.4, a=[self.coord() for _ in range(2 * r.choice([1, 1, 1, 1, 2, 3, 5]))], w=[]))
                for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 9])):
                    cmds.append(self.group(big))
                    if r.random() < 0.12:
                        cmds.append(dict(c='Z', rel=r.random() < 0.5, a=[], w=[]))
                if r.random() < 0.5:
                    cmds.append(dict(c='Z', rel=r.random() < 0.5, a=[], w=[]))
            if annotate(cmds):
                break
        else:
            cmds = [dict(c='M', rel=False, a=[0, 0], w=[]), dict(c='L', rel=False, a=[U, U], w=[])]
        if self.p('cmdbad'):
            i = r.randrange(1, len(cmds) + 1)
            if cmds[i - 1]['c'] != 'Z':
                cmds.insert(i, dict(c='?', rel=False, a=[], w=[], raw=r.choice(['B', 'b1 2', 'R 1,2,3', 'x', 'N 5'])))
        if self.bads and self.p('arity'):
            self.bads = 0
            c = r.choice([c for c in cmds])
            if c['c'] == 'Z':
                c['a'] = [U]
            elif c['c'] in ARITY and ARITY[c['c']] > 1 and c['c'] != '?':
                c['a'] = c['a'][:-1] if r.random() < 0.5 else c['a'] + [U]
                if c['c'] == 'A':
                    c['a'] = c['a'][:len(c['a']) - 1] if len(c['a']) % 7 == 0 else c['a']
            elif c['c'] in ('H', 'V'):
                c['a'] = []
            x = r.random()
            if x < 0.15 and len(cmds) > 1 and cmds[1]['c'] != '?':
                cmds = cmds[1:]             # does not begin with a moveto
            elif x < 0.3:
                cmds.insert(r.randrange(1, len(cmds) + 1), dict(c='!', rel=False, a=[], w=[], raw=r.choice(['L1e 5', 'L 1;2', 'M#', 'm 1 2 %', 'C1 2 3 4 5 6*'])))
            elif x < 0.4:
                cmds.insert(0, dict(c='!', rel=False, a=[], w=[], raw=r.choice(['5', '1,2', 'e', '#', '-', '.5 '])))
            annotate(cmds)
        return cmds

    def maybe_bad(self, at):
        ks = [d for d in at if d['v']['t'] == 'len']
        if self.bads and not self.indefs and self.p('geombad') and ks:
            self.bads = 0
            self.r.choice(ks)['v'] = dict(t='bad')

    def geometry(self, tag):
        r, a = self.r, self.a
        deg = self.p('degenerate')
        if tag == 'rect':
            at = [a('width', self.plen()), a('height', self.plen())]
            if r.random() < 0.7:
                at += [a('x', self.len())]
            if r.random() < 0.7:
                at += [a('y', self.len())]
            k = r.random() if not self.o['noround'] else 1
            if k < 0.03:
                q = r.randint(20, 250)
                at += [a('rx', dict(t='len', n=q, u='')), a('ry', dict(t='len', n=q * r.choice([1, 1, 2]), u=''))]
            elif k < 0.15:
                at += [a('rx', self.rad()), a('ry', self.rad())]
            elif k < 0.25:
                at += [a('rx', self.rad())]
            elif k < 0.35:
                at += [a('ry', self.rad())]
            elif k < 0.4:
                at += [a('rx', dict(t='len', n=0, u='')), a('ry', self.rad())]
            if deg:
                at[r.randrange(2)]['v'] = dict(t='len', n=0, u=r.choice(['', '%']))
            return at
        if tag == 'circle':
            at = [a('cx', self.len()), a('cy', self.len()), a('r', self.rad())]
            if deg:
                at[2]['v'] = dict(t='len', n=0, u='')
            return at if r.random() < 0.8 else at[2:]
        if tag == 'ellipse':
            at = [a('cx', self.len()), a('cy', self.len()), a('rx', self.rad()), a('ry', self.rad())]
            if deg:
                at[r.choice([2, 3])]['v'] = dict(t='len', n=0, u='')
            return at if r.random() < 0.8 else at[1:] if r.random() < 0.8 else at[:3]
        if tag == 'line':
            at = [a(k, self.len()) for k in ('x1', 'y1', 'x2', 'y2')]
            return at if r.random() < 0.8 else r.sample(at, r.randrange(4))
        if tag in ('polyline', 'polygon'):
            n = r.choice([2, 2, 3, 3, 4, 4, 6, 6, 11]) if not deg else r.choice([0, 1])
            if n > 6 and not self.o['span'] and r.random() < 0.4:
                n = r.randint(12, 120)
            v = [self.coord() for _ in range(2 * n)]
            if self.bads and not self.indefs and self.p('geombad'):
                self.bads = 0
                v.append(U)
            at = [a('points', dict(t='nums', a=v))]
            return at if r.random() < 0.95 else []
        cmds = self.path()
        return [a('d', dict(t='path', a=cmds))] if r.random() < 0.97 else []

    def rad(self):
        v = dict(t='len', n=self.r.randint(4 * U, 60 * U), u='')
        if self.p('pct'):
            v = dict(t='len', n=self.r.randint(25 * U, 60 * U), u='%')
        return v

    def shape(self, extra=()):
        at, sty = self.styled()
        tag = self.r.choice(self.o['shapes'])
        g = self.geometry(tag)
        self.maybe_bad(g)
        self.open(tag, list(extra) + g + at, sty)
        self.close()

    def gradient(self):
        r, a = self.r, self.a
        lin = r.random() < 0.5
        tag = 'linearGradient' if lin else 'radialGradient'
        user = r.random() < 0.4
        gid = 'g%d' % r.randrange(4)
        at = [a('id', dict(t='str', s=gid))]
        if user or r.random() < 0.2:
            at.append(a('gradientUnits', dict(t='kw', s='userSpaceOnUse' if user else 'objectBoundingBox')))
        for k in (['x1', 'y1', 'x2', 'y2'] if lin else ['cx', 'cy', 'fx', 'fy', 'r', 'fr']):
            if r.random() < 0.5:
                pct = r.random() < 0.5
                n = r.randint(0, 100) * U if pct else (r.randint(0, 100) * U if user else r.randint(0, U))
                at.append(a(k, dict(t='len', n=n, u='%' if pct else '')))
        if r.random() < 0.3:
            at.append(a('gradientTransform', self.tf()))
        if r.random() < 0.4:
            at.append(a('spreadMethod', dict(t='kw', s=r.choice(['pad', 'reflect', 'repeat']))))
        if self.p('kwbad'):
            for d in at:
                if d['v']['t'] == 'kw':
                    d['v'] = dict(t='kw', s=r.choice(['foo', '', 'padding', 'userspace']))
        if self.bads and self.p('bad'):
            self.bads = 0
            ks = [d for d in at if d['k'] != 'id' and d['v']['t'] == 'len']
            if ks:
                r.choice(ks)['v'] = dict(t='bad')
        st, sty = self.styled(xform=False) if r.random() < 0.2 else ([], [])
        st = [d for d in st if d['k'] != 'mask']
        sty = [d for d in sty if d['k'] != 'mask']
        self.open(tag, at + st, sty)
        for _ in range(r.choice([0, 1, 2, 2, 2, 3, 3, 4, 4, 7, r.randint(8, 24)])):
            sa, ss = [], []
            if r.random() < 0.9:
                sa.append(a('offset', dict(t='num', n=r.choice([0, 10, 50, 100, 33]) * S, pct=True) if r.random() < 0.5
                            else dict(t='num', n=r.choice([0, S // 4, S // 2, S, r.randint(0, S)]), pct=False)))
            if r.random() < 0.75:
                d = a('stop-color', self.colour() if not (self.bads and self.p('bad')) else dict(t='bad'))
                (ss if r.random() < 0.5 else sa).append(d)
                if d in ss and r.random() < 0.3:
                    sa.append(a('stop-color', self.colour()))
            if r.random() < 0.5:
                (ss if r.random() < 0.5 else sa).append(a('stop-opacity', self.frac()))
            self.open('stop', sa, ss)
            self.close()
        self.close()
        self.gids.append(gid)

    def mask(self, depth):
        r, a = self.r, self.a
        mid = 'm%d' % r.randrange(3)
        at = [a('id', dict(t='str', s=mid))]
        for k in ('x', 'y', 'width', 'height'):
            if r.random() < 0.4:
                at.append(a(k, self.len()))
        st, sty = self.styled()
        self.open('mask', at + st, sty)
        saved, self.indefs = self.indefs, 0
        self.children(depth + 1, r.choice([0, 1, 2, 3]))
        self.indefs = saved
        self.close()
        self.mids.append(mid)

    def newid(self):
        return 'd%d' % self.r.randrange(6)

    def defs(self, depth):
        r = self.r
        at, sty = self.styled() if r.random() < 0.15 else ([], [])
        self.open('defs', at, sty)
        self.indefs += 1
        for _ in range(r.choice([1, 2, 2, 3])):
            self.definition(depth + 1)
        self.indefs -= 1
        self.close()

    def definition(self, depth):
        """an element inside defs, possibly with an id"""
        r = self.r
        k = r.random()
        iid = self.newid()
        extra = [self.a('id', dict(t='str', s=iid))] if r.random() < 0.7 else []
        pend = None
        if k < self.o['grads'] * 0.5:
            return self.gradient()
        if k < self.o['grads'] * 0.5 + self.o['masks'] * 0.3:
            return self.mask(depth)
        k = r.random()
        if k < 0.45 and depth < self.o['depth'] + 1:
            at, sty = self.styled()
            self.open('g', extra + at, sty)
            for _ in range(r.choice([0, 1, 2, 3])):
                self.definition(depth + 1)
            self.close()
        elif k < 0.5 and depth < self.o['depth']:
            self.open('defs', extra if r.random() < 0.3 else [])
            self.definition(depth + 1)
            self.close()
            if extra and r.random() < 2:
                pass
        elif k < 0.6 and self.dids:
            self.use(extra)
        elif k < 0.64 + 0.1 * self.o['meta'] and self.o['meta']:
            self.open(r.choice(['title', 'desc']), extra)
            self.ev.append(dict(e='text', s='hidden'))
            self.close()
        elif k < 0.67 and self.o['unknown']:
            self.open('animate', extra)
            self.close()
        else:
            self.shape(extra)
        if extra:
            self.dids.append(iid)

    def use(self, extra=()):
        r, a = self.r, self.a
        at, sty = self.styled()
        if self.dids and not (self.bads and self.p('usebad')):
            h = r.choice(self.dids)
        else:
            self.bads = 0
            h = 'missing'
        at = list(extra) + [a('href', dict(t='str', s=h))] + at
        if r.random() < 0.5:
            at.append(a('x', self.len()))
        if r.random() < 0.5:
            at.append(a('y', self.len()))
        self.open('use', at, sty)
        self.close()

    def word(self):
        r = self.r
        if self.p('longtext'):
            return ''.join(r.choice(self.o['letters']) for _ in range(r.randint(1000, 9000)))
        return ''.join(r.choice(self.o['letters']) for _ in range(r.choice([0, 1, 3, 8, 20, 60])))

    def metaelem(self, depth=0):
        r = self.r
        tag = r.choice(['title', 'desc'])
        at, sty = self.styled(xform=False) if r.random() < 0.1 else ([], [])
        self.open(tag, [d for d in at if d['k'] != 'mask'], [d for d in sty if d['k'] != 'mask'])
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            self.ev.append(dict(e='text', s=self.word()))
            k = r.random()
            if self.o['unknown'] and k < 0.25:
                self.open('tspan', [])
                self.ev.append(dict(e='text', s=self.word()))
                self.close()
            elif self.o['nested'] and depth < 2 and k < 0.4:
                if r.random() < 0.3:
                    self.open(r.choice(['g', 'svg', 'defs']), [])
                    self.metaelem(depth + 1)
                    self.close()
                else:
                    self.metaelem(depth + 1)
            elif self.o['nested'] and k < 0.45:
                self.shape()
        self.close()

    def element(self, depth):
        r = self.r
        if self.p('defs'):
            return self.defs(depth)
        if self.dids and self.p('use'):
            return self.use()
        if self.bads and self.p('usebad'):
            return self.use()
        if self.p('grads'):
            return self.gradient()
        if self.p('masks') and depth < self.o['depth'] + 1:
            return self.mask(depth)
        if self.p('meta') and not any(e.get('tag') == 'mask' for e in self.ev[-3:]):
            return self.metaelem()
        if self.p('unknown'):
            at, sty = self.styled()
            self.open(r.choice(['foo', 'text', 'image', 'animate', 'metadata', 'style', 'clipPath', 'Rect', 'symbol']), at, sty)
            if r.random() < 0.5:
                self.children(depth + 1, 1)
            return self.close()
        if self.p('nested'):
            at, sty = self.styled()
            at += [self.a('viewBox', dict(t='nums', a=[0, 0, 7 * U, 9 * U]))] if r.random() < 0.5 else []
            at += [self.a('width', dict(t='dim', s='33', l=dict(t='len', n=33 * U, u='')))] if r.random() < 0.5 else []
            self.open('svg', at, sty)
            self.children(depth + 1, 2)
            return self.close()
        if depth == 1 and not self.o['span'] and r.random() < 0.03:  # a deep chain of groups
            n = r.randint(6, 14) if r.random() < 0.7 else r.randint(20, 60)
            for _ in range(n):
                at, sty = self.styled(xform=n < 15) if r.random() < 0.5 else ([], [])
                self.open('g', at, sty)
            self.shape()
            for _ in range(n):
                self.close()
            return self.shape()
        if r.random() < 0.35 and depth < self.o['depth']:
            at, sty = self.styled()
            self.open('g', at, sty)
            self.children(depth + 1, r.choice([0, 1, 2, 3]))
            return self.close()
        self.shape()

    def children(self, depth, n):
        for _ in range(n):
            if self.n < 4 * self.o['size']:
                self.element(depth)

    def root(self):
        r, a = self.r, self.a
        at, sty = self.styled() if r.random() < 0.4 else ([], [])
        k = r.random() if not self.o['span'] else 0.1
        w, h = r.choice([20, 100, 64, 300, 48]), r.choice([20, 100, 64, 200, 10])
        if k < 0.85:
            vb = [r.choice([0, 0, 10, -5]) * U, r.choice([0, 0, 7, -20]) * U, w * U, h * U]
            if self.o['span']:
                vb[2:] = [r.choice([30, 40, 48]) * U, r.choice([30, 40, 48]) * U]
            elif r.random() < 0.15:
                vb[r.choice([2, 3])] = 0
            elif self.p('vbneg'):
                vb[r.choice([2, 3])] *= -1
            v = dict(t='nums', a=vb)
            if self.bads and self.p('bad') and r.random() < 0.3:
                self.bads = 0
                v = dict(t='bad')
            at.append(a('viewBox', v))
        if k > 0.5:
            for key, n in (('width', w), ('height', h)):
                if r.random() < 0.8:
                    u = r.choice(['', '', 'px', 'mm', 'pt', 'in'])
                    m = 1 + n % 3 if u == 'in' else min(n, 100) if u == 'mm' else n
                    at.append(a(key, dict(t='dim', s='%d%s' % (m, u), l=dict(t='len', n=m * U, u=u))))
        self.open('svg', at, sty)

    def doc(self):
        r = self.r
        self.root()
        n = r.choice([1, 2, 3, 4, 5, self.o['size']])
        for _ in range(n):
            if self.n < 4 * self.o['size']:
                self.element(1)
        if self.gids and self.p('refs'):
            # whatever was defined is also referred to
            for g in r.sample(sorted(set(self.gids)), min(2, len(set(self.gids)))):
                self.shape([self.a(r.choice(['fill', 'stroke']), dict(t='url', id=g))])
        self.close()
        if self.bads and self.p('malformed'):
            i = r.randrange(1, len(self.ev) + 1)
            self.ev = self.ev[:i]
            if r.random() < 0.6:
                self.ev.append(dict(e='bad'))
        if self.o['ids'] and r.random() < self.o['ids']:
            rename(r, self.ev)
        return self.ev


IDS = [
    ['part-of-a-rather-long-name-%d' % i for i in range(14)],
    ['%d-name-that-differs-at-its-start-only' % i for i in range(14)],
    ['a' * i for i in range(1, 15)],
    ['a', 'a.b', 'a-b', 'a_b', 'a:b', 'a.b.c', '_a', '-a', 'a1', '1', '1a', '01', 'a\u00e9', '\u00e9'],
    ['none', 'red', 'black', 'id', 'url', 'fff', 'null', 'defs', 'g', 'mask', 'inherit', 'rect', 'path', '0'],
]


def rename(r, ev):
    """gives the ids of a document other names, none of them twice"""
    if r.random() < 0.3:
        # names that differ in letter case only
        names = [''.join(c.upper() if i >> k & 1 else c for k, c in enumerate('grad')) for i in range(16)]
        some = names[1:]
        r.shuffle(some)
        names = some + [names[0], some.pop()]
    else:
        names = list(r.choice(IDS))
        r.shuffle(names)
    to, done = {}, set()

    def new(i):
        if i in ('missing', 'nowhere') or not i:
            return i
        if i not in to:
            to[i] = names.pop()
        return to[i]

    for e in ev:
        for d in list(e.get('at', ())) + list(e.get('sty', ())):
            if id(d) in done:
                continue
            done.add(id(d))
            v = d["v"]
            if d['k'] in ('id', 'href') and v['t'] == 'str':
                d['v'] = dict(v, s=new(v['s']))
            elif v['t'] in ('url', 'ref'):
                d['v'] = dict(v, id=new(v['id']))


def document(seed, **o):
    return Gen(random.Random(seed), **o).doc()
