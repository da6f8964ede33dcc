"""Texts of attribute values, validated against the grammar of SvgLex."""
import json, os, random, re
import alpha, core, docs, gen, svgtext
from docs import Case, hash_

C = alpha.C
ROOT = alpha.ROOT

FRAGS = dict(
    list=['1', '0', '5', '.', '-', '+', 'e', 'E', ' ', ','],
    list2=['12', '.5', '-3', '7.25', 'e1', 'E-1', ' ', ',', '-', '+4', '\t', '\n', '\r', '0.', 'e+0'],
    length=['1', '5', '.', '-', 'e', 'px', 'mm', '%', 'Q', 'in', ' ', 'm', 'cm', 'pt', 'pc', '2.5'],
    fraction=['0', '1', '.', '5', '-', '%', 'e', '25', ' ', 'E-1', '+'],
    transform=['translate', 'scale', 'rotate', 'skewX', 'matrix', '(', ')', '1', '90', '-2.5', ',', ' ', '1 0 0 1 ', 'foo', '(3)', '(45 1,2)', '(.5.25)'],
    path=['M1 2', 'm', 'L', 'h', '3', '-.5', '.25', 'z', ',', ' ', '10', '5e-1', 'T', 'e', 'V7'],
    colour=['#', 'f', '0', 'A9', 'g', 'rgb(', '255', '300', '-7', '50%', ',', ')', ' ', 'red', 'none', 'url(', '#a', 'RGB(', '1.5', '128'],
    dash=['1', '2.5', '0', '-1', ',', ' ', 'mm', '%', 'x', '\t', '3e0', 'px'],
)


def explore(run, kind, mx, frags=None):
    fr = FRAGS[frags or kind]
    f = os.path.join(core.tmp(), 'lex.json')
    with open(f, 'w') as h:
        h.write(json.dumps(dict(kind=kind, max=mx, frags=[[ord(c) for c in s] for s in fr])))
    t = core.tlc('MCLex', env={'ALPHABET': f})
    if not t.ok:
        raise core.ToolError('a law of MCLex fails:\n' + core.err_text(t.out))
    run.add(t.states, t.transitions, 0)
    out = dict(good=[], bad=[], open=[])
    for m in re.finditer(r'"W\|(\w+)\|([\d,]*)"', t.out):
        out[m.group(1)].append(''.join(fr[int(x) - 1] for x in m.group(2).split(',') if x))
    for k in out:
        out[k] = sorted(set(out[k]))
    run.note('MCLex %s: %d texts, laws hold; %d good, %d bad, %d open' % (frags or kind, t.states, len(out['good']), len(out['bad']), len(out['open'])))
    return out


def pick(xs, n, seed):
    if len(xs) <= n:
        return xs
    return random.Random(core.SEED * 7 + hash_(seed)).sample(xs, n)


def text(s):
    return dict(t='text', cs=[ord(c) for c in s], raw=s)


def ln(n, u=''):
    return dict(t='len', n=int(n * 64), u=u)


def el(tag, at, sty=()):
    return [dict(e='open', tag=tag, at=[dict(k=k, v=v) for k, v in at], sty=[dict(k=k, v=v) for k, v in sty]), C]


BOX = [('width', ln(10)), ('height', ln(20))]
STROKED = ['stroke-width', 'stroke-dashoffset', 'stroke-miterlimit', 'opacity', 'fill-opacity', 'stroke-opacity', 'stroke-dasharray']


def element(k, v, r):
    """an element that shows the value v of the attribute k"""
    if k in ('x', 'y', 'width', 'height', 'rx', 'ry'):
        at = [(a, w) for a, w in [('x', ln(1)), ('y', ln(2))] + BOX if a != k]
        return el('rect', at + [(k, v)])
    if k in ('cx', 'cy'):
        return el('circle', [(k, v), ('r', ln(5))])
    if k == 'r':
        return el('circle', [('cx', ln(5)), (k, v)])
    if k in ('x1', 'y1', 'x2', 'y2'):
        return el('line', [(k, v)])
    if k in STROKED or k == 'transform':
        return el('rect', BOX, [(k, v)]) if r.random() < 0.4 and k != 'transform' else el('rect', BOX + [(k, v)])
    if k == 'points':
        return el(r.choice(['polygon', 'polyline']), [(k, v)])
    if k == 'd':
        return el('path', [(k, v)])
    raise ValueError(k)


def cases(items, tag, per=16, modes=(0, 1, 2)):
    """items: (good?, attribute, text)"""
    out = []
    group = []
    r = random.Random(core.SEED + hash_(tag))

    def flush(g):
        if g:
            ev = list(ROOT)
            for k, s in g:
                ev += element(k, text(s), r)
            ev.append(C)
            out.append(Case(ev, svgtext.render(ev, r, noise=False), modes[len(out) % len(modes)], tag))
    for good, k, s in items:
        if k == 'viewBox':
            ev = [dict(e='open', tag='svg', at=[dict(k='viewBox', v=text(s))], sty=[])] + el('line', [('x2', ln(50, '%')), ('y2', ln(25, '%'))]) + [C]
            out.append(Case(ev, svgtext.render(ev, r, noise=False), modes[len(out) % len(modes)], tag))
        elif not good:
            flush([(k, s)])
        else:
            group.append((k, s))
            if len(group) == per:
                flush(group)
                group = []
    flush(group)
    return out


def count(s):
    return len(re.findall(r'[-+]?(?:\d+(?:\.\d+)?|\.\d+)(?:[eE][-+]?\d+)?', s))


def list_cases(run, mx, frags, ngood, nbad):
    w = explore(run, 'list', mx, frags)
    items = []
    for i, s in enumerate(pick([g for g in w['good'] if g.strip()], ngood, frags)):
        n = count(s)
        k = i % 6
        if k == 0:
            items.append((True, 'points', s + ' ' + s))
        elif k == 1:
            items.append((True, 'd', 'M0 0' + 'Hh'[i % 2] + s))
        elif k == 2 and n <= 2:
            items.append((True, 'transform', ['translate(%s)', 'scale(%s)'][i // 6 % 2] % s))
        elif k == 3 and n in (1, 2, 4):
            items.append((True, 'viewBox', ' '.join([s] * (4 // n))))
        elif k == 4:
            items.append((True, 'points', s + ',' + s.lstrip()))
        elif n % 2 == 0:
            items.append((True, 'd', 'M' + s + 'l' + s))
        else:
            items.append((True, 'd', 'M1 1v' + s + 'V' + s))
    for i, s in enumerate(pick(w['bad'], nbad, frags + 'bad')):
        k = i % 5
        items.append((False, ['points', 'd', 'transform', 'viewBox', 'd'][k],
                      [s + ' 1 1 1', 'M0 0L' + s, 'translate(' + s + ')', s, 'M' + s][k]))
    return cases(items, 'lists ' + frags)


def kind_cases(run, kind, mx, attrs, ngood, nbad):
    w = explore(run, kind, mx)
    items = [(True, attrs[i % len(attrs)], s) for i, s in enumerate(pick(w['good'], ngood, kind))]
    items += [(False, attrs[i % len(attrs)], s) for i, s in enumerate(pick(w['bad'], nbad, kind + 'bad'))]
    random.Random(core.SEED).shuffle(items)
    return cases(items, kind + ' texts', per=1 if kind in ('transform', 'path') else 16)


# ---- random documents whose attribute values the specification reads itself

LEXED = {'len': None, 'num': None, 'nums': None, 'tf': None, 'path': None, 'dash': None}


def spell(n, scale, r):
    """an unusual spelling of n/scale"""
    s = svgtext.dec(n, scale)
    sign = '-' if s[0] == '-' else r.choice(['', '', '', '+'])
    w, _, f = s.lstrip('-').partition('.')
    sh = r.choice([0, 0, 0, 1, 2, 3, -1, -2, -3, len(w)])
    if sh > 0:       # move the point left, exponent +sh
        w, f = w.zfill(sh + 1)[:-sh], w.zfill(sh + 1)[-sh:] + f
    elif sh < 0:
        f2 = f.ljust(-sh, '0')
        w, f = w + f2[:-sh], f2[-sh:]
    w = w.lstrip('0')
    f = f.rstrip('0')
    if r.random() < 0.15:
        f += '0' * r.randrange(1, 4)
    w = w or ('' if f and r.random() < 0.5 else '0')
    if r.random() < 0.1:
        w = '0' * r.randrange(1, 3) + w
    s = sign + w + ('.' + f if f else '')
    if sh or r.random() < 0.05:
        s += r.choice('eE') + ('+' if sh >= 0 and r.random() < 0.3 else '') + ('-' if sh < 0 else '') + r.choice(['', '', '0']) + str(abs(sh))
    return s


def wild_text(k, v, r):
    t = v['t']
    if t == 'len':
        return spell(v['n'], 64, r) + v['u']
    if t == 'num':
        return spell(v['n'], v.get('sc', 4096), r) + ('%' if v.get('pct') else '')
    if t == 'nums':
        return svgtext.glue([spell(n, 64, r) for n in v['a']], r)
    if t == 'dash':
        return r.choice([',', ' ', ', ', '\t', ' ,', '\n', '\r']).join(spell(x['n'], 64, r) + x['u'] for x in v['a'])
    if t == 'tf':
        s = ''
        for i, f in enumerate(v['a']):
            s += (r.choice([' ', '', ',', '\n', ' , ']) if i else '') + f['f'].replace('skewx', 'skewX').replace('skewy', 'skewY')
            s += r.choice(['', ' ']) + '(' + svgtext.glue([spell(n, 4096, r) for n in f['a']], r) + r.choice(['', ' ']) + ')'
        return s
    if t == 'path':
        s = ''
        for c in v['a']:
            if c['c'] == '!' or 'raw' in c or c['c'] == 'A':
                return None
            s += r.choice(['', ' ', '\n']) + (c['c'].lower() if c['rel'] else c['c']) + svgtext.glue([spell(n, 64, r) for n in c['a']], r)
        return s
    return None


def random_cases(run, n, tag, **profile):
    out = []
    base = core.SEED * 1000033 + hash_(tag) % 100000 * 7919
    for i in range(n):
        ev = gen.document(base + i, **profile)
        r = random.Random(base + i)
        for e in ev:
            if e['e'] != 'open':
                continue
            for d in e['at'] + e['sty']:
                if d['v']['t'] in LEXED and 'raw' not in d['v'] and not (e['tag'] == 'svg' and d['k'] in ('width', 'height')):
                    s = wild_text(d['k'], d['v'], r)
                    if s is not None:
                        d['v'] = text(s)
        out.append(Case(ev, svgtext.render(ev, r), i % 3, tag))
    return out


# ---- colours

KEYWORDS = None


def keywords():
    s = open(os.path.join(core.SPEC, 'SvgColorNames.tla')).read()
    return re.findall(r's \|-> "(\w+)"', s)


def colour_texts(run, quick):
    r = random.Random(core.SEED * 11 + 3)
    w = explore(run, 'colour', 3 if quick else 4)
    out = pick(w['good'], 4000, 'c') + pick(w['bad'], 3000 if quick else 40000, 'cb')
    kw = keywords()
    for k in kw:
        out += [k, k.upper(), k.title(), ' ' + k + ' ', ''.join(r.choice([c, c.upper()]) for c in k)]
        out += [k[:-1], k + 'x', k[1:], k + k, k + ' ' + k, k.replace('e', 'é', 1)]
    hexd = '0123456789abcdefABCDEF'
    for i in range(4096):
        if not quick or i % 4 == core.SEED % 4:
            out.append('#%03x' % i)
    for i in range(3000 if quick else 60000):
        out.append('#' + ''.join(r.choice(hexd) for _ in range(6)))
    for n in range(0, 10):
        for i in range(40):
            s = '#' + ''.join(r.choice(hexd) for _ in range(n))
            out.append(s)
            if n:
                p = r.randrange(1, len(s))
                out += [s[:p] + r.choice('gG-+ .x_') + s[p + 1:], s[:p] + '#' + s[p:]]
    for s in ['#a1b2c3', '#04f', '#9C0e7F']:        # a stray character in every position
        for p in range(1, len(s)):
            out += [s[:p] + x + s[p + 1:] for x in 'gGzZ-+ .x_#%é@`/:']
    comp = lambda: r.choice([str(r.randrange(0, 256)), str(r.randrange(-300, 600)), '%d%%' % r.randrange(0, 101), '%d%%' % r.randrange(-50, 200), '0', '255', '256', '-1', '100%', '+12'])
    for i in range(3000 if quick else 60000):
        a = [comp() for _ in range(3)]
        if r.random() < 0.3:
            a = ['%d%%' % r.randrange(-5, 106) for _ in range(3)]
        s = 'rgb(' + r.choice([',', ', ', ' ,', ' , ']).join(a) + ')'
        if r.random() < 0.3:
            s = s.replace('(', '( ').replace(')', ' )')
        out.append(s)
        if i % 3 == 0:
            out.append(damage(s, r))
    for s in ['', ' ', 'none', 'NONE', 'None', ' none ', 'url(#nope)', 'url(x)', 'url()', 'url(#a', 'url', 'URL(#a)', 'urlx(#a)', 'url (#a)', 'url#a)', 'urls)', 'url[#a]', 'ur(#a)', 'url)#a(', 'xurl(#a)', 'url()', 'url(#)', 'url(#a)red', 'url(#a) none', 'red url(#a)', 'red:blue', 'rgb:1', 'currentcolor2', '0', 'null']:
        out.append(s)
    for i in range(1500 if quick else 20000):
        s = r.choice(kw + ['none', '#a1b2c3', '#0f0', 'rgb(1,2,3)', 'rgb(10%,20%,30%)', 'url(#q)'])
        out.append(damage(s, r))
    return sorted(set(out))


def damage(s, r):
    p = r.randrange(len(s))
    return r.choice([s[:p], s[p:], s[:p] + s[p + 1:], s[:p] + r.choice('#(),% x0:') + s[p:], s[:p] + r.choice('#(),% x0:') + s[p + 1:]])


def colours(run, quick):
    texts = colour_texts(run, quick)
    judge_colours(run, texts)


def judge_colours(run, texts):
    step = 50
    reqs = [dict(op='colour', id=i, docs=texts[i:i + step], mode=(i // step) % 3) for i in range(0, len(texts), step)]
    obs = core.observe(run.exe(), reqs)
    js, where = [], {}
    bad = []
    for q, o in zip(reqs, obs):
        if o is None:
            continue
        if o['out'] != 'ok':
            run.violation('%s while reading colours %r' % (o.get('panic', 'hang'), q['docs'][:3]), dict(kind='lex', texts=q['docs']))
            run.count += 1
            continue
        for t, x in zip(q['docs'], o['res']):
            where[len(js)] = (t, q['mode'], x)
            js.append(dict(id=len(js), cs=[ord(c) for c in t], obs=x))
    res, st, tr = core.judge('JudgeColour', js, chunk=20000)
    run.add(st, tr, len(js))
    cl = {}
    for i, f in res.items():
        cl[f[1]] = cl.get(f[1], 0) + 1
        if f[0]:
            bad.append((len(where[i][0]), i, f[0]))
    run.note('colours: %d texts (%s)' % (len(js), ', '.join('%d %s' % (v, k) for k, v in sorted(cl.items()))))
    run.sample(str(texts[len(texts) // 2:][:12]))
    for _, i, f in sorted(bad)[:3]:
        t, mode, x = where[i]
        run.violation('the colour %r as %s is read as %s' % (t, f, [y for y in x if y['ctx'] in f.split(',')][:2]), dict(kind='lex', texts=[t], mode=mode, obs=x))
    run.count += len(bad)


def replay(run, r):
    judge_colours(run, r['texts'])
