"""Text of the abstract events of the specification, with lexical variety."""
import json, math, random, re

U, S = 64, 4096


def dec(n, scale):
    """exact decimal text of n/scale (scale a power of two)"""
    sign = '-' if n < 0 else ''
    n = abs(n)
    w, f = divmod(n, scale)
    d = ''
    while f:
        f *= 10
        q, f = divmod(f, scale)
        d += str(q)
    return sign + str(w) + ('.' + d if d else '')


def num(n, scale, r, plain=False):
    """one of the spellings of n/scale"""
    s = dec(n, scale)
    if plain or r.random() < 0.6:
        return s
    sign = ''
    if s[0] == '-':
        sign, s = '-', s[1:]
    k = r.randrange(6)
    if k == 0 and '.' in s and s.startswith('0.'):
        s = s[1:]
    elif k == 1:
        s = s + ('0' if '.' in s else '.0')
    elif k == 2:  # exponent
        w, _, f = s.partition('.')
        s = (w + f).lstrip('0') or '0'
        if f:
            s += r.choice('eE') + '-%d' % len(f)
        else:
            s += r.choice(['e0', 'E0', 'e+0'])
    elif k == 3:
        w, _, f = s.partition('.')
        if len(w) > 1:
            s = w[0] + '.' + w[1:] + f + r.choice(['e', 'E', 'e+']) + str(len(w) - 1)
    elif k == 4:
        s = '0' + s
    elif k == 5 and sign == '':
        s = '+' + s
    return sign + s


def glue(parts, r, flags=()):
    """joins number texts with as few or as many separators as the grammar allows"""
    out = ''
    for i, p in enumerate(parts):
        if i == 0:
            out += r.choice(['', '', ' ', '\n']) + p
            continue
        prev = parts[i - 1]
        seps = [' ', ',', ', ', ' ,', '\n', '\t', '  ', '\r', ',\r\n']
        sticky = p[0] in '+-' or (p[0] == '.' and ('.' in prev or 'e' in prev or 'E' in prev)) or (i - 1) in flags
        if sticky and r.random() < 0.6:
            out += p
        else:
            out += r.choice(seps) + p
    return out


def length(v, r):
    return num(v['n'], U, r) + v['u']


def colour(v, r):
    if v['t'] == 'name':
        s = v['s']
        k = r.randrange(4)
        return s if k < 2 else s.upper() if k == 2 else s.title()
    c = v['c']
    k = r.randrange(4)
    if k == 0 and all(x % 17 == 0 for x in c):
        h = ''.join('%x' % (x // 17) for x in c)
        return '#' + (h if r.random() < 0.5 else h.upper())
    if k <= 2:
        h = ''.join('%02x' % x for x in c)
        return '#' + (h if r.random() < 0.5 else h.upper())
    return 'rgb(' + r.choice([',', ', ', ' , ']).join(str(x) for x in c) + ')'


def path_text(cmds, r):
    out = []
    prev = None
    for i, c in enumerate(cmds):
        letter = c['c']
        if letter == '!':
            out.append(c['raw'])
            prev = '!'
            continue
        if 'raw' in c:
            out.append(c['raw'])
            prev = '?'
            continue
        l = letter.lower() if c['rel'] else letter
        a = c['a']
        if letter == 'A':
            parts, flags = [], set()
            for j, n in enumerate(a):
                g = j % 7
                if g == 2:
                    parts.append(str(n) if r.random() < 0.7 else str(n) + '.0')
                elif g in (3, 4):
                    flags.add(j)
                    parts.append(str(n))
                else:
                    parts.append(num(n, U, r))
            t = glue(parts, r, flags)
        else:
            t = glue([num(n, U, r) for n in a], r)
        s = l + t
        out.append(s)
        prev = l
    j = r.choice(['', ' ', '\n ', ' '])
    return j.join(out)


FNNAMES = {'skewx': ['skewX'], 'skewy': ['skewY']}


def transform_text(ts, r):
    out = []
    for t in ts:
        name = r.choice(FNNAMES.get(t['f'], [t['f']]))
        args = [num(n, S, r) for n in t['a']]
        out.append(name + r.choice(['', '', ' ']) + '(' + glue(args, r) + r.choice(['', '', ' ']) + ')')
    s = out[0] if out else ''
    for o in out[1:]:
        s += r.choice([' ', '', ',', ', ', '\n', ' , ', '\t', '\n, ', ',\n\t', '\r\n']) + o
    return r.choice(['', '', '', ' ', '\n ', '\t']) + s + r.choice(['', '', '', ' ', '\n', '\t', '\r\n '])


BAD = {
    'len': ['', 'abc', '5 5', '1e', '--3', '5q', '0x10', 'inf', 'NaN', '%', 'px', '1.2.3', '1,5', '5em', '1_0', '+-1', '.', '5 px 5', '10foo', 'a5'],
    'color': ['', 'notacolour', '#12', '#12345', '#ggg', '#', 'rgb(1,2)', 'rgb(1,2,3', 'rgb()', 'rgb(a,b,c)', 'rgb(1,2,3,4)', '#1234567', 'none none', '12', 'urlx(#g)', 'url #g)', 'ur(#g)', 'url(#g', 'url', '#+f0000', '#-1-1-1', 'rgb(1;2;3)', 'rgb[1,2,3]'],
    'frac': ['', 'x', '0.5.5', '1e', 'inf', '0x1', 'a%', '%', '--1'],
    'tf': ['rotate(', 'foo(1)', 'translate(1,2,3)', 'scale()', 'matrix(1,2,3,4,5)', 'rotate(1,2)', 'skewX(1,2)', 'rotate 45', 'translate(1 2',
           'rotate(1))(', 'translate(1)scale(1,2,3)', 'scale(1e)', 'translate(1 foo 2)', 'rotate(4#5)', 'scale(a)', 'translate(1;2)', '(1)', 'scale(2'],
    'mask': ['foo', 'url(foo)', 'url(#a', '#m', 'url()', 'url(', 'url( )', 'url', 'ur(#a)', 'urlx(#a)', 'a', 'URL(#a)'],
    'num': ['', 'x', '4..', 'nan', '1e'],
    'vb': ['0 0 10', '', '1 2 3 4 5', '0 0 1e 3', 'a', '0 0 10 10 q', '0;0;5;5', '#'],
    'points': ['1', '1,2,3', '0 0 1e 3', '1 2 3 4 5', '1 2 foo 3 4', '1;2;3;4', '#1 2 3 4', '1 2 3 4 %'],
    'dash': ['a', '-1 2', '1 x', '3,-2', 'nan'],
}
BAD['tf'] += ['%s(%s)%s' % (f, ' ' if k == 9 else ' '.join('5' for _ in range(k)), t) for t in ('', ' scale(2)')
              for f, ok in (('translate', (1, 2)), ('scale', (1, 2)), ('rotate', (1, 3)), ('skewX', (1,)), ('skewY', (1,)), ('matrix', (6,)))
              for k in (0, 1, 2, 3, 4, 5, 6, 7, 9) if k not in ok]
BAD['tf'] += ['translateX(5)', 'skew(5)', 'rotateZ(5)', 'scale(2) foo()', 'none(1)', 'matrix3(1 0 0 1 0 0)', 'scale(2)(3)', 'scale((2))', 'scale(2 5']
KIND = {'fill': 'color', 'stroke': 'color', 'stop-color': 'color', 'opacity': 'frac', 'fill-opacity': 'frac', 'stroke-opacity': 'frac',
        'stop-opacity': 'frac', 'offset': 'frac', 'transform': 'tf', 'gradientTransform': 'tf', 'mask': 'mask', 'viewBox': 'vb',
        'points': 'points', 'stroke-dasharray': 'dash', 'stroke-miterlimit': 'num'}


def value_text(k, v, r):
    t = v['t']
    if 'raw' in v:
        return v['raw']
    if t == 'bad':
        pool = BAD[KIND.get(k, 'len')]
        return pool[v['pick'] % len(pool)] if 'pick' in v else r.choice(pool)
    if t == 'len':
        return length(v, r)
    if t == 'num':
        sc = v.get('sc', S)
        s = num(v['n'], sc, r)
        return s + ('%' if v.get('pct') else '')
    if t in ('rgb', 'name'):
        return colour(v, r)
    if t == 'none':
        return 'none'
    if t == 'url':
        return 'url(#%s)' % v['id']
    if t == 'ref':
        return 'url(#%s)' % v['id']
    if t == 'kw':
        return v['s']
    if t == 'dash':
        return r.choice([',', ' ', ', ']).join(length(x, r) for x in v['a'])
    if t == 'nums':
        return glue([num(n, U, r) for n in v['a']], r)
    if t == 'tf':
        return transform_text(v['a'], r)
    if t == 'path':
        return path_text(v['a'], r)
    if t == 'str':
        return ('#' if k == 'href' else '') + v['s']
    if t == 'dim':
        return v['s']
    raise ValueError(t)


def esc_attr(s, q, r):
    s = s.replace('&', '&amp;').replace('<', '&lt;')
    if q:
        s = s.replace('\r', r.choice(['&#13;', '&#xD;', '\r'])).replace('\n', r.choice(['&#10;', '\n']))
    return s.replace(q, '&quot;' if q == '"' else '&apos;')


def esc_text(s, r):
    if len(s) >= 1000 and r.random() < 0.6:       # one long run of characters
        return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    out = ''
    i = 0
    # a carriage return survives only as a reference, an end of line may be written in two ways
    esc = lambda p: ''.join({'&': '&amp;', '<': '&lt;', '>': '&gt;', '\r': '&#13;', '\n': r.choice(['\n', '\n', '\r\n', '&#xA;'])}.get(c, c) for c in p)
    while i < len(s):
        j = min(len(s), i + r.randrange(1, 6))
        p = s[i:j]
        k = r.randrange(6)
        if k == 0 and ']]>' not in p and '\r' not in p:
            out += '<![CDATA[' + p + ']]>'
        elif k == 1:
            out += ''.join('&#%d;' % ord(c) if r.random() < 0.5 else '&#x%x;' % ord(c) for c in p)
        elif k == 2:
            out += '<!-- c -->' + esc(p)
        elif k == 3 and i > 0:
            out += '<?pi x?>' + esc(p)
        else:
            out += esc(p)
        i = j
    return out


def style_text(sty, r):
    ds = []
    for k, v in sty:
        key = k if r.random() < 0.85 else k.upper()
        ds.append(r.choice(['', ' ', '\n ']) + key + r.choice([':', ': ', ' : ']) + value_text(k, v, r))
    return ';'.join(ds) + r.choice(['', ';', '; '])


def render(events, r, noise=True):
    """the XML text of a sequence of events"""
    out = []
    stack = []
    prefix = r.random() < 0.08
    n = len(events)
    i = 0
    while i < n:
        ev = events[i]
        if ev['e'] == 'open':
            tag = ev['tag']
            name = ('svg:' + tag) if prefix else tag
            attrs = []
            items = [(d['k'], d['v']) for d in ev['at']]
            sty = [(d['k'], d['v']) for d in ev['sty']]
            texts = []
            for k, v in items:
                kk = k
                if k == 'href' and r.random() < 0.5:
                    kk = 'xlink:href'
                texts.append((kk, value_text(k, v, r)))
            if sty:
                texts.insert(r.randrange(len(texts) + 1), ('style', style_text(sty, r)))
            if noise and r.random() < 0.06:
                texts.insert(r.randrange(len(texts) + 1), (r.choice(['class', 'data-x', 'aria-label']), r.choice(['a b', 'x', ''])))
            s = '<' + name
            for k, v in texts:
                q = r.choice('"\'') if noise else '"'
                s += r.choice([' ', ' ', '\n  ']) + k + '=' + q + esc_attr(v, q, r) + q
            if i + 1 < n and events[i + 1]['e'] == 'close' and r.random() < 0.8:
                out.append(s + r.choice(['/>', ' />']))
                i += 2
                if noise and not any(t in ('title', 'desc') for t in stack):
                    out.append(filler(r))
                continue
            out.append(s + '>')
            stack.append(tag)
            i += 1
        elif ev['e'] == 'close':
            t = stack.pop() if stack else 'g'
            out.append('</' + ('svg:' + t if prefix else t) + '>')
            i += 1
        elif ev['e'] == 'text':
            out.append(esc_text(ev['s'], r) if 'raw' not in ev else ev['raw'])
            i += 1
        elif ev['e'] == 'bad':
            out.append(ev.get('raw') or r.choice(['</nope>', '<g a=>', '<g', '<rect x="1></rect>', '&nope;', '<![CDATA[ x', '<a b=c/>', '</']))
            i += 1
        if noise and not any(t in ('title', 'desc') for t in stack):
            out.append(filler(r))
    return ''.join(out)


def filler(r):
    k = r.random()
    if k < 0.7:
        return ''
    return r.choice(['\n', ' ', '\n  ', '<!-- note -->', '<!--<rect width="9" height="9"/>-->', '<?pi data?>', 'stray text'])


DROP = {'raw', 'pick', 'sc'}


def spec(o):
    """the part of an abstract value the specification sees"""
    if isinstance(o, dict):
        return {k: spec(v) for k, v in o.items() if k not in DROP}
    if isinstance(o, list):
        return [spec(v) for v in o]
    return o
