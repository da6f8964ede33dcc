"""Arbitrary and damaged inputs."""
import glob, random, re
import core, gen, svgtext

TOKENS = ['"', "'", '<', '>', '/', '/>', '</g>', '<g>', '&', ';', '&#0;', '&#x41;', '&lt;', '<!--', '-->', '<![CDATA[', ']]>', '<?', '?>', '<!DOCTYPE svg>',
          'url(#', 'url(', ')', '(', '#', '%', 'e', 'E', '-', '+', '.', ',', ' ', '\n', '\t', '\0', '\ufeff', 'é', '½', '٣', '1e', '1e999', '-1e-999', '1e5', '0x1p4',
          'NaN', 'inf', 'px', 'Q', '99999999999999999999', '0', '1', '-0', 'none', 'inherit', 'currentColor', 'rgb(', 'rgb(1,2,3)', 'rgb(,,)', '#fff', '#ff', 'use', 'defs',
          'mask', 'svg', 'xlink:href="#a"', 'href="#a"', 'href="#"', 'href=""', 'id="a"', 'id=""', 'mask="url(#a)"', 'mask="url("', 'fill="url(#a)"', 'fill="url()"', 'fill="url("',
          'd="M"', 'd="Z"', 'd="A1 1 0 0 0 1"', 'd="M0 0a1 1 0 01"', 'd=""', 'points="1"', 'points=""', 'transform="("', 'transform=")"', 'transform="rotate()"', 'style=":;:"',
          'style="fill"', 'viewBox=""', 'stroke-dasharray=","', 'stroke-dasharray=""', 'offset="%"', 'opacity=""', 'r="1e308"', 'width="-1"', 'rx="-1"', 'rx="1e300"']
TAGS = ['svg', 'g', 'rect', 'circle', 'ellipse', 'line', 'polyline', 'polygon', 'path', 'defs', 'use', 'mask', 'title', 'desc', 'linearGradient', 'radialGradient', 'stop',
        'text', 'style', 'a', 'symbol', 'clipPath', 'Rect', 'SVG', 'x:rect']
ATTRS = ['id', 'href', 'x', 'y', 'width', 'height', 'rx', 'ry', 'cx', 'cy', 'r', 'x1', 'y1', 'x2', 'y2', 'points', 'd', 'fill', 'stroke', 'stroke-width', 'stroke-dasharray',
         'stroke-dashoffset', 'stroke-miterlimit', 'opacity', 'fill-opacity', 'stroke-opacity', 'transform', 'mask', 'viewBox', 'offset', 'stop-color', 'stop-opacity', 'style',
         'gradientUnits', 'gradientTransform', 'spreadMethod', 'fx', 'fy', 'fr', 'fill-rule', 'stroke-linecap', 'stroke-linejoin', 'stroke-linegap', 'stroke-leadlinecap']


def corpus():
    out = []
    for f in sorted(glob.glob(core.REPO + '/testdata/*.svg')):
        b = open(f, 'rb').read()
        if len(b) < 20000:
            out.append(b)
    return out


def value(r):
    """a value that may or may not fit an attribute"""
    x = r.random()
    if x < 0.15:
        return r.choice(TOKENS).replace('<', '').replace('&', '').replace('"', '')
    if x < 0.3:
        return ''.join(r.choice('0123456789.-+eE ,%()#abcMmLlzZAaCcQqtTsSHhVv') for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20])))
    if x < 0.45:
        return r.choice(['url(#%s)', '#%s', '%s', 'url(%s)', 'url(#%s']) % r.choice('abc')
    if x < 0.6:
        return r.choice(sum(svgtext.BAD.values(), []))
    if x < 0.75:
        return 'M%d %d' % (r.randint(-9, 99), r.randint(-9, 99)) + ''.join(r.choice('LlHhVvCcSsQqTtAaZzMmBe') + ' '.join(
            r.choice(['0', '1', '5', '-3', '.5', '1e1', '7.25', '100']) for _ in range(r.choice([0, 1, 2, 4, 6, 7, 14]))) for _ in range(r.randint(0, 6)))
    if x < 0.85:
        return r.choice(['translate', 'scale', 'rotate', 'skewX', 'skewY', 'matrix', 'foo', '']) + r.choice(['(', ' (', '']) + ','.join(
            str(r.choice([0, 1, -1, 2.5, 1e9, 90, 45])) for _ in range(r.choice([0, 1, 2, 3, 6]))) + r.choice([')', '', ')) ', ');'])
    return str(r.choice([0, 1, 10, -5, 0.5, 1e-9, 1e9, 50])) + r.choice(['', '', 'px', '%', 'mm', 'in', 'Q', 'em', ' '])


def wild(r):
    """a well-nested document with arbitrary tags, attributes and references"""
    out, stack = ['<svg viewBox="0 0 100 100">'], ['svg']
    for _ in range(r.choice([1, 3, 6, 12, 25])):
        x = r.random()
        if x < 0.3 and len(stack) > 1:
            out.append('</%s>' % stack.pop())
            continue
        if x < 0.36:
            out.append(r.choice(['text', '<!-- c -->', '<![CDATA[x]]>', '&amp;', '\n']))
            continue
        t = r.choice(TAGS[:17] if r.random() < 0.9 else TAGS)
        at, seen = '', set()
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            k = r.choice(ATTRS)
            if k in seen:
                continue
            seen.add(k)
            v = r.choice('abc') if k == 'id' else '#' + r.choice('abc') if k == 'href' and r.random() < 0.85 else value(r)
            at += ' %s="%s"' % (k, v.replace('"', '').replace('<', '').replace('&', ''))
        if r.random() < 0.45:
            out.append('<%s%s/>' % (t, at))
        else:
            out.append('<%s%s>' % (t, at))
            stack.append(t)
    if r.random() < 0.93:
        while stack:
            out.append('</%s>' % stack.pop())
    return ''.join(out).encode()


NASTY = ['', ' ', 'url()', 'url(', 'url( )', 'url(#)', 'url(#', 'url)', 'url(#a)', 'url(#nope)', '#', '##', '#a', '#nope', '%', '%%', '-', '+', '.', 'e', 'e5', '1e', '1e+', '-.', '--1', '.5.',
         '1%', '1 %', 'px', '1px', '1 px', '-px', '(', ')', '()', ')(', '((', 'a(', 'a()', 'a(1', '1)', ',', ',,', '1,', ',1', '1,,2', ';', ':', ';;', 'a:', ':a', 'a:b', 'fill:', 'fill:;', 'fill:url(',
         'none', 'inherit', 'NaN', 'Inf', '-Inf', 'infinity', '0x1p4', '1_0', '0', '-0', '-1', '1e999', '1e-999', '1e308', '1 2', '1 2 3', '1 2 3 4', '1 2 3 4 5', '0 0 0 0', '-1 -1 -1 -1', 'M', 'Z', 'z0', 'M0',
         'M0 0', 'M0 0L', 'M0 0A', 'M0 0S', 'M0 0T', 'M0 0a0 0 0 0 0 0 0', 'M0 0A1 1 0 1 1 0 0', 'M0 0zS1 1 2 2', 'L1 1', 'M0 0 0', 'm', 'a', 'e e', 'rotate', 'rotate(', 'rotate()', 'rotate(1', 'rotate(1,2)',
         'matrix(1)', 'scale()', 'skewX()', 'translate(1)scale', 'rgb', 'rgb(', 'rgb()', 'rgb(,,)', 'rgb(1,2)', 'rgb(%,%,%)', 'rgb(1,2,3', '#f', '#ff', '#ffff', '#fffffff', '#ggg', 'é', '\u00a0', '٣', '½']


def nasty():
    """every attribute with every nasty value, on every element that might read it"""
    for k in ATTRS + ['xlink:href', 'class', 'clip-path', 'stroke-linejoin', 'gradientunits', 'version', 'xml:space']:
        for v in NASTY:
            a = '%s="%s"' % (k, v)
            i = 'id="a"' if k != 'id' else ''
            h = 'href="#a"' if k != 'href' else ''
            yield ('<svg %s><defs><g %s %s><path %s d="M0 0"/></g></defs><linearGradient %s %s><stop %s/><stop/></linearGradient><radialGradient id="r" %s><stop %s/></radialGradient>'
                   '<mask %s %s><rect %s/></mask><g %s><rect width="4" height="4" %s fill-opacity="1"/><circle %s/><ellipse %s/><line %s/><polyline %s/><polygon %s/><path %s/>'
                   '<use %s %s/><title %s>t</title><text %s/></g></svg>' % (a, a, i, a if k != 'd' else '', a, i, a, a, a, a, i, a, a, a if k not in ('width', 'height', 'fill-opacity') else '', a, a, a, a, a, a, a, h, a, a)).encode()
            if k != 'style':
                yield ('<svg><rect width="4" height="4" style="%s:%s"/><stop style="%s:%s;%s:%s"/><linearGradient><stop style="%s:%s"/></linearGradient></svg>' % ((k, v) * 4)).encode()


def damage(b, r, other):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        n = len(b)
        i = r.randrange(n + 1)
        x = r.random()
        if x < 0.25:
            b[i:i] = r.choice(TOKENS).encode()
        elif x < 0.4:
            del b[i:i + r.choice([1, 1, 2, 5, 20])]
        elif x < 0.5:
            j = r.randrange(n + 1)
            b[i:i] = b[j:j + r.choice([3, 10, 60])]
        elif x < 0.6:
            j = r.randrange(len(other) + 1)
            b[i:i] = other[j:j + r.choice([3, 10, 60])]
        elif x < 0.7 and n:
            b[min(i, n - 1)] = r.randrange(256)
        elif x < 0.78:
            del b[i:]
        else:
            # replace an attribute value
            ms = list(re.finditer(rb'="[^"<]*"', bytes(b)))
            if ms:
                m = r.choice(ms)
                v = value(r).replace('"', '').replace('<', '').encode()
                b[m.start():m.end()] = b'="' + v + b'"'
    return bytes(b)


def inputs(n, tag, seed):
    """n inputs as (bytes, kind)"""
    r = random.Random(seed)
    base = corpus()
    for i in range(60):
        p = dict(defs=.15, use=.2, grads=.1, masks=.1, meta=.1, unknown=.1, nested=.1, pct=.2, units=.3, bad=.03, kwbad=.1, cmdbad=.1)
        base.append(svgtext.render(gen.document(seed * 977 + i, **p), random.Random(seed + i)).encode())
    out = []
    for i in range(n):
        if i % 2:
            out.append(wild(r))
        else:
            out.append(damage(r.choice(base), r, r.choice(base)))
    return out


EMPTY = [b'', b' ', b'\n\n', b'text only', b'<!-- comment -->', b'<?xml version="1.0"?>', b'<!DOCTYPE svg>', b'<?xml version="1.0" encoding="UTF-8"?>\n<!-- x -->\n',
         b'\xef\xbb\xbf', b'\x00', b'\xff\xfe', b']]>', b'<![CDATA[x]]>', b'<', b'<>', b'</svg>', b'<!', b'<?']


def big(k):
    """large but regular inputs: nesting, repetition and long values"""
    o = b'<svg viewBox="0 0 10 10">'
    yield o + b'<g>' * k + b'<rect width="1" height="1"/>' + b'</g>' * k + b'</svg>'
    yield o + b'<g>' * k
    yield o + b'<svg>' * k + b'</svg>' * (k + 1)
    yield o + b'<mask id="a">' * (k // 10) + b'<rect width="1" height="1"/>' + b'</mask>' * (k // 10) + b'</svg>'
    yield o + b'<defs>' * (k // 10) + b'<g id="a"/>' + b'</defs>' * (k // 10) + b'<use href="#a"/></svg>'
    yield o + b'<defs>' + b'<g id="a">' * (k // 50) + b'<rect width="1" height="1"/>' + b'</g>' * (k // 50) + b'</defs><use href="#a"/></svg>'
    yield o + b'<path d="M0 0' + b'L1 1' * k + b'"/></svg>'
    yield o + b'<path d="M0 0L' + b'1.5-2' * k + b'"/></svg>'
    yield o + b'<path d="M0 0' + b'z' * k + b'"/></svg>'
    yield o + b'<polyline points="' + b'1,2 ' * k + b'"/></svg>'
    yield o + b'<rect transform="' + b'translate(1)' * k + b'"/></svg>'
    yield o + b'<rect transform="' + b'(' * k + b'"/></svg>'
    yield o + b'<rect width="' + b'1' * k + b'" height="1"/></svg>'
    yield o + b'<rect width="1e' + b'9' * 50 + b'" height="1"/></svg>'
    yield o + b'<rect width="1" height="1" stroke-dasharray="' + b'1 ' * k + b'"/></svg>'
    yield o + b'<title>' + b'x' * k + b'</title></svg>'
    yield o + b'<rect style="' + b'fill:red;' * k + b'"/></svg>'
    yield o + b'<linearGradient id="a">' + b'<stop offset="1"/>' * (k // 10) + b'</linearGradient><rect fill="url(#a)" width="1" height="1"/></svg>'
    # a chain of definitions, each using the previous one
    m = min(k // 100, 300)
    yield o + b'<defs><rect id="d0" width="1" height="1"/>' + b''.join(b'<g id="d%d"><use href="#d%d"/></g>' % (i + 1, i) for i in range(m)) + b'</defs><use href="#d%d"/></svg>' % m
    # cycles of every length
    for n in range(1, 8):
        yield o + b'<defs>' + b''.join(b'<g id="c%d"><use href="#c%d"/></g>' % (i, (i + 1) % n) for i in range(n)) + b'</defs><use href="#c0"/></svg>'
        yield o + b''.join(b'<defs><g id="c%d"><g><use href="#c%d"/></g></g></defs>' % (i, (i + 1) % n) for i in range(n)) + b'<g><use href="#c%d"/></g></svg>' % (n - 1)
        yield o + b''.join(b'<mask id="m%d" mask="url(#m%d)"><rect width="1" height="1" mask="url(#m%d)"/></mask>' % (i, (i + 1) % n, i) for i in range(n)) + b'</svg>'
    yield o + b'<defs><use id="a" href="#a"/></defs><use href="#a"/></svg>'
    yield o + b'<defs><g id="a"><defs><use id="b" href="#a"/></defs><use href="#b"/></g></defs><use href="#a"/></svg>'
