"""Alphabets of the bounded exhaustive document models (MCDoc.tla)."""
U, S = 64, 4096


def L(n, u=''):
    return dict(t='len', n=int(n * U), u=u)


def num(x):
    return dict(t='num', n=int(x * S), pct=False)


def kw(s):
    return dict(t='kw', s=s)


def name(s):
    return dict(t='name', s=s)


def url(i):
    return dict(t='url', id=i)


def st(s):
    return dict(t='str', s=s)


def tf(*fs):
    return dict(t='tf', a=[dict(f=f, a=[int(x * S) for x in a]) for f, *a in fs])


def ref(i):
    return dict(t='ref', id=i) if i else dict(t='none')


def dash(*a):
    return dict(t='dash', a=[L(x) for x in a])


def O(tag, at=None, sty=None):
    at = at or {}
    return dict(e='open', tag=tag, at=[dict(k=k, v=v) for k, v in at.items()], sty=[dict(k=k, v=v) for k, v in (sty or {}).items()])


C = dict(e='close')


def up(tag, at=None, sty=None):
    return dict(d=1, ev=[O(tag, at, sty)], no=[])


def leaf(tag, at=None, sty=None, *inner):
    return dict(d=0, ev=[O(tag, at, sty)] + list(inner) + [C], no=[])


def text(s):
    return dict(d=0, ev=[dict(e='text', s=s)], no=[])


def no(item, *tags):
    return dict(item, no=list(tags))


def rect(x, **at):
    return leaf('rect', dict(x=L(x), width=L(4), height=L(3), **{k.replace('_', '-'): v for k, v in at.items()}))


def line(x, **at):
    return leaf('line', dict(x1=L(x), y1=L(1), x2=L(x + 5), y2=L(7), **{k.replace('_', '-'): v for k, v in at.items()}))


ROOT = [O('svg', dict(viewBox=dict(t='nums', a=[0, 0, 40 * U, 30 * U])))]


def conf(items, max, depth, modes=('ignore',), root=ROOT):
    return dict(items=items, max=max, depth=depth, modes=list(modes), root=root)


def stop(off, col=None, **at):
    a = dict(offset=num(off), **{k.replace('_', '-'): v for k, v in at.items()})
    if col:
        a['stop-color'] = name(col)
    return [O('stop', a), C]


ALPHA = {
    'C01': dict(
        items=[up('defs'), up('g', {'id': st('a')}), up('g', {'id': st('b')}), leaf('use', dict(href=st('a'))), leaf('use', dict(href=st('b'))),
               leaf('use', dict(href=st('b'), id=st('a'))), rect(1, id=st('b')), up('mask', {'id': st('a'), 'mask': ref('a')})],
        quick=(7, 4), thorough=(8, 5), laws=['Rest'], props=['Stable', 'Final']),
    'C02': dict(
        items=[up('g', {'stroke-width': L(3), 'fill': name('red')}),
               up('g', {'stroke-width': L(4)}, {'stroke-width': L(5), 'opacity': num(0.5)}),
               up('g', {'stroke-dasharray': dash(3), 'stroke': name('blue')}),
               up('g', {'fill-opacity': num(0.5), 'fill-rule': kw('evenodd'), 'stroke-linecap': kw('round')}),
               rect(1), rect(2, fill=dict(t='none'), stroke_dasharray=dict(t='none'), stroke_width=L(10, '%')),
               line(3, stroke_opacity=num(0.25), opacity=num(0.5), stroke_linejoin=kw('round'))],
        quick=(5, 4), thorough=(7, 5), laws=['Rest', 'CascadeLaw'], props=['Stable', 'Final']),
    'C07': dict(
        items=[up('g', {'transform': tf(('translate', 3, 5))}), up('g', {'transform': tf(('translate', -3, -5))}), up('g', {'transform': tf(('rotate', 90))}),
               up('g', {'transform': tf(('scale', 2, 0.5), ('translate', 1))}),
               up('g', {'transform': tf(('skewx', 45), ('matrix', 1, 0.5, -1, 2, 7, -3))}), up('g'),
               rect(1), line(2, transform=tf(('rotate', 180, 4, 6), ('scale', -1)))],
        quick=(6, 4), thorough=(8, 6), laws=['Rest', 'TransformLaw'], props=['Stable']),
    'C09': dict(
        items=[up('defs'), up('g', {'id': st('a'), 'stroke-width': L(3)}), up('g', {'transform': tf(('scale', 2))}),
               rect(1, id=st('a')), line(2, id=st('b'), transform=tf(('translate', 1, 2))),
               leaf('use', dict(href=st('a'), x=L(5), fill=name('red'))),
               leaf('use', dict(href=st('b'), y=L(7), id=st('a'), transform=tf(('rotate', 90)))),
               leaf('use', dict(href=st('a'), id=st('b')))],
        quick=(6, 4), thorough=(8, 5), laws=['Rest', 'UseLaw'], props=['Stable']),
    'C10': dict(
        items=[leaf('linearGradient', dict(id=st('g')), None, *stop(0, 'red'), *stop(1)),
               leaf('radialGradient', dict(id=st('g'), cx=L(25, '%')), None, *stop(0.5, 'blue')),
               up('defs'), up('g', {'fill': url('g')}), up('g', {'fill': name('green')}), up('g', None, {'fill': url('none')}),
               rect(1), rect(2, fill=url('g'))],
        quick=(6, 4), thorough=(8, 5), laws=['Rest', 'GradLaw'], props=['Stable']),
    'C11': dict(
        items=[up('mask', {'id': st('m'), 'x': L(2)}), up('mask', {'id': st('n'), 'height': L(9), 'mask': ref('m')}),
               up('g', {'mask': ref('m')}), up('g', None, {'mask': ref('n')}), up('g', {'mask': ref('')}),
               rect(1), rect(2, mask=ref('m'))],
        quick=(6, 5), thorough=(8, 6), laws=['Rest', 'RefsLaw'], props=['Stable']),
    'C11b': dict(  # every mask id at most once: the content law
        items=[up('mask', {'id': st('m'), 'x': L(2)}), up('g', {'transform': tf(('scale', 2))}), up('g', {'mask': ref('m')}),
               rect(1), line(2), up('svg')],
        quick=(6, 4), thorough=(9, 5), laws=['Rest', 'MaskLawOnce'], props=['Stable']),
    'C12': dict(
        items=[up('foo'), up('g'), rect(1), rect(2, stroke_linecap=kw('wide')), rect(3, y=dict(t='bad')),
               leaf('path', dict(d=dict(t='path', a=[dict(c='M', rel=False, a=[0, 0], w=[]), dict(c='?', rel=False, a=[], w=[], raw='B 1 2'),
                                                   dict(c='L', rel=False, a=[U, U], w=[])]))),
               rect(4, fill=dict(t='bad'))],
        quick=(5, 3), thorough=(6, 4), laws=['ModeLaw'], props=['Final'], modes=('ignore', 'warn', 'strict')),
    'C13': dict(
        items=[up('title'), up('desc', {'id': st('a')}), up('defs'), up('g', {'id': st('a')}), leaf('use', dict(href=st('a'))),
               leaf('svg', dict(viewBox=dict(t='nums', a=[U, U, U, U]), width=dict(t='dim', s='7', l=L(7)))),
               text('ab '), text('<&c'), rect(1)],
        quick=(6, 4), thorough=(7, 5), laws=['TextLaw', 'SizeLaw'], props=['Final']),
}
