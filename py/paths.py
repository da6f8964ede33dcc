"""Alphabets of the bounded exhaustive path models (MCPath.tla)."""
from arcs import annotate, ARITY
U = 64


def c(letter, *a):
    """absolute or relative command in pixels"""
    up = letter.upper()
    args = []
    for i, x in enumerate(a):
        args.append(int(x) if up == 'A' and i % 7 in (2, 3, 4) else int(x * U))
    return dict(c=up, rel=letter.islower(), a=args, w=[])


STARTS = [c('M', 10, 20), c('m', 5, 6, 7, -8), c('M', 3, 4, 5, 6, 10, 0)]
CMDS = STARTS + [
    c('L', 30, 5), c('l', 4, -3, 2, 2), c('H', 12, 40), c('h', -7), c('V', 33), c('v', 5, 6),
    c('C', 1, 2, 13, 14, 25, 6), c('c', 3, 1, 4, 1, 5, 9), c('S', 20, 21, 8, 9), c('s', 2, 7, 1, 8), c('s', 2, 7, 1, 8, 3, -4, 6, 5),
    c('Q', 11, 12, 31, 4), c('q', 6, 2, 8, 3), c('T', 17, 19), c('t', 3, 5, -2, 7), c('m', 2, 3), c('Z'), c('z'),
]
BAD = [c('L', 1), c('H'), c('C', 1, 2, 3, 4), c('z', 1), c('T', 1, 2, 3), c('m', 4)]
ARCS = [
    c('M', 10, 20), c('m', 30, 10), c('M', 0, 0, 20, 5),
    c('A', 20, 10, 30, 0, 1, 30, 10), c('A', 25, 15, 0, 1, 0, -10, 12), c('a', 12, 30, -45, 1, 1, 10, 8), c('a', 3, 5, 60, 0, 0, 30, -10),
    c('A', 20, 20, 0, 0, 1, 12, 0, 20, 20, 0, 1, 0, 5, 30), c('a', 15, 15, 90, 0, 0, 10, 10, 18, 9, 15, 0, 1, -9, 6),
    c('A', 0, 5, 0, 0, 1, 4, 4), c('a', 8, 9, 0, 1, 1, 0, 0), c('a', -14, -10, 15, 0, 1, 9, 5), c('l', 3, 4), c('t', 5, 1), c('s', 1, 2, 9, 9), c('z'),
]


def words(cmds, word):
    """the command list of a word, with witnesses; None if an arc is unsuitable"""
    out = [dict(cmds[i - 1], a=list(cmds[i - 1]['a']), w=[]) for i in word]
    return out if annotate(out) else None
