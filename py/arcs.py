"""Current points of path commands and witnesses for arcs (verified by the specification)."""
import math

ARITY = dict(M=2, L=2, H=1, V=1, C=6, S=4, Q=4, T=2, A=7)


def centre(x0, y0, rx, ry, rot, large, sweep, x1, y1):
    """SVG 1.1 F.6.5; returns cx, cy, rx, ry and the scale that was needed"""
    rx, ry = abs(rx), abs(ry)
    p = math.radians(rot)
    c, s = math.cos(p), math.sin(p)
    dx, dy = (x0 - x1) / 2, (y0 - y1) / 2
    xp, yp = c * dx + s * dy, -s * dx + c * dy
    lam = (xp / rx) ** 2 + (yp / ry) ** 2
    if lam > 1:
        rx, ry = rx * math.sqrt(lam), ry * math.sqrt(lam)
        k = 0.0
    else:
        k = math.sqrt(max(0.0, 1 / lam - 1)) if lam > 0 else 0
        if large == sweep:
            k = -k
    cxp, cyp = k * rx * yp / ry, -k * ry * xp / rx
    return c * cxp - s * cyp + (x0 + x1) / 2, s * cxp + c * cyp + (y0 + y1) / 2, rx, ry, math.sqrt(lam)


def annotate(cmds):
    """fills in the witnesses; returns the final current point, or None if an arc is too flat for the integers"""
    cur, start, opened = [0, 0], [0, 0], False
    good = True
    for cmd in cmds:
        c, a = cmd['c'], cmd['a']
        cmd['w'] = []
        if c == 'Z':
            cur, opened = list(start), False
            continue
        if c not in ARITY:
            continue
        n = ARITY[c]
        if not a or len(a) % n:
            break
        if c != 'M' and not opened:
            opened, cur = True, list(start)
        for g in range(0, len(a), n):
            bx, by = (cur if cmd['rel'] else (0, 0))
            if c == 'M':
                cur = [a[g] + bx, a[g + 1] + by]
                if g == 0:
                    start, opened = list(cur), True
            elif c == 'H':
                cur = [a[g] + bx, cur[1]]
            elif c == 'V':
                cur = [cur[0], a[g] + by]
            elif c == 'A':
                e = [a[g + 5] + bx, a[g + 6] + by]
                w = [0, 0, 1, 1]
                if e != cur and a[g] and a[g + 1]:
                    cx, cy, rx, ry, k = centre(cur[0], cur[1], a[g], a[g + 1], a[g + 2], a[g + 3], a[g + 4], e[0], e[1])
                    ch = abs(e[0] - cur[0]) + abs(e[1] - cur[1])
                    short = 8 <= ch and 4 * ch <= min(abs(a[g]), abs(a[g + 1]))
                    if k < 0.15 and not short:
                        good = False
                    if max(abs(cx), abs(cy), rx, ry) > 200000 or max(rx, ry) > 12 * min(rx, ry) or min(rx, ry) < 256:
                        good = False
                    w = [round(cx), round(cy), round(rx), round(ry)] if not short else [0, 0, 0, 0]
                cmd['w'].append(w)
                cur = e
            else:
                cur = [a[g + n - 2] + bx, a[g + n - 1] + by]
    return good
