#!/usr/bin/env python3
"""Writes spec/SvgColorNames.tla: the SVG colour keywords (CSS Color 4, section 6.1)."""
import re, sys
src = open('/root/go/pkg/mod/golang.org/x/image@v0.19.0/colornames/table.go').read()
names = re.findall(r'"(\w+)":\s*(?:color\.RGBA)?\{0x(\w\w), 0x(\w\w), 0x(\w\w), 0xff\}', src)
assert len(names) == 147, len(names)
with open('/verif/spec/SvgColorNames.tla', 'w') as f:
    f.write('--------------------------- MODULE SvgColorNames ---------------------------\n')
    f.write('(* The 147 SVG colour keywords: name, its characters and its sRGB value.      *)\n')
    f.write('Keywords == <<\n')
    rows = []
    for n, r, g, b in names:
        rows.append('  [s |-> "%s", n |-> <<%s>>, c |-> <<%d, %d, %d>>]' % (n, ', '.join(str(ord(c)) for c in n), int(r, 16), int(g, 16), int(b, 16)))
    f.write(',\n'.join(rows))
    f.write('\n>>\n=============================================================================\n')
