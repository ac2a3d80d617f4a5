#!/usr/bin/env python3
"""redit.py FILE <<< python literal list of (old, new): exact replacement preserving CRLF line ends."""
import ast, sys
p = sys.argv[1]
b = open(p, 'rb').read()
crlf = b'\r\n' in b
for old, new in ast.literal_eval(sys.stdin.read()):
    o, n = old.encode(), new.encode()
    if crlf:
        o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
    assert b.count(o) == 1, (p, b.count(o), old)
    b = b.replace(o, n)
open(p, 'wb').write(b)
