#!/usr/bin/env python3
"""edit.py FILE: replace OLD (between <<<< and ====) by NEW (to >>>>) from stdin, keeping line ends."""
import sys
p = sys.argv[1]
s = open(p, newline='').read()
crlf = '\r\n' in s
t = s.replace('\r\n', '\n')
spec = sys.stdin.read()
for part in spec.split('<<<<\n')[1:]:
    old, new = part.split('====\n', 1)
    new = new.split('>>>>\n', 1)[0]
    assert t.count(old) == 1, (t.count(old), old)
    t = t.replace(old, new)
if crlf:
    t = t.replace('\n', '\r\n')
open(p, 'w', newline='').write(t)
