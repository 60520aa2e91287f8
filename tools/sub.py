"""sub.py FILE <<< JSON [[old,new,count],...]: exact replacement that keeps the file's line endings (development helper)"""
import json, sys
p = sys.argv[1]
s = open(p, newline='').read()
crlf = '\r\n' in s
for e in json.load(sys.stdin):
    o, n = e[0], e[1]
    if crlf:
        o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
    c = s.count(o)
    want = e[2] if len(e) > 2 else 1
    if c != want:
        sys.exit('%s: %d matches of %r' % (p, c, o[:80]))
    s = s.replace(o, n)
open(p, 'w', newline='').write(s)
