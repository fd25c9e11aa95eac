#!/usr/bin/env python3
"""flip.py ID 'technique' 'note': marks a property of props.py as claimed."""
import re, sys
pid, tech, note = sys.argv[1:]
p = '/verif/tools/props.py'
s = open(p).read()
i = s.index("prop('%s'" % pid)
j = s.find("\nprop('", i)
j = len(s) if j < 0 else j
b = s[i:j]
assert b.count('na=T)') == 1, b
b = b.replace('na=T)', 'technique=%r,\n note=%r)' % (tech, note))
open(p, 'w').write(s[:i] + b + s[j:])
