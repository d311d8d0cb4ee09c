#!/usr/bin/env python3
"""Development aid: prop.py FILE... appends property dictionaries to props.py; FILE holds "dict(...)," lines."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/props.py"
s = open(p).read().rstrip()
assert s.endswith("]")
for f in sys.argv[1:]:
    s = s[:-1] + " " + open(f).read().strip() + "\n]"
open(p, "w").write(s + "\n")
