"""claim.py ID 'technique' 'note': append a claim and regenerate."""
import sys, os, subprocess
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py')
s = open(p).read()
i, t, n = sys.argv[1:4]
if "'%s':" % i not in s:
    s = s.replace("}\nNA = {", " %r: (%r,\n         %r),\n}\nNA = {" % (i, t, n), 1)
    open(p, 'w').write(s)
subprocess.check_call(['python3-vt', os.path.join(os.path.dirname(p), 'mk.py')])
