"""ed.py file <<'E' OLD / ==== / NEW E: exact replacement in /tmp/mr/sippy/<file>"""
import sys
p = '/tmp/mr/sippy/' + sys.argv[1]
s = open(p).read()
old, new = (sys.stdin.read().rstrip('\n') + '\n').split('\n====\n')
old += '\n'
assert s.count(old) == 1, (s.count(old), old)
open(p, 'w').write(s.replace(old, new))
