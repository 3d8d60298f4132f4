"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (all: caught by the property's quick check)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}          # id -> why the check does not catch it
if os.path.exists(root + '/seeded/MISSED.json'):
    MISSED = json.load(open(root + '/seeded/MISSED.json'))
rows = {}
for p in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    rows.setdefault(m['property'], []).append((i, m['what_it_breaks'], i in MISSED))
out = ['<!-- table -->', '| check (quick) | catches |', '|---|---|']
n = 0
for k in sorted(rows):
    n += sum(not x[2] for x in rows[k])
    out.append('| %s | %s |' % (k, ', '.join('`%s`%s' % (i, ' (**missed**)' if miss else '') for i, w, miss in rows[k])))
out += ['', '%d planted bugs kept, %d caught.%s' % (sum(map(len, rows.values())), n,
        ''.join(' `%s`: %s.' % kv for kv in MISSED.items())), '<!-- /table -->']
s = open(root + '/DESIGN.md').read()
new = '\n'.join(out)
if '@@TABLE@@' in s: s = s.replace('@@TABLE@@', new)
else: s = re.sub(r'<!-- table -->.*<!-- /table -->', lambda _: new, s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
