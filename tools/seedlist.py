"""Refreshes the list of seeds in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(d + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('* `%s` — %s: %s.  Needs %s.' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
s = open(d + '/DESIGN.md').read()
s = re.sub(r'(<!-- seeds -->\n).*?(\n<!-- /seeds -->)', lambda m: m[1] + '\n'.join(rows) + m[2], s, flags=re.S)
open(d + '/DESIGN.md', 'w').write(s)
