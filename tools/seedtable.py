"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | breaks |', '|---|---|---|---|']
for i in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks']))
p = HERE + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: a + '\n'.join(rows) + '\n' + b, s, flags=re.S)
open(p, 'w').write(s)
