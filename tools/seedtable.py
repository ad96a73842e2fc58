"""Write the table of planted bugs into DESIGN.md from tools/seedresults.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/tools/seedresults.json'))
rows = ['| bug | what it breaks | needs | caught by its check |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + i + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], {True: 'yes', False: 'no', None: '?'}[res.get(i)]))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub('(<!-- seeds -->\n).*(<!-- /seeds -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
