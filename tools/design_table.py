"""Fill the table of planted bugs in DESIGN.md from /verif/seeded."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['needs'], m.get('caught_by', m['property'])))
p = R + '/DESIGN.md'
s = open(p).read()
a = s.index('<!-- table -->')
b = s.index('\nInitially missed')
open(p, 'w').write(s[:a] + '<!-- table -->\n\n' + '\n'.join(rows) + '\n' + s[b:])
