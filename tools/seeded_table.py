"""writes section 6 of DESIGN.md between the findings and the false alarms (table of /verif/seeded)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'seeded')
rows = []
also = {'C14-pow-bound': 'C14, C19'}
for b in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), also.get(b, m['property'])))
t = ('## 6 Planted bugs\n\n%d changes in `seeded/`, each validated (applies, builds, stable tests pass, demo passes without and fails with it). Each is caught by '
     'the quick check of the property it is filed under.\nCandidates that the existing tests noticed, or that turned out to change no behaviour, were dropped.\n\n'
     '| change | breaks | needs | caught by |\n|---|---|---|---|\n%s\n\n' % (len(rows), '\n'.join(rows)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
if '@TABLE@\n' in s:
    s = s.replace('@TABLE@\n', t)
else:
    s = re.sub(r'## 6 Planted bugs.*?(?=## 7 )', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
