"""Appends the generated tables of DESIGN.md (per property, defects, planted bugs) from gen/list.py, known_findings.json and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note='', obs=None, na=None, **k): P.append((id, title, technique, note, text, mech, na, k))
exec(open(os.path.join(V, 'gen', 'list.py')).read())
D = os.path.join(V, 'gen', 'design.txt')
notes = {}
if os.path.exists(D):
    for b in re.split(r'^## ', open(D).read(), flags=re.M)[1:]:
        h, t = b.split('\n', 1); notes[h.strip()] = t.strip()
mark = '<!-- generated below by gen/design.py -->'
p = os.path.join(V, 'DESIGN.md'); s = open(p).read().split(mark)[0].rstrip() + '\n\n' + mark + '\n\n## Properties\n'
for id, title, tech, note, text, mech, na, k in P:
    s += '\n### %s %s\n\n' % (id, title)
    if na: s += 'Not applicable: %s\n' % na; continue
    s += '*Method*: %s. *Ranges over*: %s.\n%s\n' % (tech, text, note)
    for n, a in mech: s += '- %s: `%s`\n' % (n, a)
    if id in notes: s += '\n' + notes[id] + '\n'
kf = json.load(open(os.path.join(V, 'known_findings.json')))
s += '\n## Genuine defects repaired in /repo\n\n' + ''.join('- %s\n' % f.replace('fixed: property=', '') for f in kf['fixed'])
s += '\n## Genuine defects recorded as known findings\n\n' + (''.join('- %s: %s\n' % (f.get('property'), f.get('what', f.get('text', ''))) for f in kf['findings']) or 'none\n')
s += '\n## Planted changes\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
for n in sorted(os.listdir(os.path.join(V, 'seeded'))):
    d = os.path.join(V, 'seeded', n)
    if not os.path.exists(d + '/patch.diff'): continue
    m = json.load(open(d + '/meta.json'))
    s += '| %s: %s | %s | %s | %s |\n' % (n, m['what_it_breaks'], m['property'], m['needs'], m.get('caught', m['property']))
for h in notes:
    if not re.match(r'[A-Z]\d\d$', h): s += '\n## %s\n\n%s\n' % (h, notes[h])
open(p, 'w').write(s)
