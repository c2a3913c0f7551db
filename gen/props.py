"""Single source of properties.jsonl and MANIFEST.json:  python3 gen/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
N = []      # not claimed: (property dict, reason)
AI_NOTE = ('Abstract interpretation of the normalised LLVM IR of the current sources (symbolic values, interval and equality facts, path partitioning, loops over-approximated '
           'or fully unrolled); nothing is executed and no solver is used. Trusts clang as front end, tool/irdump.cpp and an/*.py. ')

def prop(id, title, statement, over, text, why, files, mech, technique=None, note='', observe=(), na=None, state=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d['anchors']['observe_at'] = list(observe)
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if na: N.append((d, na))
    else: P.append((d, technique, note))

exec(open(os.path.join(V, 'gen', 'list.py')).read())

def main():
    ids = [d['id'] for d, *_ in P] + [d['id'] for d, *_ in N]
    assert len(ids) == len(set(ids)), 'duplicate id'
    for d, *_ in P + N:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        assert d['statement'].count('. ') <= 2, (d['id'], 'more than three sentences')
        for f in d['anchors']['files']: assert os.path.exists('/repo/' + f), (d['id'], f)
    with open(V + '/properties.jsonl', 'w') as f:
        for d, *_ in sorted(P, key=lambda x: x[0]['id']) : f.write(json.dumps(d) + '\n')
        for d, *_ in sorted(N, key=lambda x: x[0]['id']): f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 an/setup.py', checks=[], not_applicable=[dict(property=d['id'], reason=r) for d, r in N],
             notes='Every check compiles /repo\'s current sources to LLVM IR (cached by content under /verif/.cache) and analyses that; see DESIGN.md. Both tiers run the same complete analysis unless noted.')
    for d, t, n in sorted(P, key=lambda x: x[0]['id']):
        assert os.path.exists('%s/checks/%s.py' % (V, d['id'])), d['id']
        m['checks'].append(dict(property=d['id'], quick_cmd='python3 an/core.py %s quick' % d['id'], thorough_cmd='python3 an/core.py %s thorough' % d['id'],
                                technique=t, level='other', level_note=AI_NOTE + n))
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print('%d claimed, %d not applicable' % (len(P), len(N)))
main()
