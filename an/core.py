"""Driver shared by all checks: obligations, findings, evidence, exit status."""
import json, os, sys, time, traceback, importlib
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'an')); sys.path.insert(0, os.path.join(V, 'checks'))
import build, ir
from ir import Anchor

class Undecided(Exception): pass

class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.obl = []; self.notes = {}; self.assumptions = []; self.analysed = set()
        self.expl = ''; self.level = 'other'; self.samples = []; self.counts = {}
        self._mod = None; self.copies = False
    @property
    def mod(self):
        if self._mod is None:
            path, self.srcs = build.dump(self.copies)
            self._mod = ir.Module(path)
        return self._mod
    def ob(self, key, ok, where='', msg=''):
        """one obligation: ok True (holds), False (violated), None (the analysis cannot tell)"""
        self.obl.append((key, ok, where, msg))
        return ok
    def need(self, n, what, least):
        """instance counts below what was confirmed by hand mean that the analysis is broken"""
        self.counts[what] = n
        if n < least: raise Anchor('%s: %d instance(s) found, at least %d expected' % (what, n, least))

def load_known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def main(pid, tier):
    t0 = time.time()
    ck = Check(pid, tier)
    rc = 0; err = None
    try:
        m = importlib.import_module(pid)
        ck.expl = getattr(m, 'EXPLANATION', '')
        ck.level = getattr(m, 'LEVEL', 'other')
        ck.assumptions = list(getattr(m, 'ASSUMPTIONS', []))
        m.run(ck)
        if not ck.obl: raise Anchor('no obligation was generated')
    except (Anchor, build.BuildError) as e:
        err = 'analysis cannot run: %s: %s' % (type(e).__name__, e)
    except Exception as e:
        err = 'analysis failed: %s' % traceback.format_exc()
    known = [k for k in load_known()['findings'] if k['property'] == pid]
    bad = [o for o in ck.obl if o[1] is False]
    und = [o for o in ck.obl if o[1] is None]
    kn = []; viol = []
    for o in bad:
        k = [x for x in known if x['key'] == o[0]]
        (kn if k else viol).append((o, k[0] if k else None))
    seen = set()
    for o, k in kn:
        if o[0] in seen: continue
        seen.add(o[0])
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        rdir = os.path.join(V, 'evidence'); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o, _ in viol:
                f.write('rule instance: %s\nat: %s\n%s\n\n' % (o[0], o[2], o[3]))
        for o, _ in viol[:40]:
            print('  %s  [%s]\n     %s' % (o[2], o[0], o[3][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    if und:
        for o in und[:40]: print('UNDECIDED [%s] %s: %s' % (o[0], o[2], o[3][:300]))
    if err: print(err)
    good = [o for o in ck.obl if o[1] is True]
    # obligations the analysis cannot settle are reported and not counted as explored; without any settled obligation (or after a failure) there is no answer
    if rc == 0 and (err or not good): rc = 3
    cov = {'explanation': ck.expl or 'static analysis of the normalised IR', 'obligations': len(ck.obl), 'discharged': len(good),
           'known_findings': len(kn), 'undecided': len(und), 'functions_analysed': len(ck.analysed), 'instances': ck.counts,
           'samples': ['%s @ %s%s' % (o[0], o[2], ': ' + o[3][:160] if o[3] else '') for o in (good[:6] + good[len(good) // 2:len(good) // 2 + 4])],
           'rule': getattr(sys.modules.get(pid), 'RULE', ''),
           'checker_cmd': 'python3 an/core.py %s %s' % (pid, tier), 'trusted_base': ['clang++-18 front end (source to IR)', 'tool/irdump.cpp', 'an/*.py']}
    if ck.analysed: cov['functions'] = sorted(ck.analysed)[:400]
    cov.update(ck.notes)
    if err: cov['error'] = err
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': ck.level, 'coverage': cov,
          'assumptions': ck.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d known findings, %d violations, %d undecided; %s; %.1fs' % (
        pid, tier, len(ck.obl), len(good), len(kn), len(viol), len(und), ', '.join('%s=%s' % i for i in ck.counts.items()), time.time() - t0))
    return rc

if __name__ == '__main__':
    sys.modules['core'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
