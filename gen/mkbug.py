"""Plants the bugs described in gen/bugs.py one after the other:  python3 gen/mkbug.py [ID...]   (works on /repo, restores it)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []
def bug(id, prop, edits, demo, needs, breaks): B.append((id, prop, edits, demo, needs, breaks))
exec(open(os.path.join(V, 'gen', 'bugs.py')).read())
DEMO = '''#!/bin/bash
# builds the demonstration against the library and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d) || exit 99
trap 'rm -rf -- "$t"' EXIT
clang++-18 -std=c++20 -O1 -w -I"$r/include" -I"$r/3rdparty" -I"$r/prec" -I/opt/vp/include "$d/demo.cpp" "$r/bin/libcore.a" -lz -ldl -pthread -o "$t/demo" || exit 98
cd "$t" && timeout 60 ./demo
'''
HEAD = '''#include "PrecompiledCore.hpp"
#include <cstdio>
using namespace jm;
#define CHECK(c) do { if(!(c)) { printf("fails: %s\\n", #c); return 1; } } while(0)
int demo();
int main() { System::init("demo"); return demo(); }
'''
def sh(c, t=600): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, cwd='/repo')
def restore(): sh('git checkout -- .')
def main():
    ids = sys.argv[1:]
    assert not sh('git status --porcelain').stdout.strip(), '/repo is not clean'
    for id, prop, edits, demo, needs, breaks in B:
        d = os.path.join(V, 'seeded', id)
        if ids and id not in ids or not ids and os.path.exists(d + '/ok'): continue
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(HEAD + demo.replace('int main()', 'int demo()')); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        try:
            sh('bash /opt/vp/build.sh'); r0 = sh('bash %s/demo.sh' % d)
            for f, old, new in edits:
                s = open('/repo/' + f).read()
                assert s.count(old) == 1, '%s: %d occurrences of %r in %s' % (id, s.count(old), old, f)
                open('/repo/' + f, 'w').write(s.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
            b = sh('bash /opt/vp/build.sh'); r1 = sh('bash %s/demo.sh' % d)
            t = sh('bash /opt/vp/test.sh /tmp/mkbug.json'); j = json.load(open('/tmp/mkbug.json'))
            nf = len(j['failed']) if hasattr(j['failed'], '__len__') else j['failed']
            props = [prop]
            c = sh('cd %s && python3 an/core.py %s' % (V, prop), 900)
            caught = c.returncode == 1 and 'VIOLATION property=%s' % prop in c.stdout
            print('%-28s build %d, tests failing %s, demo %d -> %d, %s %s' % (id, b.returncode, nf, r0.returncode, r1.returncode, prop, 'caught' if caught else 'MISSED (exit %d)' % c.returncode))
            if b.returncode == 0 and nf == 0 and r0.returncode == 0 and r1.returncode not in (0, 98, 99): open(d + '/ok', 'w').write('caught' if caught else 'missed')
            if r0.returncode: print('   clean demo: ' + (r0.stdout + r0.stderr)[-600:])
            if not caught or r1.returncode in (98,): print('   ' + (r1.stdout + r1.stderr)[-300:] + c.stdout[-600:])
        finally: restore()
    sh('bash /opt/vp/build.sh')
main()
