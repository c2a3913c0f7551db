"""Compiles /repo's current sources to one normalised IR dump (cached by content)."""
import hashlib, os, subprocess, sys, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(V, '.cache')
FLAGS = ['-std=c++20', '-fPIC', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-w',
         '-Iinclude', '-I3rdparty', '-Iprec', '-I/opt/vp/include', '-flto=full', '-fwhole-program-vtables', '-fvisibility=hidden',
         '-fno-split-lto-unit', '-emit-llvm', '-c']

class BuildError(Exception): pass

def sources():
    r = subprocess.run(['make', '-s', '-f', '-', 'vp-print-sources'], cwd=REPO, capture_output=True, text=True,
                       input='include Makefile\nvp-print-sources:\n\t@echo $(SOURCES)\n')
    out = []
    for w in r.stdout.split():
        if w.startswith('src/') and w.endswith('.cpp') and w not in out and os.path.exists(os.path.join(REPO, w)):
            out.append(w)
    if len(out) < 40:
        raise BuildError('only %d sources found in the Makefile: %s' % (len(out), r.stderr[:300]))
    return out

def key(srcs, copies=False):
    h = hashlib.sha256()
    files = sorted(srcs) + sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + '/include/**/*', recursive=True) + glob.glob(REPO + '/prec/*.hpp') if os.path.isfile(p))
    for f in files:
        h.update(f.encode()); h.update(open(os.path.join(REPO, f), 'rb').read())
    for f in (os.path.join(V, 'tool/irdump.cpp'), os.path.join(V, 'tool/probe.cpp')):
        h.update(open(f, 'rb').read())
    h.update(' '.join(FLAGS).encode())
    if copies: h.update(b'copies')
    return h.hexdigest()[:24]

def tool(name='irdump', libs=('-lLLVM-18',)):
    exe = os.path.join(V, '.cache', name)
    src = os.path.join(V, 'tool', name + '.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src): return exe
    os.makedirs(CACHE, exist_ok=True)
    cfg = subprocess.run(['llvm-config-18', '--cxxflags', '--ldflags'], capture_output=True, text=True).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = subprocess.run(['clang++-18', '-O1', src, '-o', tmp] + cfg + ['-fno-rtti'] + list(libs), capture_output=True, text=True)
    if r.returncode: raise BuildError('tool %s: %s' % (name, r.stderr[:2000]))
    os.rename(tmp, exe)
    return exe

def copying(wd, bcs):
    """a translation unit that copies and assigns an object of every class with a destructor, where the class permits it"""
    r = subprocess.run(['llvm-nm-18', '--defined-only', '--format=just-symbols'] + bcs, capture_output=True, text=True)
    text = ''.join(open(p, errors='replace').read() for p in sorted(glob.glob(REPO + '/include/**/*.h', recursive=True)))
    names = set()
    for m in re.finditer(r'^_ZN2jm(\d+)(\w+)D[12]Ev$', r.stdout, re.M):
        k = int(m.group(1)); n = m.group(2)[:k]
        if len(n) == k == len(m.group(2)) and re.search(r'\b(class|struct)\s+(\w+\s+)?%s\b\s*(final\s*)?[:{]' % n, text): names.add('jm::' + n)
    for t in ('Array', 'Stack', 'LinkedList'):
        if re.search(r'template\s*<[^>]*>\s*class\s+(\w+\s+)?%s\b' % t, text): names |= {'jm::%s<jm::String>' % t, 'jm::%s<int>' % t} if t == 'Array' else {'jm::%s<jm::String>' % t}
    src = os.path.join(wd, 'copies.cpp')
    with open(src, 'w') as f:
        f.write('#include "PrecompiledCore.hpp"\n#include <new>\n#include <type_traits>\nnamespace copies {\n'
                'template<class T> [[gnu::used]] void destroy(T* a) { if constexpr (std::is_destructible_v<T>) a->T::~T(); }\n'
                'template<class T> [[gnu::used]] void construct(T* a, T& b) { if constexpr (std::is_constructible_v<T, T&>) ::new (static_cast<void*>(a)) T(b); }\n'
                'template<class T> [[gnu::used]] void assign(T& a, T& b) { if constexpr (std::is_assignable_v<T&, T&>) a = b; }\n}\n')
        for n in sorted(names):
            f.write('template void copies::destroy<%s>(%s*); template void copies::construct<%s>(%s*, %s&); template void copies::assign<%s>(%s&, %s&);\n' % ((n,) * 8))
    return src

def dump(copies=False):
    """path of the JSON-lines IR dump of /repo's current tree"""
    os.makedirs(CACHE, exist_ok=True)
    srcs = sources()
    k = key(srcs, copies)
    out = os.path.join(CACHE, 'ir-%s.jsonl' % k)
    if os.path.exists(out): return out, srcs
    texe = ThreadPoolExecutor(1).submit(tool)
    wd = os.path.join(CACHE, 'bc-%s-%d' % (k, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    try:
        # the common header once (falls back to plain compilation)
        pch = os.path.join(wd, 'p.pch'); hdr = 'prec/PrecompiledCore.hpp'
        usepch = os.path.exists(os.path.join(REPO, hdr)) and subprocess.run(
            ['clang++-18'] + [x for x in FLAGS if x not in ('-emit-llvm', '-c')] + ['-x', 'c++-header', hdr, '-o', pch], cwd=REPO, capture_output=True).returncode == 0
        def cc(f, extra=()):
            o = os.path.join(wd, f.replace('/', '_') + '.bc')
            extra = list(extra)
            if usepch and f.startswith('src/'):
                m = re.search(r'^\s*#\s*include\s*[<"]([^>"]*)', open(os.path.join(REPO, f), errors='replace').read(), re.M)
                if m and m.group(1) == 'PrecompiledCore.hpp': extra += ['-include-pch', pch]
            r = subprocess.run(['clang++-18'] + FLAGS + extra + [f, '-o', o], cwd=REPO, capture_output=True, text=True)
            if r.returncode: raise BuildError('%s does not compile: %s' % (f, r.stderr[:2000]))
            return o
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            bcs = list(ex.map(cc, srcs))
        bcs.append(cc(os.path.join(V, 'tool/probe.cpp')))
        if copies: bcs.append(cc(copying(wd, bcs)))
        allbc = os.path.join(wd, 'all.bc')
        r = subprocess.run(['llvm-link-18', '-o', allbc] + bcs, capture_output=True, text=True)
        if r.returncode: raise BuildError('llvm-link: ' + r.stderr[:2000])
        tmp = out + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            r = subprocess.run([texe.result(), allbc], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise BuildError('irdump: ' + r.stderr[:2000])
        os.rename(tmp, out)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    # keep the cache small
    olds = sorted(glob.glob(CACHE + '/ir-*.jsonl'), key=os.path.getmtime)
    for o in olds[:-8]:
        os.remove(o)
    return out, srcs
