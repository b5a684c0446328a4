#!/usr/bin/env python3
"""Build everything the checks need from /repo's current working tree.

  build.py engine | lib | harness NAME... | all

Content-hash incremental: a translation unit is recompiled when the command or the content of any
file under /repo (or /verif) it included last time changed."""
import sys, os, re, json, hashlib, subprocess, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.environ.get('VP_BUILD', f'{V}/build')
CLANGXX, CLANG, LLC = 'clang++-18', 'clang-18', 'llc-18'
NCPU = os.cpu_count() or 8

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError(' '.join(cmd)[:2000] + '\n' + r.stdout[:3000])
    return r.stdout

_h = {}
def fhash(p):
    if p not in _h:
        try:
            with open(p, 'rb') as f: _h[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError: _h[p] = None
    return _h[p]

def gen_dir():
    """Generated headers: the build tree's when present, else the committed fallback copies."""
    d = f'{REPO}/_build/include'
    return d if os.path.exists(f'{d}/dynd/cmake_config.hpp') and os.path.exists(f'{d}/dynd/visibility.hpp') and os.path.exists(f'{d}/dynd/abi/version.h') else f'{V}/engine/gen/include'

INC = lambda: [f'-I{REPO}/thirdparty/utf8/source', f'-I{REPO}/include', f'-I{gen_dir()}']
DEFS = ['-DDYNDT_EXPORT', '-Dlibdyndt_EXPORTS', '-DDYND_EXPORT', '-Dlibdynd_EXPORTS', '-DDYND_ABI_COMPILING']
OPT = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-Wno-everything', '-fPIC', '-fno-omit-frame-pointer', '-ffp-contract=off']
CXX = ['-std=c++14', '-include', f'{V}/engine/pre.h', '-ftemplate-depth=500']

def sources():
    t = open(f'{REPO}/CMakeLists.txt').read()
    out = []
    for var in ('libdyndt_SRC', 'libdynd_SRC', 'dynd_abi_src'):
        m = re.search(r'set\(\s*' + var + r'\b(.*?)\)', t, re.S)
        if not m: raise BuildError(f'no {var} in CMakeLists.txt')
        body = re.sub(r'#.*', '', m.group(1))
        for f in re.findall(r'\S+', body):
            if f.endswith(('.cpp', '.c')) and os.path.exists(f'{REPO}/{f}'):
                p = f'{REPO}/{f}'
                if p not in out: out.append(p)
    g = f'{REPO}/_build/src/dynd/git_version.cpp'
    out.append(g if os.path.exists(g) else f'{V}/engine/gen/git_version.cpp')
    return out

def load(p):
    try: return json.load(open(p))
    except Exception: return {}
def save(p, d):
    with open(p + '.tmp', 'w') as f: json.dump(d, f)
    os.replace(p + '.tmp', p)
def parse_dep(p):
    s = open(p).read().replace('\\\n', ' ')
    fs = s.split(':', 1)[1].split()
    return sorted({os.path.normpath(f) for f in fs if f.startswith(REPO) or f.startswith(V)})

def unit(src, d, mode, extra=(), libdefs=None):
    """Compile src to bitcode, prepare it, lower it to an object. Returns True if the object changed."""
    os.makedirs(d, exist_ok=True)
    st = load(f'{d}/state.json')
    c = src.endswith('.c')
    cmd = [CLANG if c else CLANGXX] + DEFS + INC() + OPT + ([] if c else CXX) + list(extra) + ['-emit-llvm', '-c', src]
    tag = hashlib.sha1(os.path.basename(d).encode()).hexdigest()[:8]
    key = hashlib.sha1(json.dumps([cmd, tag]).encode()).hexdigest()
    pkey = [fhash(f'{B}/engine/prep'), libdefs and fhash(libdefs)]
    fresh = st.get('key') == key and st.get('deps') and all(fhash(p) == h for p, h in st['deps'].items()) and os.path.exists(f'{d}/raw.bc')
    raw = st.get('raw')
    if not fresh:
        sh(cmd + ['-MD', '-MF', f'{d}/dep', '-o', f'{d}/raw.tmp'])
        os.replace(f'{d}/raw.tmp', f'{d}/raw.bc')
        _h.pop(f'{d}/raw.bc', None)
        raw = fhash(f'{d}/raw.bc')
    changed = False
    if raw != st.get('raw') or pkey != st.get('pkey') or not os.path.exists(f'{d}/o.o'):
        sh([f'{B}/engine/prep', mode, f'{d}/raw.bc', f'{d}/p.bc', f'{d}/idx', tag] + ([libdefs] if libdefs else []))
        sh([LLC, '-O1', '-relocation-model=pic', '-filetype=obj', f'{d}/p.bc', '-o', f'{d}/o.tmp'])
        os.replace(f'{d}/o.tmp', f'{d}/o.o'); changed = True
    if not fresh or changed:
        deps = {p: fhash(p) for p in parse_dep(f'{d}/dep')}
        save(f'{d}/state.json', {'key': key, 'deps': deps, 'raw': raw, 'pkey': pkey})
    return changed

def build_engine():
    sh(['make', '-s', f'-j{NCPU}', f'B={B}/engine'], cwd=f'{V}/engine')

def build_lib():
    srcs = sources()
    L = f'{B}/lib'
    os.makedirs(L, exist_ok=True)
    dirs = [f'{L}/' + re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(s, REPO) if s.startswith(REPO) else os.path.basename(s)) for s in srcs]
    with ThreadPoolExecutor(NCPU) as ex:
        # big units first
        order = sorted(range(len(srcs)), key=lambda i: -(os.path.getsize(dirs[i] + '/raw.bc') if os.path.exists(dirs[i] + '/raw.bc') else 0))
        ch = list(ex.map(lambda i: unit(srcs[i], dirs[i], 'lib'), order))
    mods = ''.join(f'{d}/idx {d}/p.bc\n' for d in dirs)
    old = open(f'{L}/modules.txt').read() if os.path.exists(f'{L}/modules.txt') else ''
    if any(ch) or mods != old or not os.path.exists(f'{L}/libdyndall.so'):
        open(f'{L}/modules.txt', 'w').write(mods)
        names = set()
        for d in dirs:
            for l in open(f'{d}/idx'): names.add(l.split()[1])
        defs = '\n'.join(sorted(names)) + '\n'
        if not os.path.exists(f'{L}/lib.defs') or open(f'{L}/lib.defs').read() != defs:
            open(f'{L}/lib.defs', 'w').write(defs)
        sh([CLANGXX, '-shared', '-fuse-ld=lld', '-Wl,-Bsymbolic', '-o', f'{L}/libdyndall.so.tmp'] + [f'{d}/o.o' for d in dirs] + ['-ldl', '-lpthread'])
        os.replace(f'{L}/libdyndall.so.tmp', f'{L}/libdyndall.so')
        _h.pop(f'{L}/lib.defs', None)
    return L

def build_harness(name):
    d = f'{B}/harness/{name}'
    L = f'{B}/lib'
    ch = unit(f'{V}/harness/{name}.cpp', d, 'harness', [f'-I{V}/engine', f'-I{V}/harness'], f'{L}/lib.defs')
    so = f'{d}/h.so'
    if ch or not os.path.exists(so):
        sh([CLANGXX, '-shared', '-fuse-ld=lld', '-Wl,-Bsymbolic', '-o', so + '.tmp', f'{d}/o.o', f'-L{L}', '-l:libdyndall.so', f'-Wl,-rpath,{L}'])
        os.replace(so + '.tmp', so)
    return d

class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True); self.f = open(f'{B}/.lock', 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def all_harnesses(): return sorted(f[:-4] for f in os.listdir(f'{V}/harness') if f.endswith('.cpp'))

def main(a):
    with Lock():
        t = time.time()
        if a[0] in ('engine', 'all', 'lib', 'harness'): build_engine(); print(f'engine {time.time()-t:.1f}s', flush=True)
        if a[0] in ('lib', 'all', 'harness'): build_lib(); print(f'lib {time.time()-t:.1f}s', flush=True)
        hs = all_harnesses() if a[0] == 'all' else a[1:] if a[0] == 'harness' else []
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(build_harness, hs))
        print(f'harnesses {time.time()-t:.1f}s', flush=True)
if __name__ == '__main__':
    try: main(sys.argv[1:])
    except BuildError as e: print('BUILD-ERROR', e); sys.exit(2)
