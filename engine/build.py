"""Builds everything a check needs from /repo's current working tree, in a scratch directory."""
import os, sys, subprocess, shutil, tempfile, re, hashlib, atexit, signal, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG_FLAGS = ['-w', '-DNDEBUG', '-ffp-contract=off', '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-o', '-']
OPT = ['opt-18', '-S', '-passes=function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,dce),globaldce']
GXX_FLAGS = ['-O2', '-O3', '-DNDEBUG', '-ffast-math', '-fno-finite-math-only', '-fPIC', '-w']


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='tiverif-')
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def copy_source(dst):
    """tracked-and-untracked source files of the working tree, without build products"""
    os.makedirs(dst, exist_ok=True)
    for n in ('codegen.py', 'version.py', 'indicators.yaml', 'CMakeLists.txt', 'docsgen.py'):
        if os.path.exists(f'{REPO}/{n}'): shutil.copy(f'{REPO}/{n}', dst)
    for n in ('indicators', 'utils', 'tests'):
        if os.path.isdir(f'{REPO}/{n}'):
            shutil.copytree(f'{REPO}/{n}', f'{dst}/{n}', ignore=shutil.ignore_patterns('*.o', '__pycache__', '*.so'))
    os.makedirs(f'{dst}/bindings', exist_ok=True)
    if os.path.isdir(f'{REPO}/bindings/python'):
        shutil.copytree(f'{REPO}/bindings/python', f'{dst}/bindings/python', ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    for py in ('/opt/vp/venv/bin/python', sys.executable, 'python3', '/opt/veriftools/pyvenv/bin/python'):
        try: r = _run([py, 'codegen.py'], cwd=dst)
        except OSError: continue
        if r.returncode == 0 and os.path.exists(f'{dst}/indicators_index.c'): return
    raise BuildError('codegen.py failed: ' + r.stderr.decode()[-500:])


def to_ir(src, out, inc=None, extra=()):
    std = ['clang-18'] if src.endswith('.c') else ['clang++-18', '-std=c++17']
    cache = os.environ.get('VERIF_DEV_CACHE')
    if cache:
        pp = _run(std + ['-w', '-DNDEBUG', '-E', src] + list(extra))
        h = hashlib.sha256(pp.stdout + ' '.join(CLANG_FLAGS + OPT).encode()).hexdigest()
        c = os.path.join(cache, h + '.ll')
        if os.path.exists(c):
            shutil.copy(c, out); return None
    r = _run(std + CLANG_FLAGS + list(extra) + [src])
    if r.returncode: return r.stderr.decode()[-800:]
    txt = re.sub(rb' (optnone|noinline)\b', b'', r.stdout)
    r = _run(OPT, input=txt)
    if r.returncode: return r.stderr.decode()[-800:]
    with open(out, 'wb') as f: f.write(r.stdout)
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(out, c)
    return None


def lib_sources(src):
    """translation units of the library"""
    r = []
    for d in ('indicators', 'utils'):
        for n in sorted(os.listdir(f'{src}/{d}')):
            if n.endswith(('.cc', '.c', '.cpp')) and n != 'testing.cc': r.append(f'{d}/{n}')
    r.append('indicators_index.c')
    return r


def build_ir(src, irdir, jobs=8, units=None, harness=()):
    os.makedirs(irdir, exist_ok=True)
    work = []
    for u in (units if units is not None else lib_sources(src)):
        work.append((f'{src}/{u}', f'{irdir}/{os.path.basename(u).rsplit(".", 1)[0]}.ll'))
    work.append((f'{HERE}/rt/rbtree.cc', f'{irdir}/_rbtree.ll'))
    for h, name in harness: work.append((h, f'{irdir}/{name}.ll'))
    errs = []
    with ThreadPoolExecutor(jobs) as ex:
        for (s, o), e in zip(work, ex.map(lambda w: to_ir(w[0], w[1], extra=['-I', src]), work)):
            if e: errs.append((s, e))
    if errs: raise BuildError(f'{errs[0][0]}: {errs[0][1]}')
    with open(f'{irdir}/index.txt', 'w') as f:
        for s, o in work:
            base = os.path.basename(o)
            for l in open(o):
                if l.startswith('define') and not re.match(r'define (internal|private)', l):
                    m = re.search(r'(@[-\w.$]+)\(', l)
                    if m: f.write(f'{m.group(1)} {base}\n')
                elif l.startswith('@') and not l.startswith('@llvm') and ' = ' in l:
                    m = re.match(r'(@[-\w.$]+) = (.*)', l)
                    if m and not re.match(r'(internal|private|external)', m.group(2)): f.write(f'{m.group(1)} {base}\n')


def fingerprints(irdir):
    """indicator -> digest of its IR and of everything it calls"""
    idx = dict(l.split() for l in open(f'{irdir}/index.txt'))
    txt = {}; refs = {}
    for m in set(idx.values()):
        t = open(f'{irdir}/{m}').read()
        t = re.sub(r'^(source_filename|; ModuleID|!|attributes).*$', '', t, flags=re.M)
        txt[m] = hashlib.sha256(t.encode()).digest()
        refs[m] = {idx[x] for x in re.findall(r'^declare [^@\n]*(@[-\w.$]+)\(', t, re.M) if x in idx} | {idx[x] for x in re.findall(r'^(@[-\w.$]+) = external', t, re.M) if x in idx}
    res = {}
    for s, m in idx.items():
        k = re.match(r'@ti_(\w+)_start$', s)
        if not k: continue
        seen = {m}; todo = [m]
        while todo:
            for r in refs[todo.pop()]:
                if r not in seen and r != 'indicators_index.ll': seen.add(r); todo.append(r)
        h = hashlib.sha256()
        for x in sorted(seen): h.update(x.encode()); h.update(txt[x])
        res[k.group(1)] = h.hexdigest()[:16]
    return res


def build_native(src, out, kind='release', jobs=8, units=None):
    """shared library from the same sources. kind: release | asan"""
    odir = out + '.o'
    os.makedirs(odir, exist_ok=True)
    cflags = list(GXX_FLAGS)
    cc, cxx = 'gcc', 'g++'
    if kind == 'asan':
        cc, cxx = 'clang-18', 'clang++-18'
        cflags = ['-O1', '-g', '-DNDEBUG', '-fPIC', '-w', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize=vptr,function', '-fno-omit-frame-pointer']
    if kind == 'debug':
        cflags = ['-O1', '-g', '-DNDEBUG', '-fPIC', '-w']
    def one(u):
        c = [cc] if u.endswith('.c') else [cxx, '-std=c++17']
        o = f'{odir}/{u.replace("/", "_")}.o'
        r = _run(c + cflags + ['-I', src, '-c', f'{src}/{u}', '-o', o])
        if r.returncode: raise BuildError(r.stderr.decode()[-800:])
        return o
    with ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(one, units if units is not None else lib_sources(src)))
    r = _run([cxx, '-shared', '-o', out] + objs + (['-fsanitize=address,undefined'] if kind == 'asan' else []) + ['-lm'])
    if r.returncode: raise BuildError(r.stderr.decode()[-800:])
    shutil.rmtree(odir, ignore_errors=True)
    return out
