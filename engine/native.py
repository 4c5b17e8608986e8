"""Replay of concrete scenarios on native builds of the same sources."""
import os, subprocess, threading, shutil, math
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor
from . import build

KINDS = {
    'release': ('gcc', 'g++', build.GXX_FLAGS + ['-DINTERPOSE']),
    'asan': ('clang-18', 'clang++-18', ['-O1', '-g', '-DNDEBUG', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                                        '-fno-sanitize=vptr,function', '-fno-omit-frame-pointer']),
    'plain': ('gcc', 'g++', ['-O0', '-g', '-DNDEBUG', '-w']),
    'debug': ('gcc', 'g++', ['-O1', '-g', '-DNDEBUG', '-w']),
}


def lit(x):
    """python number -> text that strtod reads"""
    if isinstance(x, Fraction): x = float(x)
    if isinstance(x, int): return str(x) if abs(x) < 2**53 else repr(float(x))
    return repr(float(x)) if math.isfinite(x) else ('nan' if x != x else ('inf' if x > 0 else '-inf'))


def _nolimit():
    import resource, signal
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Native:
    def __init__(self, src, outdir, jobs=8):
        self.src = src; self.dir = outdir; self.jobs = jobs
        self.lock = threading.Lock()
        self.exes = {}
        self.n = 0
        self.units = None       # instead of the library and the driver
        self.shared = None      # kind that is also linked as a shared library
        self.extra = []         # more C sources linked into the driver

    def exe(self, kind):
        with self.lock:
            e = self.exes.get(kind)
            if e: return e
            cc, cxx, fl = KINDS[kind]
            if kind == self.shared: fl = fl + ['-fPIC']
            od = f'{self.dir}/{kind}.o'
            os.makedirs(od, exist_ok=True)
            units = self.units or build.lib_sources(self.src) + [build.HERE + '/rt/driver.cc']
            cache = os.environ.get('VERIF_DEV_CACHE')
            def one(u):
                src = u if u.startswith('/') else f'{self.src}/{u}'
                o = f'{od}/{u.replace("/", "_")}.o'
                cmd = ([cc] if u.endswith('.c') else [cxx, '-std=c++17']) + fl + ['-I', self.src, '-c', src, '-o', o]
                c = None
                if cache:
                    import hashlib
                    pp = build._run(cmd[:-3] + ['-E', src])
                    c = f'{cache}/{kind}-{hashlib.sha256(pp.stdout + repr(fl).encode()).hexdigest()}.o'
                    if os.path.exists(c): shutil.copy(c, o); return o
                r = build._run(cmd)
                if r.returncode: raise build.BuildError(r.stderr.decode()[-800:])
                if c: shutil.copy(o, c)
                return o
            with ThreadPoolExecutor(self.jobs) as ex:
                objs = list(ex.map(one, units + self.extra))
            e = f'{self.dir}/driver-{kind}'
            r = build._run([cxx] + (['-fsanitize=address,undefined'] if kind == 'asan' else []) + objs + ['-o', e, '-lm'])
            if r.returncode: raise build.BuildError(r.stderr.decode()[-800:])
            if kind == self.shared:
                r = build._run([cxx, '-shared'] + objs[:-1 - len(self.extra)] + ['-o', f'{self.dir}/lib-{kind}.so', '-lm'])
                if r.returncode: raise build.BuildError(r.stderr.decode()[-800:])
            shutil.rmtree(od, ignore_errors=True)
            self.exes[kind] = e
            return e

    def run(self, kind, script, timeout=60, valgrind=False):
        """-> (exit code or 'timeout', stdout lines, stderr text)"""
        e = self.exe(kind)
        self.n += 1
        path = f'{self.dir}/case{os.getpid()}_{self.n}.txt'
        with open(path, 'w') as f: f.write(script)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1:abort_on_error=0:exitcode=77',
                   UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0:exitcode=78')
        cmd = [e, path]
        if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=79', '--leak-check=no', '--undef-value-errors=yes'] + cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=self.dir, preexec_fn=_nolimit)
            res = (r.returncode, r.stdout.decode(errors='replace').split('\n'), r.stderr.decode(errors='replace'))
        except subprocess.TimeoutExpired:
            res = ('timeout', [], '')
        os.unlink(path)
        return res


def cmd_call(name, variant, inputs, opts, outsize, size=None):
    n = size if size is not None else (len(inputs[0]) if inputs else 0)
    return (f'call {name} {variant or "plain"} {n} {outsize} {len(opts)} ' + ' '.join(lit(o) for o in opts) + f' {len(inputs)} '
            + ' '.join(' '.join(lit(v) for v in i) for i in inputs) + '\n')


def cmd_new(id, name, opts):
    return f'new {id} {name} {len(opts)} ' + ' '.join(lit(o) for o in opts) + '\n'


def cmd_run(id, inputs, outsize, generic=False):
    return (f'{"grun" if generic else "run"} {id} {len(inputs[0])} {outsize} {len(inputs)} '
            + ' '.join(' '.join(lit(v) for v in i) for i in inputs) + '\n')


def parse(lines):
    """-> list of records ('ret', n, outs) / (word, ...)"""
    res = []
    for l in lines:
        w = l.split()
        if not w: continue
        if w[0] == 'ret': res.append(['ret', int(w[1]), []])
        elif w[0] == 'escaped': res.append(['escaped', None, []])
        elif w[0] == 'out': res[-1][2].append([None if x == 'U' else float(x) for x in w[1:]])
        else: res.append(w)
    return res
