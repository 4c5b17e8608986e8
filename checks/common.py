"""Running a check: scratch build, forked per-indicator tasks, native replay, verdict and evidence."""
import os, sys, time, json, math, pickle, random, signal, select, struct, traceback, fcntl, resource, re
from fractions import Fraction
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from engine import rt, terms as T, explore, api, native, build
from engine.explore import Violation, PathEnd, Budget, Ex, Stats
from engine.terms import NEG, ZERO, POS
from . import scen

MEMKINDS = {'null', 'uaf', 'oob-read', 'oob-write', 'uninit', 'fptosi', 'overflow', 'int-div0', 'ro-write', 'trap', 'unreachable',
            'double-free', 'bad-free', 'alloc-mismatch', 'shift', 'uninit-output'}
VALUEKINDS = {'differ', 'special', 'range', 'order', 'value'}


class Check:
    """one property.  Subclasses override tasks/scenarios/harness/judge."""
    prop = None
    level = 'model_checking'
    rule = ''
    assumptions = []
    quick_s = 70          # wall budget of the exploration
    thorough_s = 1500
    per_task_max = 25
    harness_units = ()
    max_scn = 250
    focused = False
    focus = ()

    def __init__(self, tier, seed):
        self.tier = tier; self.seed = seed
        self.replaydir = f'{VERIF}/evidence/replay'

    # -- build
    def setup(self):
        self.dir = build.scratch()
        self.src = self.dir + '/src'
        build.copy_source(self.src)
        build.build_ir(self.src, self.dir + '/ir', harness=self.harness_units)
        self.prog = rt.Program(self.dir + '/ir')
        self.A = api.Api(self.prog)
        self.native = native.Native(self.src, self.dir)
        self.consts = {}

    def changed(self):
        """indicators whose code is not the one recorded in engine/baseline.json: they are explored first and longer.  Only the budget
        depends on this; every indicator is explored and judged in the same way"""
        try: base = json.load(open(f'{VERIF}/engine/baseline.json'))
        except OSError: return set()
        cur = build.fingerprints(self.dir + '/ir')
        return {n for n in self.A.infos if base.get(n) != cur.get(n)}

    def tasks(self):
        """list of (name, params)"""
        return [(n, None) for n in self.A.infos]

    def busy(self, on):
        """tells the parent that this worker builds or runs a replay, so that it is not taken for a hanging one"""
        p = f'{self.dir}/busy-{os.getpid()}'
        if on: open(p, 'w').close()
        elif os.path.exists(p): os.unlink(p)

    def replay(self, kind, script, valgrind=False, timeout=60):
        """native run; the build is shared between the forked workers"""
        t0 = time.time()
        left = signal.setitimer(signal.ITIMER_REAL, 0)
        self.busy(True)
        if kind == 'release': kind = self.rounding
        self.ready(kind)
        r = self.native.run(kind, script, timeout=timeout, valgrind=valgrind)
        self.paused = getattr(self, 'paused', 0) + time.time() - t0
        self.busy(False)
        if left[0]: signal.setitimer(signal.ITIMER_REAL, left[0], left[1])
        return r

    def ready(self, kind):
        """builds the driver of that kind unless a worker has done so"""
        if kind not in self.native.exes:
            with open(f'{self.dir}/lock-{kind}', 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                p = f'{self.dir}/driver-{kind}'
                if os.path.exists(p + '.ok'): self.native.exes[kind] = p
                else:
                    self.native.exe(kind)
                    open(p + '.ok', 'w').close()

    rounding = 'release'
    def confirm(self, c):
        """replay a counterexample on the real code.  A disagreement between values has to show on two builds that round differently, and
        must not hang on an exact tie between values that rounding alone decides"""
        ok, why = self.judge(c)
        if not ok or c['kind'] not in VALUEKINDS: return ok, why
        self.rounding = 'debug'
        try: ok, w2 = self.judge(dict(c))
        finally: self.rounding = 'release'
        if not ok: return False, f'release: {why}; unoptimised build: {w2}'
        ins = [x for k in ('inputs', 'inputs2') if c.get(k) for r in c[k] for x in r]
        if all(abs(x) < 1 << 20 and x * 4096 == int(x * 4096) for x in ins if isinstance(x, (int, float))): return True, why
        rng = random.Random(5)
        for _ in range(3):
            d = dict(c)
            f = [1 + rng.uniform(-1, 1) * 2e-6 for _ in range(max([len(r) for r in c['inputs']] + [0]) + 1)]
            for k in ('inputs', 'inputs2'):
                if c.get(k): d[k] = [[x * f[i] for i, x in enumerate(r)] for r in c[k]]
            ok, w2 = self.judge(d)
            if ok: return True, why
        return False, f'{why}, but not after a relative change of the input by 1e-6'

    # -- worker side
    def work(self, name, params, deadline):
        """explore one task -> result dict.  Default: scenario loop."""
        info = self.A.infos[name]
        res = Result(name)
        rng = random.Random(f'{self.seed}-{name}-{self.prop}')
        consts = harvest(self.prog, name, rng)
        known = [k for k in known_findings() if k['property'] == self.prop and k.get('indicator') == name and k['status'] == 'known']
        ctx = Ctx(self, info, rng, res, known, deadline)
        ctx.consts = consts
        try:
            self.explore(ctx)
        except Budget:
            pass
        res.fns = sorted(set(self.prog.compiled)); res.ninstr = self.prog.ninstr
        return res

    def explore(self, ctx):
        cap = self.max_scn if self.tier == 'quick' and not self.focused else self.max_scn * 20
        for sc in self.scenarios(ctx):
            if ctx.over() or ctx.res.nscn >= cap: break
            if not self.run_scenario(ctx, sc): break

    def scenarios(self, ctx):
        O = scen.Options(self.A, ctx.info, ctx.rng)
        with ctx.quiet():
            g = scen.plan(O, ctx.rng, ctx.consts, self.tier)
        while True:
            with ctx.quiet(): sc = next(g, None)
            if sc is None: return
            for x in self.expand(ctx, sc): yield x

    def expand(self, ctx, sc):
        yield sc

    def slice(self, ctx, sc):
        left = ctx.deadline - time.time()
        total = max(1.0, ctx.deadline - ctx.t0)
        return max(0.15, min(total / 8, left))

    def run_scenario(self, ctx, sc):
        """-> False to stop the task"""
        ex = ctx.new_ex(sc, self.slice(ctx, sc))
        def h(ex):
            api.begin(ex)
            ctx.case = None
            ctx.obs = None
            self.harness(ctx, ex, sc)
            ctx.reached += 1
            if ctx.obs is not None and ctx.ntraces < self.max_traces and ctx.rng2.random() < .2: self.trace(ctx, ex)
        ctx.reached = 0
        done = ctx.explore(ex, h, sc)
        return len(ctx.res.cands) < 1

    max_traces = 2
    def trace(self, ctx, ex):
        """validate the encoding: the values the symbolic run computed on this path, at the path's model, against the real code"""
        variant, ins, opts, outs = ctx.obs
        ev = ex.ev
        try:
            f = lambda x: None if x is None else num(ev(x)) if x.__class__ is T.Poly else float(x) if isinstance(x, (int, float, Fraction)) else math.nan
            vals = [[f(x) for x in r] for r in ins]; want = [[f(x) for x in r] for r in outs]; o = [f(x) for x in opts]
        except Exception: return
        ctx.ntraces += 1
        rc, out, err = self.replay('release', native.cmd_call(ctx.info.name, variant.strip('_'), vals, o, len(want[0]) if want else 0))
        if rc != 0: return
        got = native.parse(out)[0][2]
        sc = max([1.0] + [abs(x) for r in vals for x in r if math.isfinite(x)] )
        bad = [(j, i) for j, (a, b) in enumerate(zip(want, got)) for i, (x, y) in enumerate(zip(a, b))
               if (x is None) != (y is None) or (x is not None and math.isfinite(x) and math.isfinite(y) and abs(x - y) > 1e-6 * (sc + abs(x) + abs(y)))]
        ctx.res.traces += 1
        if bad:
            ctx.res.trace_bad += 1
            if len(ctx.res.notes) < 5: ctx.res.notes.append(f'encoding and native run differ at {bad[:3]}: opts {o} inputs {vals} {[want[j][i] for j, i in bad[:2]]} {[got[j][i] for j, i in bad[:2]]}')

    def harness(self, ctx, ex, sc): raise NotImplementedError
    def accept_kind(self, v): return True
    def judge(self, case): raise NotImplementedError


class Result:
    def __init__(self, name):
        self.name = name; self.stats = Stats(); self.scn = []; self.cands = []; self.knownhits = {}; self.unconfirmed = []
        self.fns = []; self.ninstr = 0; self.notes = []; self.exhausted = 0; self.nscn = 0; self.reached = 0; self.err = None; self.wall = 0
        self.unsupported = {}
        self.replays = 0; self.traces = 0; self.trace_bad = 0
        self.extra = {}


class Ctx:
    def __init__(self, check, info, rng, res, known, deadline):
        self.check = check; self.A = check.A; self.info = info; self.rng = rng; self.res = res; self.known = known
        self.t0 = time.time(); self.deadline = deadline; self.case = None; self.reached = 0
        self.qex = None; self.ntraces = 0; self.obs = None; self.rng2 = random.Random(f'{check.seed}-{info.name if info else 0}')
        self.failed_labels = {}

    def limit(self):
        x = self.deadline + getattr(self.check, 'paused', 0)
        return min(x, max(self.deadline, getattr(self.check, 'hard', x)))

    def over(self): return time.time() > self.limit()

    def quiet(self):
        return Quiet()

    def new_ex(self, sc, slice_s):
        end = min(time.time() + slice_s, self.limit())
        ex = Ex(seed=sc.seed * 7919 + self.check.seed, timeout_ms=300, assert_timeout_ms=1500, deadline=end, stats=Stats())
        ex.pick_random = True
        ex.max_violations = 3
        return ex

    def explore(self, ex, h, sc):
        """run ex over harness h; triage violations"""
        res = self.res
        def onv(v):
            if not self.check.accept_kind(v): 
                res.notes_add(f'other-property violation {v}') if hasattr(res, 'notes_add') else None
                return
            case = self.case
            if case is None:
                ex.violations.append(v); res.notes.append(f'violation without case {v}'); return
            case = dict(case)
            case['property'] = self.check.prop; case['indicator'] = self.info.name if self.info else None
            case['kind'] = v.kind; case['msg'] = str(v)
            fl = self.failed_labels
            lab = (v.kind, re.sub(r'\d+', '#', v.msg))
            if fl.get(lab, 0) > 12: return
            fl[lab] = fl.get(lab, 0) + 1
            for model in models(ex):
                c = instantiate(case, model)
                k = self.match_known(c)
                if k is not None:
                    res.knownhits.setdefault(k['id'], c); return
                res.replays += 1
                try: ok, why = self.check.confirm(c)
                except Exception as e: ok, why = False, f'judge: {type(e).__name__} {e}'
                if ok:
                    c['confirmed'] = why
                    res.cands.append(c); ex.violations.append(v)
                    ex.pending = []
                    return
            if len(res.unconfirmed) < 6:
                c['why'] = why; res.unconfirmed.append(c)
            return
        ex.on_violation = onv
        done = False
        try:
            done = ex.run(h)
        except Budget: pass
        except explore.EngineError as e:
            res.notes.append(f'{sc.show()}: {e}')
        except rt.CxxExc as e:
            res.notes.append(f'{sc.show()}: escaped C++ exception')
        except (RecursionError, MemoryError) as e:
            res.notes.append(f'{sc.show()}: {type(e).__name__}')
        st = ex.stats
        res.stats.add(st)
        res.nscn += 1
        res.reached += self.reached
        if done: res.exhausted += 1
        if st.unsupported:
            m = getattr(ex, 'last_unsupported', '?')
            res.unsupported[m] = res.unsupported.get(m, 0) + st.unsupported
        if len(res.scn) < 400: res.scn.append((sc.show(), st.paths, bool(done), self.reached))
        return done

    def match_known(self, c):
        for k in self.known:
            if k.get('when') is None or eval(k['when'], {'__builtins__': {'any': any, 'all': all, 'min': min, 'max': max, 'len': len, 'abs': abs, 'range': range, 'zip': zip, 'int': int, 'float': float, 'sum': sum}}, {'c': c}):
                return k
        return None


class Quiet:
    """a throw-away concrete explorer for queries made while planning"""
    def __enter__(self):
        self.ex = Ex.__new__(Ex)
        ex = Ex(); ex.begin([], None)
        # Ex() resets the atom tables: planning never runs while a scenario is in progress
        api.begin(ex)
        return ex
    def __exit__(self, *a): return False


def models(ex):
    """candidate assignments for the current path, friendliest first"""
    m = dict(ex.model)
    base = {a: v for a, v in m.items()}
    def ok(mm):
        ev = T.Evaluator(mm)
        for e in ex.trace:
            if e.kind != 'c': continue
            v = ev(e.r)
            if v.__class__ is float:
                if v != v: return False
                s = 2 if abs(v) < 1e-12 else 4 if v > 0 else 1
            else: s = POS if v > 0 else NEG if v < 0 else ZERO
            if bool(s & e.mask) != bool(e.taken): return False
        return True
    out = []
    for q in (4, 64, 4096):
        mm = {}
        for a, v in base.items():
            if v.__class__ is float: mm[a] = v; continue
            mm[a] = T.const_norm(Fraction(round(Fraction(v) * q), q)) if not T.ATOMS[a].isint else v
        try:
            if ok(mm): out.append(mm); break
        except Exception: pass
    out.append(base)
    return out


def num(v):
    if v.__class__ is int: return v
    return float(v)


def instantiate(case, model):
    ev = T.Evaluator(model)
    def f(x):
        if x.__class__ in (list, tuple): return [f(y) for y in x]
        if x.__class__ is dict: return {k: f(v) for k, v in x.items()}
        if x.__class__ is T.Poly: return num(ev(x))
        if x.__class__ is Fraction: return float(x)
        return x
    return f(case)


_known = None
def known_findings():
    global _known
    if _known is None:
        p = f'{VERIF}/known_findings.json'
        _known = json.load(open(p))['findings'] if os.path.exists(p) else []
    return _known


def code_constants(irdir, mods):
    """integers and floating-point numbers the code compares against or divides by"""
    cs = set(); fs = set()
    for m in mods:
        try: txt = open(os.path.join(irdir, m)).read()
        except OSError: continue
        for x in re.finditer(r'icmp \w+ i(?:8|16|32|64) [^,\n]+, (-?\d+)', txt): cs.add(int(x.group(1)))
        for x in re.finditer(r'(?:and|urem|srem|shl|lshr|udiv|sdiv) (?:\w+ )*i(?:32|64) [^,\n]+, (-?\d+)', txt): cs.add(int(x.group(1)))
        for x in re.finditer(r'fcmp [\w ]*\b\w+ double ([^,\n]+), ([^,\n]+)$', txt, re.M):
            for y in x.groups():
                try: fs.add(struct.unpack('>d', bytes.fromhex(y[2:]))[0] if y.startswith('0x') else float(y))
                except (ValueError, struct.error): pass
        for x in re.finditer(r'i32 (\d+), label', txt): cs.add(int(x.group(1)))
        for x in re.finditer(r'trunc i(?:32|64) [^\n]* to i(8|16)\b', txt): cs.add(1 << int(x.group(1))); cs.add(1 << int(x.group(1)) - 1)
    return cs, {f for f in fs if math.isfinite(f)}


def modules_of(index, name):
    return {m for m in (index.get('@ti_' + name), index.get('@ti_' + name + '_ref'), index.get('@ti_' + name + '_stream_run')) if m}


_basec = None
def harvest(prog, name, rng):
    """-> (constants of moderate size the indicator's code compares against, those that are not in the recorded code, new reals):
    extra sizes, windows and options; a matter of budget only"""
    global _basec
    if _basec is None:
        try: _basec = json.load(open(f'{VERIF}/engine/baseline_consts.json'))
        except OSError: _basec = {}
    cs, fs = code_constants(prog.irdir, modules_of(prog.index, name))
    b = _basec.get(name)
    new = set(); newf = set()
    if b is not None:
        new = {abs(c) for c in cs - set(b[0])}; newf = {f for f in fs - set(b[1])}
        newf |= {float(c) for c in new if c < 1000}
    for f in fs | newf:
        if abs(f) < 1 << 20 and f == int(f): cs.add(int(f))
    for f in newf:
        if 0 < abs(f) < 1 << 20: new.add(int(abs(f)))
    return Consts(sorted(c for c in cs if 4 < c <= 260), sorted(c for c in new if 1 < c <= 70000), sorted(newf))


class Consts(list):
    def __init__(self, cs, new, newf): super().__init__(cs); self.new = new; self.newf = newf


# ---------------------------------------------------------------------------------------------- scheduling
MAXFOUND = int(os.environ.get('VERIF_MAXFOUND', '3'))
def run_tasks(check, tasks, wall, jobs=None, per_max=25, focus=(), focus_s=60):
    jobs = jobs or min(8, os.cpu_count() or 1)
    begin = time.time(); end = begin + wall
    check.hard = begin + max(500, wall * 1.5)       # replays extend a task's time up to here
    queue = [t for t in tasks if t[0] in focus] + [t for t in tasks if t[0] not in focus]
    running = {}
    results = []
    found = 0
    stop_at = None
    while queue or running:
        now = time.time()
        while queue and len(running) < jobs and not found >= MAXFOUND:
            name, params = queue.pop(0)
            left = max(2.0, end - time.time())
            share = left * jobs / (len(queue) + 1 + len(running))
            b = max(1.2, min(per_max, share * 1.15))
            if name in focus: b = max(b, focus_s)
            check.focused = name in focus
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
                    signal.signal(signal.SIGALRM, _alarm)
                    signal.setitimer(signal.ITIMER_REAL, b + 3, 5)
                    t0 = time.time()
                    try: res = check.work(name, params, t0 + b)
                    except BaseException as e:
                        res = Result(name); res.err = ''.join(traceback.format_exception(e))[-1500:]
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    res.wall = time.time() - t0
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f: f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = [pid, name, time.time() + b * 2 + 60, b'']
        if found >= MAXFOUND: queue = []
        if not running: break
        rl, _, _ = select.select(list(running), [], [], 0.5)
        for r in rl:
            d = os.read(r, 1 << 20)
            if d: running[r][3] += d; continue
            pid, name, _, buf = running.pop(r)
            os.close(r); os.waitpid(pid, 0)
            try: res = pickle.loads(buf)
            except Exception:
                res = Result(name); res.err = 'worker died'
            results.append(res)
            if res.cands:
                found += 1
                if stop_at is None and found >= MAXFOUND: stop_at = time.time() + 15
        now = time.time()
        for r in list(running):
            pid, name, t, buf = running[r]
            if t - 40 < now < check.hard + 60 and os.path.exists(f'{check.dir}/busy-{pid}'): running[r][2] = t = now + 40
            if now > t or (stop_at is not None and now > stop_at):
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
                running.pop(r)
                res = Result(name); res.err = 'killed at its time limit' if now > t else 'stopped: violations found elsewhere'
                results.append(res)
        if stop_at is not None and now > stop_at: queue = []
    return results


def _alarm(*a): raise Budget()


# ---------------------------------------------------------------------------------------------- main
def main(cls):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a for a in sys.argv[2:] if not a.startswith("-") and not a.isdigit()]
    c = cls(tier, seed)
    try:
        c.setup()
    except build.BuildError as e:
        print(f'check {c.prop}: the tree does not build: {e}'); sys.exit(2)
    t1 = time.time()
    tasks = c.tasks()
    if only: tasks = [t for t in tasks if t[0] in only]
    random.Random(seed).shuffle(tasks)
    wall = float(os.environ.get('VERIF_WALL', c.quick_s if tier == 'quick' else c.thorough_s))
    ch = c.changed()
    c.focus = {t[0] for t in tasks} & ch
    if len(c.focus) > 24: c.focus = set()        # a change everywhere: nothing to prefer
    results = run_tasks(c, tasks, wall, per_max=c.per_task_max if tier == 'quick' else 240, focus=c.focus, focus_s=60 if len(c.focus) <= 8 else 25)
    finish(c, results, t0, t1 - t0, verbose='-v' in sys.argv)


def finish(c, results, t0, tb, verbose=False):
    st = Stats()
    fns = set(); und = {}
    cands = []; known = {}
    for r in results:
        st.add(r.stats); fns |= set(r.fns); cands += r.cands
        for k, v in r.knownhits.items(): known.setdefault(k, (r.name, v))
        for k, v in r.unsupported.items(): und[k] = und.get(k, 0) + v
    os.makedirs(c.replaydir, exist_ok=True)
    viol = 0
    shown = set()
    for x in cands:
        viol += 1
        p = f'{c.replaydir}/{c.prop}-{x.get("indicator")}-{viol}.json'
        with open(p, 'w') as f: json.dump(x, f, indent=1, default=str)
        print(f'{c.prop}: {x.get("indicator")}: {x.get("msg")} -- {x.get("confirmed")}')
        print(f'VIOLATION property={c.prop} replay={os.path.relpath(p, VERIF)}')
    kf = [k for k in known_findings() if k['property'] == c.prop and k['status'] == 'known']
    for k in kf:
        print(f'KNOWN-FINDING: property={c.prop} {k["what"]}')
    scn = sum(r.nscn for r in results); exh = sum(r.exhausted for r in results)
    reached = sum(r.reached for r in results)
    samples = []
    for r in results[:400]:
        if r.scn and len(samples) < 12: samples.append(f'{r.name}: {r.scn[min(2, len(r.scn) - 1)][0]} paths={r.scn[min(2, len(r.scn) - 1)][1]} exhausted={r.scn[min(2, len(r.scn) - 1)][2]}')
    if not samples: samples = ['none']
    ev = {
        'property': c.prop, 'tier': c.tier, 'seed': c.seed, 'level': c.level,
        'coverage': {
            'rule': c.rule + ' States are symbolic paths, transitions the branch decisions on them.',
            'states': st.paths, 'transitions': st.branches, 'paths_reaching_their_assertions': reached,
            'traces_validated_against_impl': sum(r.traces for r in results), 'traces_that_disagreed': sum(r.trace_bad for r in results),
            'counterexamples_replayed': sum(r.replays for r in results),
            'samples': samples,
            'functions_encoded': len(fns), 'functions': sorted(fns)[:60], 'ir_instructions_translated': sum(r.ninstr for r in results),
            'tasks': len(results), 'scenarios': scn, 'scenarios_exhausted_every_path': exh,
            'solver_queries': st.queries, 'solver_sat': st.sat, 'solver_unsat': st.unsat, 'solver_unknown': st.unknown, 'solver_seconds': round(st.solver_s, 1),
            'assertions': st.obligations, 'assertions_by_normal_form': st.by_simplifier, 'assertions_by_solver': st.by_solver, 'assertions_undecided': st.undecided,
            'paths_outside_the_encoding': und, 'unconfirmed_counterexamples': [dict(indicator=u.get('indicator'), msg=u.get('msg'), why=u.get('why'), options=u.get('opts')) for r in results for u in r.unconfirmed][:40],
            'tasks_without_result': {r.name: r.err[-300:] for r in results if r.err}, 'tasks_never_reaching_assertion': [r.name for r in results if not r.reached and not r.err][:60],
            'known_findings_met': {k: v[0] for k, v in known.items()}, 'exhaustive': False,
            'build_s': round(tb, 1), 'explored_first_and_longer': sorted(c.focus),
            'per_task': {r.name: [r.nscn, r.exhausted, r.stats.paths] for r in results},
            **getattr(c, 'extra_cov', lambda r: {})(results),
        },
        'assumptions': list(c.assumptions), 'wall_s': round(time.time() - t0, 1), 'violations': viol,
    }
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{c.prop}.json', 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{c.prop} {c.tier}: {len(results)} tasks, {scn} scenarios ({exh} exhausted), {st.paths} paths, {st.obligations} assertions '
          f'({st.undecided} undecided), {st.queries} queries {st.solver_s:.0f}s solver, {viol} violations, {time.time() - t0:.0f}s')
    if verbose:
        for r in sorted(results, key=lambda r: r.name):
            print(f'  {r.name:14s} scn={r.nscn} exh={r.exhausted} paths={r.stats.paths} reach={r.reached} und={r.stats.undecided} unsup={r.unsupported} {r.wall:.1f}s', r.err or '', r.notes[:2])
            for u in r.unconfirmed[:3]: print('     unconfirmed:', u.get('msg'), u.get('why'), u.get('opts'))
    sys.stdout.flush()
    os._exit(1 if viol else 0) if False else None
    sys.exit(1 if viol else 0)
