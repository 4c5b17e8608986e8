"""C17: the Python binding, executed over the real library in the symbolic machine."""
import subprocess, shutil
from .core import *
from . import pystubs

SCRIPT = r'''
import sys, json, math
sys.path.insert(0, sys.argv[1])
from fractions import Fraction
import numpy as np
from tindicators import impl
ti = impl.ti
for c in json.load(open(sys.argv[2])):
    if c.get('listing'): print(json.dumps({'list': list(ti.available_indicators)})); continue
    ins = [[float(x) for x in r] for r in c['inputs']]
    ins = [{0: list, 1: np.array, 2: tuple, 3: lambda r: np.repeat(np.array(r[::-1]), 2)[::-2] if r else np.array(r), 4: lambda r: np.array([int(x) for x in r], dtype=np.int64),
            5: lambda r: [int(x) for x in r]}[c['as_array']](r) for r in ins]
    try:
        f = getattr(ti, c['name'])
        args = ins + [eval(o, {'inf': math.inf, 'nan': math.nan, 'Fraction': Fraction}) for o in c['options']]
        names = c['names']
        k = c['positional']
        kw = dict(zip(names[k:], args[k:])); kw.update(c['extra_kw'])
        pos = args[:k] + c['extra_pos']
        if c['pad'] is not None: kw['pad'] = c['pad']
        r = f(*pos, **kw)
        fields = list(getattr(r, '_fields', []))
        outs = list(r) if fields else [r]
        show = lambda outs: [[('nan' if x != x else repr(float(x))) for x in o] for o in outs]
        res = {'fields': fields, 'outs': show(outs)}
        if c.get('second'):
            ins2 = [[float(x) for x in r_] for r_ in c['second']]
            a2 = ins2 + args[len(ins2):]
            r2 = f(*a2[:len(args)], **({'pad': c['pad']} if c['pad'] is not None else {}))
            res['later'] = show(outs)
            res['outs2'] = show(list(r2) if fields else [r2])
        res['kept'] = [[float(x) for x in i] for i in ins] == [[float(x) for x in r_] for r_ in c['inputs']]
        print(json.dumps(res))
    except Exception as e:
        print(json.dumps({'error': type(e).__name__, 'text': str(e)[:200]}))
'''


OFF = T.lit(0.1234567891234567)        # makes every value need all its digits


class C17(C01):
    prop = 'C17'
    rule = 'One evaluation is one path of a call through the binding: argument styles and series lengths are chosen by the explorer, values are symbolic, the library runs in the symbolic machine.'
    quick_s = 70
    per_task_max = 12
    max_scn = 60
    assumptions = ['ctypes and numpy are replaced by models of the operations the binding uses (checks/pystubs.py)', 'series of up to start+3 bars, each series with a length of its own',
                   'options from a list of accepted, rejected and unusual values; NaN, infinities and numbers beyond int are outside']

    def setup(self):
        super().setup()
        self.native.shared = 'debug'
        self.impl = f'{self.src}/bindings/python/tindicators/impl.py'

    def tasks(self):
        r = [(n, None) for n in self.A.infos]
        return [('(names)', None)] + r

    def changed(self): return set()

    def work(self, name, params, deadline):
        if name == '(names)':
            res = Result(name)
            ctx = Ctx(self, None, random.Random(3), res, [], deadline)
            sc = Scn((), 0, 'names', 1, 0)
            self.run_scenario(ctx, sc)
            res.fns = sorted(set(self.prog.compiled)); res.ninstr = self.prog.ninstr
            return res
        return super().work(name, params, deadline)

    def scenarios(self, ctx):
        info = ctx.info
        names = info.option_names[:info.options]
        O = scen.Options(self.A, info, ctx.rng)
        with ctx.quiet():
            small = O.small(limit=4, maxw=3, maxstart=8)
            start = {v: max(0, O.start(v)) for v in small}
        k = 0
        odd = [1e-7, 1e17 / 1e20, 0.5, Fr(1, 2), True, 0.1234567890123456, 1 / 3]
        while True:
            k += 1
            if not small: return
            v = small[(k - 1) % len(small)]
            v2 = list(v)
            if k % 5 == 4: yield Scn(v, start[v], 'conc', k, start[v], {'style': k, 'oom': 1}); continue
            if k % 4 == 2:
                # a value that looks unusual in text
                i = ctx.rng.randrange(len(v)) if v else None
                if i is not None and not scen.is_window(names[i]): v2[i] = odd[(k // 4 + len(v)) % 2 - 2] if ctx.rng.random() < .5 else ctx.rng.choice(odd)
                elif i is not None and v[i] == 1: v2[i] = True
            if k % 4 == 3 and v: v2[ctx.rng.randrange(len(v))] = ctx.rng.choice([-1, -5, 0, Fr(-3, 2)])
            yield Scn(tuple(v2), start[v], 'full' if start[v] < 6 else 'few', k, start[v], {'style': k})
            if k > 40: return

    def accept_kind(self, v): return True

    def harness(self, ctx, ex, sc):
        log = []
        st = ex.stats
        try:
            ns = pystubs.load(self.impl, self.A, log)
            ti = ns['ti']
        except T.Unsupported as e:
            if sc.mode == 'names':
                ctx.case = [dict(listing=1), dict(unknown='sma_'), dict(unknown='nosuch')][ex.choose(3)]
                raise Violation('unmodelled', str(e))
            ns = None; why = str(e)
        if sc.mode == 'names':
            ctx.case = dict(listing=1)
            nm = ti.available_indicators
            st.obligations += 1; st.by_simplifier += 1
            if list(nm) != sorted(self.A.infos): raise Violation('names', 'available indicators differ from the registry')
            bad = ['nosuch', 'sma_', 'sm', 'zzz', 'aaa'][ex.choose(5)]
            ctx.case = dict(unknown=bad)
            try: getattr(ti, bad)
            except ns['NoSuchIndicator']: return
            except (Violation, PathEnd, T.Unsupported): raise
            except Exception as e: raise Violation('names', f'unknown indicator {bad}: {type(e).__name__}')
            raise Violation('names', f'unknown indicator {bad} is accepted')
        A = self.A; info = ctx.info
        start = sc.start
        # lengths: one bar more or less around the start offset, differing between series
        maxn = start + 3
        lens = []
        base = [start + 1, start, start + 3, 0, max(0, start - 1), 1][ex.choose(6)]
        for i in range(info.inputs): lens.append(base)
        if info.inputs > 1:
            d = ex.choose(4)
            if d == 1: lens[-1] += 2
            if d == 2: lens[0] += 1
            if d == 3: lens[info.inputs // 2] = max(0, lens[info.inputs // 2] - 1)
        top = max(lens)
        ins = scen.series(ex, info, top, sc.mode if top <= 8 else 'few', random.Random(sc.seed)) if top else [[] for _ in lens]
        clean = lambda x: x.replace(' ', '_').replace('%', '')
        names = [clean(x) for x in info.input_names[:info.inputs] + info.option_names[:info.options]]
        style = ex.choose(3)
        npos = [len(names), info.inputs, 0][style]
        if len(set(names)) != len(names): npos = len(names)
        # list and array; tuple and a view with stride -2; whole numbers as array and as list
        asarr = ([0, 1], [0, 1], [2, 3], [4, 5])[(sc.seed // 2) % 4][ex.choose(2)]
        if asarr in (4, 5):
            ins = [[T.const_norm(Fr(v) * 4) for v in x] for x in scen.series(ex, info, top, 'conc', random.Random(sc.seed + 7))] if top else ins
        else: ins = [[v + OFF for v in x] for x in ins]
        ins = [x[:n] for x, n in zip(ins, lens)]
        pad = [None, False, True][ex.choose(3)]
        wrong = ex.choose(6) if sc.seed == 1 else 0
        oom = sc.extra.get('oom', 0)
        twice = ex.choose(3) if not wrong and not oom else 0
        second = None
        if twice: second = [[v + 1 for v in x[:len(x) - (twice - 1)]] for x in ins]
        o = list(sc.opts)
        xp, xk = [], {}
        if wrong == 1: xp = [3]; npos = len(names)
        elif wrong == 2: xk = {'no_such_argument': 3}
        elif wrong == 3: names = names[:-1]
        elif wrong == 4: xk = {names[0]: 3} ; npos = max(1, npos)
        elif wrong == 5: names = []; npos = 0
        case = dict(name=info.name, inputs=ins, options=o, names=names, positional=npos, extra_pos=xp, extra_kw=xk, pad=pad, as_array=asarr, wrong=wrong, size=min(lens), oom=oom, second=second)
        ctx.case = case
        args = [pystubs.NArr(list(x)) if asarr in (1, 3, 4) else tuple(x) if asarr == 2 else list(x) for x in ins] + o
        args = args[:len(names)]
        kw = dict(zip(names[npos:], args[npos:])); kw.update(xk)
        pos = args[:npos] + xp
        if pad is not None: kw['pad'] = pad
        n = min(lens)
        cut = [x[:n] for x in ins]
        # what the library itself says
        so = [pystubs.to_double(x) for x in o]
        hook = (lambda sz: True) if oom else None
        try:
            s0 = A.start(info.name, so)
            rt.M.alloc_hook = hook
            want = None
            code, want, _ = A.call(info.name, cut, so, '', n, max(0, n - s0))
        except Violation: raise PathEnd('memory')
        except rt.CxxExc: raise PathEnd('exception')
        finally: rt.M.alloc_hook = None
        case['code'] = code
        try:
            rt.M.alloc_hook = hook
            try:
                if ns is None: raise T.Unsupported(why)
                f = getattr(ti, info.name)
                r = f(*pos, **kw)
                err = None
            except T.Unsupported as e:
                # a Python operation without a model: the path is settled by the real interpreter on the path's witness
                if wrong or code not in (0, 1): raise
                u = ctx.unmodelled = getattr(ctx, 'unmodelled', {})
                u[sc.seed] = u.get(sc.seed, 0) + 1
                if u[sc.seed] > 2 or sum(u.values()) > 14: raise
                raise Violation('unmodelled', str(e))
            except (Violation, PathEnd, Budget, explore.EngineError, T.SpecialFork): raise
            except rt.CxxExc: raise PathEnd('exception')
            except Exception as e: err = e
        except Violation as w:
            if w.kind == 'unmodelled': raise
            if wrong: raise PathEnd('memory')
            raise Violation('memory', f'memory error inside the call: {w}')
        finally: rt.M.alloc_hook = None
        st.obligations += 1; st.by_simplifier += 1
        if wrong:
            if err is None: raise Violation('arity', f'wrong arguments (case {wrong}) are accepted')
            return
        if code == 1:
            if err is None or not isinstance(err, ns['InvalidOption']): raise Violation('error', f'rejected options give {type(err).__name__ if err else "data"} instead of InvalidOption')
            return
        if code == 2:
            if err is None or not isinstance(err, ns['OutOfMemory']): raise Violation('error', f'a failed allocation gives {type(err).__name__ if err else "data"} instead of OutOfMemory')
            return
        if err is not None: raise Violation('error', f'a valid call raises {type(err).__name__}: {err}')
        if len(log) < 1 or log[-1][1] != n: raise Violation('size', f'the indicator is called with {log[-1][1] if log else None} bars instead of {n}')
        _, size, gi, go, gc = log[-1]
        for k in range(info.inputs):
            for i in range(n): ex.prove_close(gi[k][i], cut[k][i], f'input {k}[{i}] handed to the library', eps=0)
        for k in range(info.options): ex.prove_close(go[k], so[k], f'option {k} handed to the library', eps=0)
        fields = list(r._fields) if isinstance(r, tuple) and hasattr(r, '_fields') else []
        outs = list(r) if isinstance(r, (tuple, list)) else [r]
        wf = [clean(x) for x in info.output_names[:info.outputs]]
        if fields != (wf if info.outputs > 1 else []): raise Violation('fields', f'fields {fields} instead of {wf}')
        lead = 0 if pad is False else min(n, max(0, s0))
        for k, x in enumerate(outs):
            x = list(x)
            if len(x) != lead + len(want[k]): raise Violation('length', f'output {k} has {len(x)} values instead of {lead + len(want[k])}')
            for i in range(lead):
                if not (x[i].__class__ is float and x[i] != x[i]): raise Violation('padding', f'output {k}[{i}] is {x[i]} instead of not-a-number')
            for i, y in enumerate(want[k]): ex.prove_close(x[lead + i], y, f'output {k}[{lead + i}]', eps=Fr(1, 10**12))
        for k, (x, y) in enumerate(zip(args[:info.inputs], ins)):
            x = list(x)
            if len(x) != len(y): raise Violation('argument', f'series {k} of the caller has {len(x)} values after the call')
            for i in range(len(y)): ex.prove_close(x[i], y[i], f'series {k}[{i}] of the caller after the call', eps=0)
        if not twice: return
        # another call on the same object leaves the first result alone and is itself right
        was = [list(x) for x in outs]
        n2 = min(len(x) for x in second)
        try: code, want2, _ = A.call(info.name, [x[:n2] for x in second], so, '', n2, max(0, n2 - s0))
        except Violation: raise PathEnd('memory')
        if code: return
        a2 = second + o
        r2 = f(*a2, **({'pad': pad} if pad is not None else {}))
        outs2 = list(r2) if isinstance(r2, (tuple, list)) else [r2]
        for k, x in enumerate(outs):
            x = list(x)
            if len(x) != len(was[k]): raise Violation('later', f'output {k} changes its length with a later call')
            for i in range(len(x)):
                if x[i].__class__ is float and was[k][i].__class__ is float: continue
                ex.prove_close(x[i], was[k][i], f'output {k}[{i}] after a later call', eps=Fr(1, 10**12))
        lead = 0 if pad is False else min(n2, max(0, s0))
        for k, x in enumerate(outs2):
            x = list(x)
            if len(x) != lead + len(want2[k]): raise Violation('length', f'second call: output {k} has {len(x)} values instead of {lead + len(want2[k])}')
            for i, y in enumerate(want2[k]): ex.prove_close(x[lead + i], y, f'second call: output {k}[{lead + i}]', eps=Fr(1, 10**12))

    # -- replay on the real binding
    def lib(self):
        d = f'{self.dir}/pybind'
        with open(f'{self.dir}/lock-py', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(d + '/ok'):
                os.makedirs(d + '/tindicators', exist_ok=True)
                for x in os.listdir(f'{self.src}/bindings/python/tindicators'):
                    if x.endswith('.py') and 'test' not in x: shutil.copy(f'{self.src}/bindings/python/tindicators/{x}', d + '/tindicators')
                shutil.copy(f'{self.dir}/lib-debug.so', d + '/tindicators/libindicators.so')
                open(d + '/run.py', 'w').write(SCRIPT)
                open(d + '/ok', 'w').close()
        return d

    def confirm(self, c): return self.judge(c)
    def pyrun(self, cases, oom=False):
        t0 = time.time(); left = signal.setitimer(signal.ITIMER_REAL, 0); self.busy(True)
        self.ready('debug')
        d = self.lib()
        p = f'{d}/case{os.getpid()}.json'
        json.dump(cases, open(p, 'w'))
        env = dict(os.environ)
        if oom:
            sh = f'{d}/shim{os.getpid()}.so'
            subprocess.run(['g++', '-O1', '-shared', '-fPIC', f'{VERIF}/harness/oomshim.cc', '-o', sh, '-ldl'], check=True)
            env.update(LD_PRELOAD=sh, VP_OOM='1')
        r = subprocess.run([sys.executable, d + '/run.py', d, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, env=env, preexec_fn=native._nolimit)
        self.paused = getattr(self, 'paused', 0) + time.time() - t0; self.busy(False)
        if left[0]: signal.setitimer(signal.ITIMER_REAL, left[0], left[1])
        return r.returncode, [json.loads(l) for l in r.stdout.decode().split('\n') if l.startswith('{')], r.stderr.decode()

    def judge(self, c):
        if c.get('listing'):
            rc, out, err = self.pyrun([dict(listing=1)])
            return not out or out[0]['list'] != sorted(self.A.infos), f'list of indicators: {str(out)[:200]} {err[-200:]}'
        base = dict(name='sma', inputs=[[1, 2, 3]], options=['2'], names=['series', 'period'], positional=2, extra_pos=[], extra_kw={}, pad=None, as_array=0)
        if c.get('unknown'):
            rc, out, err = self.pyrun([dict(base, name=c['unknown'])])
            return not out or out[0].get('error') != 'NoSuchIndicator', str(out)
        q = dict(c)
        opt = lambda x: repr(x) if not isinstance(x, Fr) else f'Fraction({x.numerator},{x.denominator})'
        q['options'] = [opt(x) for x in c['options']]
        q = {k: q.get(k) for k in list(base) + ['second']}
        rc, out, err = self.pyrun([q], bool(c['oom']) and c.get('code') == 2)
        if c['oom'] and c.get('code') == 2: return not out or out[0].get('error') != 'OutOfMemory', f'with every request of the library failing: {str(out)[:200]} {err[-200:]}'
        if rc != 0 or not out: return rc < 0, f'python exits {rc}: {err[-200:]}'
        g = out[0]
        n = c['size']; name = c['indicator']
        if c['wrong']: return 'error' not in g, f'wrong arguments are accepted: {str(g)[:200]}'
        oo = [float(x) for x in c['options']]
        st = self.native_start(name, oo)
        rc, o2, err = self.replay('debug', native_call(name, '', [x[:n] for x in c['inputs']], oo, max(0, n - st)))
        r = native.parse(o2)[0]
        if r[1] == 1: return g.get('error') != 'InvalidOption', f'rejected options give {str(g)[:200]}'
        if 'error' in g: return True, f'a valid call raises {g["error"]}: {g["text"]}'
        if not g['kept']: return True, 'the call changes the series of the caller'
        if g.get('later') is not None and g['later'] != g['outs']: return True, f'a later call on the same object turns the first result {g["outs"]} into {g["later"]}'
        why = self.series_wrong(c, g['outs'], r[2], n, st, c['inputs'])
        if why: return True, why
        if g.get('outs2') is not None:
            n2 = min(len(x) for x in c['second'])
            rc, o2, err = self.replay('debug', native_call(name, '', [x[:n2] for x in c['second']], oo, max(0, n2 - st)))
            why = self.series_wrong(c, g['outs2'], native.parse(o2)[0][2], n2, st, c['second'])
            if why: return True, 'second call: ' + why
        return False, 'the binding returns the expected series'

    def series_wrong(self, c, outs, want, n, st, ins):
        lead = 0 if c['pad'] is False else min(n, max(0, st))
        if len(outs) != len(want): return f'{len(outs)} outputs'
        for k, (x, y) in enumerate(zip(outs, want)):
            x = [float(v) for v in x]
            if len(x) != lead + len(y): return f'output {k} has {len(x)} values, expected {lead} not-a-numbers and {len(y)} values'
            if any(v == v for v in x[:lead]): return f'output {k} starts with {x[:lead]}'
            for a, b in zip(x[lead:], y):
                b = math.nan if b is None else b
                if abs(a - b) > 1e-12 * abs(b) or (a != a) != (b != b): return f'output {k}: {x[lead:]} instead of {y}'
        return None
