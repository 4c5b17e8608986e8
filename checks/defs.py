"""C09: the plain function against the published definition of the indicator."""
import math
from .core import *
from . import definitions as D


class Undefined(Exception): pass


class Sym:
    """symbolic numbers: the engine's operations; a comparison branches the path"""
    Undefined = Undefined
    def __init__(s, ex): s.ex = ex
    def ok(s, r):
        if r.__class__ is float or r is None: raise Undefined()
        return r
    def div(s, a, b): return s.ok(rt.FDIV(a, b))
    def fn(s, nm, x): return s.ok(rt.EXTERN['fabs' if nm == 'abs' else nm](x))
    def zero(s, x): return x == 0 if x.__class__ is not T.Poly else s.ex.branch(x, ZERO)
    def sound(s, b): pass
    def nonpos(s, x): return x <= 0
    def root0(s, x): return s.ok(rt.sqrt_(x)) if x > 0 else 0
    def whole(s, x):
        x = s.ok(rt.trunc_(x))
        if x.__class__ is T.Poly: raise Undefined()
        return int(x)


class Num:
    """doubles"""
    Undefined = Undefined
    def __init__(s, scale=1.): s.scale = scale
    def div(s, a, b):
        if abs(b) < 1e-14 * (s.scale + abs(a)): raise Undefined()
        return a / b
    def fn(s, nm, x):
        try:
            return float(abs(x)) if nm == 'abs' else float(getattr(math, nm)(x))
        except (ValueError, OverflowError): raise Undefined()
    def zero(s, x):
        if x and abs(x) < 1e-9 * s.scale: raise Undefined()     # a tie up to rounding: either answer is right
        return not x
    def sound(s, b):
        if b and abs(b) < 1e-9 * s.scale: raise Undefined()     # a denominator that is rounding noise
    def nonpos(s, x): return x <= 0
    def root0(s, x): return math.sqrt(x) if x > 0 else 0.
    def whole(s, x): return int(x)


class FF(float):
    """a double whose arithmetic with the rational constants of a definition stays a double"""
    __slots__ = ()


# the definitions take their arguments in the order of these names; a record that names them in another order is taken at its word
ROLES = json.load(open(os.path.join(os.path.dirname(__file__), 'roles.json')))


def reorder(names, mine):
    """positions of `mine` in `names` when the one is a rearrangement of the other"""
    if list(names) == mine or sorted(names) != sorted(mine) or len(set(mine)) != len(mine): return None
    return [list(names).index(x) for x in mine]


def roles(info):
    r = ROLES.get(info.name)
    if r is None: return None, None, None
    return tuple(reorder(x, y) for x, y in zip((info.input_names[:info.inputs], info.option_names[:info.options], info.output_names[:info.outputs]), r))


def call(K, name, ins, opts, n, info):
    o = [int(x) if scen.is_window(nm) or x == int(x) else x for x, nm in zip(opts, info.option_names)]
    ri, ro, rr = roles(info)
    if ri: ins = [ins[i] for i in ri]
    if ro: o = [o[i] for i in ro]
    res = D.d[name](K, ins, o, n)
    if rr:
        back = [None] * len(res)
        for i, x in zip(rr, res): back[i] = x
        res = back
    return res


# filters whose published coefficients are tables of six digits, compared with the formula behind them
TOL = dict.fromkeys(('bf2', 'bf3', 'gf1', 'gf2', 'gf3', 'gf4'), 3e-3)


class C09(C01):
    prop = 'C09'
    rule = 'One evaluation is one symbolic path through the plain function and the published definition on the same bars.'
    quick_s = 80
    per_task_max = 25
    assumptions = ['arithmetic is exact over the reals; logarithms, exponentials and trigonometric functions are uninterpreted apart from sign and monotonicity facts and must be applied to equal arguments',
                   'bars ordered low<=open,close<=high, prices positive, volumes non-negative', 'window options are integers',
                   'bars for which the definition itself is undefined (zero denominator without a documented value) are not compared']

    def tasks(self): return [(n, None) for n in self.A.infos if n in D.d]
    def expand(self, ctx, sc): yield sc
    def accept_kind(self, v): return v.kind in ('differ', 'special', 'code', 'unwritten', 'start')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed), wide=name not in TOL and name != 'hf')
        ctx.case = dict(opts=list(sc.opts), inputs=ins)
        try: code, out, _ = A.call(name, ins, sc.opts, '', n)
        except Violation: raise PathEnd('memory')
        if code: return
        try: want = call(Sym(ex), name, ins, sc.opts, n, ctx.info)
        except Undefined: raise PathEnd('undefined by the definition')
        s = sc.start
        for k, w in enumerate(want):
            first = next((i for i, x in enumerate(w) if x is not None), n)
            if n > s and first != s or n <= s and first < n: raise Violation('start', f'output {k}: the first value belongs to bar {first}, the start offset is {s}')
        ctx.obs = ('', ins, sc.opts, out)
        compare_outputs(ex, out, [w[s:] for w in want], 'code', 'definition', eps=Fr(TOL.get(name, 1e-4)).limit_denominator(10**6))

    def judge(self, c):
        n = c['indicator']; size = len(c['inputs'][0])
        st = self.native_start(n, c['opts']); k = max(0, size - st)
        c['script'] = native_call(n, '', c['inputs'], c['opts'], k)
        rc, out, err = self.replay('release', c['script'])
        if rc != 0: return False, f'native exit {rc}'
        a = native.parse(out)[0]
        if a[1] != 0: return False, 'rejected'
        sc = scale_of(c['inputs'])
        try: w = call(Num(sc), n, [[float(x) for x in r] for r in c['inputs']], [float(x) for x in c['opts']], size, self.A.infos[n])
        except Undefined: return False, 'undefined by the definition'
        for j, x in enumerate(w):
            first = next((i for i, y in enumerate(x) if y is not None), size)
            if size > st and first != st: return True, f'output {j}: the first value belongs to bar {first}, the start offset is {st}'
            for i in range(k):
                y = a[2][j][i]
                if y is None: continue
                if x[st + i] is None or differ(y, float(x[st + i]), sc, TOL.get(n, 1e-6)): return True, f'output {j}[{i}]: {y}, by definition {x[st + i]}'
        return False, 'the native output is the defined one'
