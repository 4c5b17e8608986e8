"""C18 valid bars never produce a NaN or an infinity."""
from .core import *

# where the formula itself has no value (f(options, inputs) -> output may be anything)
def still(o, I):
    """a window of bars without any range or change"""
    h, l, c = I; p = int(o[0]); k = 0
    for i in range(1, len(h)):
        k = k + 1 if h[i] == l[i] == c[i - 1] else 0
        if k >= p: return True
    return False


WITHOUT_VALUE = {n: lambda o, I: o[0] < 2 for n in ('linreg', 'linregintercept', 'linregslope', 'tsf', 'fosc')}       # a line through one point
WITHOUT_VALUE.update({n: lambda o, I: any(abs(x) > 1 for x in I[0]) for n in ('acos', 'asin')})
WITHOUT_VALUE.update({n: lambda o, I: any(abs(x) > 700 for x in I[0]) for n in ('exp', 'cosh', 'sinh')})          # beyond the largest double
WITHOUT_VALUE['mgdyn'] = lambda o, I: o[0] < 1 or max(I[0] + [0]) > 1.2 * min(I[0] + [1e300])                 # the fourth power of the price ratio diverges
WITHOUT_VALUE.update(cmi=lambda o, I: True,                                                     # the logarithm of a ratio that is zero on level windows
                     cvi=lambda o, I: any(a == b for a, b in zip(*I)),                          # growth from a zero range
                     emv=lambda o, I: any(v == 0 for v in I[2]),                                # movement without volume
                     vi=still)                                                                  # movement into a window without range


NONNEGATIVE = ('stddev', 'stderr', 'volatility', 'emsd')       # roots: a negative value is a rounded variance that was not caught
FAMILIES = ('level', 'settled', 'arithmetic', 'geometric', 'bars')


def family(ex, names, n, kind, rng):
    """degenerate series, up to a symbolic unit: sums of deviations, movements or volumes that are exactly zero"""
    t = ex.real('unit', Fr(1, 2), 2)
    k = rng.randint(0, max(0, n - 3))
    base = [20 + rng.randint(-8, 8) for _ in range(n)]
    if kind == 'level': x = [20] * n
    elif kind == 'settled' or kind == 'bars': x = base[:k] + [base[k]] * (n - k)
    elif kind == 'arithmetic': d = rng.choice([1, 2, Fr(1, 4)]); x = [20 + i * d for i in range(n)]
    else: g = rng.choice([2, Fr(3, 2), Fr(1, 2)]); x = [20 * g ** (i % 40) for i in range(n)]
    w = [rng.randint(0, 6) if i < k and kind != 'level' else 3 * (kind == 'bars') for i in range(n)]
    vol = [rng.randint(0, 50) if i < k else rng.choice([0, 7]) if kind != 'settled' else 0 for i in range(n)]
    row = {'high': [a + b for a, b in zip(x, w)], 'low': [a - min(b, a / 2) for a, b in zip(x, w)], 'volume': vol}
    return [[y * t for y in row.get(nm, x)] for nm in names]


class C18(C01):
    prop = 'C18'
    rule = 'One evaluation is one symbolic path through a plain or streaming computation over valid bars.'
    quick_s = 95
    assumptions = ['bars ordered low<=open,close<=high, prices positive, volumes non-negative; element-wise functions and cross-overs take positive series',
                   'arithmetic is exact over the reals; where an exact value of zero reaches a square root, rounded runs of that path on the real code decide']

    def expand(self, ctx, sc):
        vs = [''] + ['stream'] * ctx.info.has_stream
        for v in vs: yield Scn(sc.opts, sc.n, sc.mode, sc.seed, sc.start, {'variant': v})
        if sc.start < 60 and ctx.info.inputs:
            for v in vs: yield Scn(sc.opts, sc.start + 7, 'family', sc.seed, sc.start, {'variant': v, 'family': ctx.rng.choice(FAMILIES)})

    def accept_kind(self, v): return v.kind in ('nonfinite', 'rounding')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; n = sc.n; v = sc.extra['variant']
        rng = random.Random(sc.seed); fam = sc.extra.get('family')
        ins = family(ex, ctx.info.input_names[:ctx.info.inputs], n, fam, rng) if fam else scen.series(ex, ctx.info, n, sc.mode, rng, 'positive', wide=False)
        ctx.case = dict(opts=list(sc.opts), inputs=ins, variant=v)
        rt.M.sqrt0 = 0
        try:
            if v == 'stream':
                code, sp = A.stream_new(name, sc.opts)
                if code: return
                h = ex.choose(2) * n // 2
                out = [[] for _ in range(ctx.info.outputs)]
                for a, b in ((0, h), (h, n)) if h else ((0, n),):
                    k = max(0, b - sc.start) - max(0, a - sc.start)
                    r, o = A.stream_run(name, sp, [x[a:b] for x in ins], k)
                    for x, y in zip(out, o): x += y
                A.stream_free(name, sp)
            else:
                code, out, _ = A.call(name, ins, sc.opts, v, n)
                ctx.obs = (v, ins, sc.opts, out)
        except Violation: raise PathEnd('memory')
        if code: return
        if any(y is None or y.__class__ is T.Undef for x in out for y in x): raise PathEnd('unwritten')
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1
        for j, x in enumerate(out):
            for i, y in enumerate(x):
                if y.__class__ is float and not math.isfinite(y): raise Violation('nonfinite', f'{v or "plain"} output {j}[{i}] is {y}')
        if fam or rt.M.sqrt0 or any((e.mask if e.taken else 7 ^ e.mask) == ZERO for e in ex.trace if e.kind == 'c'):
            raise Violation('rounding', f'{v or "plain"}: an exact zero, scenario {chr(97 + sc.seed % 26)}')

    def judge(self, c):
        n = c['indicator']; size = len(c['inputs'][0]); v = c['variant']
        st = self.native_start(n, c['opts']); k = max(0, size - st)
        names = self.A.infos[n].input_names
        def call(ins):
            if v != 'stream': return native_call(n, v[1:], ins, c['opts'], k)
            return native_new(1, n, c['opts']) + native_run(1, ins, k) + 'free 1\n'
        rng = random.Random(repr(c['inputs']))
        runs = [c['inputs']]
        if c['kind'] == 'rounding':
            for _ in range(60):
                # another unit, another power or another offset: each keeps bars valid and levels level
                f = rng.choice([rng.randint(1, 1000) / 100, rng.uniform(.01, 2000)]); g = rng.uniform(.01, 100)
                a = rng.choice([1, 1, rng.uniform(.1, 1.2)]); b = rng.choice([0, 0, rng.uniform(0, 500)])
                runs.append([[x * g if nm == 'volume' else (abs(x) ** a if x > 0 else x) * f + b for x in r] for nm, r in zip(names, c['inputs'])])
        lo = WITHOUT_VALUE.get(n)
        s = ''.join(call(ins) for ins in runs)
        c['script'] = s
        rc, out, err = self.replay('release', s)
        if rc != 0: return False, f'native exit {rc}'
        p = [q for q in native.parse(out) if q[0] == 'ret']
        if v == 'stream': p = p[1::2]
        for ins, q in zip(runs, p):
            if lo and lo(c['opts'], ins): continue
            if q[1] != 0: continue
            for j, x in enumerate(q[2]):
                for i, y in enumerate(x):
                    if y is not None and (not math.isfinite(y) or y < 0 and n in NONNEGATIVE):
                        c['script'] = call(ins)
                        return True, f'output {j}[{i}] is {y} for {ins}'
        return False, 'every native output is finite and no root is negative'
