"""C10 ranges of oscillators, C11 order of bands, channels and averages, C12 changes of unit.

C10 and C11 are tables of facts about the outputs of one plain call.  A fact is a list of expressions that are never all positive."""
from .core import *
IN = Fr(1, 10**6)


def at(xs, i, s): return xs[i - s] if 0 <= i - s < len(xs) else None


# ------------------------------------------------------------------------------------------------ C10
RANGES = {n: [(0, 100)] for n in ('rsi', 'rmi', 'mfi', 'adx', 'adxr', 'dx', 'ultosc', 'arsi', 'rvi', 'posc')}
RANGES.update({n: [(-100, 100)] for n in ('cmo', 'aroonosc', 'smi', 'tsi')})
RANGES.update({n: [(-1, 1)] for n in ('bop', 'cmf', 'sin', 'cos', 'tanh')})
RANGES.update({n: [(0, 1)] for n in ('er', 'vhf', 'stochrsi', 'crossany', 'crossover')})
RANGES.update(aroon=[(0, 100)] * 2, stoch=[(0, 100)] * 2, di=[(0, 100)] * 2, willr=[(-100, 0)], msw=[(-1, 1)] * 2, hd=[(0, 50)])


def ranges(name):
    def f(I, o, O, s, n):
        for j, (lo, hi) in enumerate(RANGES[name]):
            u = hi - lo
            for i, v in enumerate(O[j]):
                yield f'output {j}[{i}] is above {float(hi):g}', [(v - hi, IN * u)]
                yield f'output {j}[{i}] is below {float(lo):g}', [(lo - v, IN * u)]
    return f


# ------------------------------------------------------------------------------------------------ C11
ORDER = {}
PX = Fr(1, 10**5)           # tolerance for values in the unit of the inputs, whose size is about one to a thousand


def fact(*names):
    def g(f):
        for n in names: ORDER[n] = f
        return f
    return g


def le(lab, a, *bs): yield lab, [(a - b, PX) for b in bs]          # a <= one of bs
def ge(lab, a, *bs): yield lab, [(b - a, PX) for b in bs]


def inside(lab, v, xs, *more):
    """min xs <= v <= max xs"""
    if v.__class__ is float and v != v: return
    yield lab + ' is above every value it averages', [(v - x, PX) for x in xs] + list(more)
    yield lab + ' is below every value it averages', [(x - v, PX) for x in xs] + list(more)


def average(window, first=0, zero=False):
    """outputs between the extremes of the last window(options) bars of the series (None: all bars so far)"""
    def f(I, o, O, s, n):
        for j, out in enumerate(O):
            p = window(o)
            if p.__class__ is tuple: p = p[j]
            for k, v in enumerate(out):
                i = k + s
                w = I[0][max(first, i - p + 1) if p is not None else first:i + 1]
                yield from inside(f'output {j}[{k}]', v, list(w) + [0] * zero)
    return f


W = lambda o: int(o[0])
for n in ('sma', 'wma', 'trima', 'pwma', 'idwma', 'linreg_'): ORDER[n] = average(W)
del ORDER['linreg_']
ORDER['dwma'] = average(lambda o: 2 * W(o) - 1)
for n in ('ema', 'wilders', 'kama'): ORDER[n] = average(lambda o: None)
ORDER['mhlma'] = average(lambda o: (W(o) + int(o[1]) - 1, None))
ORDER['hf'] = average(lambda o: 2 * W(o) + 1)
ORDER['hfsma'] = average(lambda o: W(o) + 2 * int(o[1]))
ORDER['hfema'] = average(lambda o: None)
ORDER['gf1'] = average(lambda o: None, zero=True)
ORDER['mama'] = average(lambda o: None, zero=True)


@fact('swma')
def _(I, o, O, s, n):
    if W(o) <= 6: yield from average(W)(I, o, O, s, n)      # longer windows have negative weights


@fact('rmf')
def _(I, o, O, s, n):
    if o[0] > 4: yield from average(lambda o: None)(I, o, O, s, n)


@fact('edcf')
def _(I, o, O, s, n):
    p = W(o)
    for k, v in enumerate(O[0]):
        i = k + s; w = I[0][i - p + 1:i + 1]
        # a window without any distance weighs nothing and gives zero
        yield from inside(f'output 0[{k}]', v, w, *([(abs_(w[0] - w[1]), 0)] if len(w) > 1 else [(-1, 0)]))


def abs_(x): return x * x


@fact('vwma')
def _(I, o, O, s, n):
    for k, v in enumerate(O[0]):
        i = k + s; w = slice(i - W(o) + 1, i + 1)
        yield from inside(f'output 0[{k}]', v, I[0][w], (sum(I[1][w]), PX))


@fact('vwap')
def _(I, o, O, s, n):
    h, l, c, v = I
    for k, y in enumerate(O[0]):
        i = k + s; w = slice(i - W(o) + 1, i + 1); vol = (sum(v[w]), PX)
        yield f'output 0[{k}] is above every high', [(y - x, PX) for x in h[w]] + [vol]
        yield f'output 0[{k}] is below every low', [(x - y, PX) for x in l[w]] + [vol]


@fact('evwma')
def _(I, o, O, s, n):
    if o[1] >= 1: yield from average(lambda o: None, zero=True)(I, o, O, s, n)


@fact('frama')
def _(I, o, O, s, n):
    for k, y in enumerate(O[0]):
        yield f'output 0[{k}] is above every high', [(y - x, PX) for x in I[0][:k + s + 1]]
        yield f'output 0[{k}] is below every low', [(x - y, PX) for x in I[1][:k + s + 1]]


@fact('max')
def _(I, o, O, s, n):
    for k, y in enumerate(O[0]):
        w = I[0][k + s - W(o) + 1:k + s + 1]
        for x in w: yield from ge(f'output 0[{k}] is below a value of its window', y, x)
        yield from le(f'output 0[{k}] is above every value of its window', y, *w)


@fact('min')
def _(I, o, O, s, n):
    for k, y in enumerate(O[0]):
        w = I[0][k + s - W(o) + 1:k + s + 1]
        for x in w: yield from le(f'output 0[{k}] is above a value of its window', y, x)
        yield from ge(f'output 0[{k}] is below every value of its window', y, *w)


@fact('pc')
def _(I, o, O, s, n):
    for k, (lo, hi) in enumerate(zip(*O)):
        w = slice(k + s - W(o) + 1, k + s + 1)
        for x in I[0][w]: yield from ge(f'upper channel [{k}] is below a high of its window', hi, x)
        for x in I[1][w]: yield from le(f'lower channel [{k}] is above a low of its window', lo, x)
        yield from le(f'upper channel [{k}] is above every high', hi, *I[0][w])
        yield from ge(f'lower channel [{k}] is below every low', lo, *I[1][w])
        yield from le(f'lower above upper channel [{k}]', lo, hi)


@fact('bbands')
def _(I, o, O, s, n):
    for k, (lo, mid, hi) in enumerate(zip(*O)):
        if o[1] >= 0:
            yield from le(f'lower above middle band [{k}]', lo, mid)
            yield from le(f'middle above upper band [{k}]', mid, hi)
        yield from inside(f'middle band [{k}]', mid, I[0][k + s - W(o) + 1:k + s + 1])


@fact('kc')
def _(I, o, O, s, n):
    for k, (lo, mid, hi) in enumerate(zip(*O)):
        if o[1] >= 0:
            yield from le(f'lower above middle band [{k}]', lo, mid)
            yield from le(f'middle above upper band [{k}]', mid, hi)
        yield from inside(f'middle band [{k}]', mid, I[2][:k + s + 1])


@fact('abands')
def _(I, o, O, s, n):
    for k, (lo, hi, mid) in enumerate(zip(*O)):
        yield from le(f'lower above middle band [{k}]', lo, mid)
        yield from le(f'middle above upper band [{k}]', mid, hi)
        yield from inside(f'middle band [{k}]', mid, I[2][k + s - W(o) + 1:k + s + 1])


@fact('pbands')
def _(I, o, O, s, n):
    for k, (lo, hi) in enumerate(zip(*O)):
        yield from le(f'lower above upper band [{k}]', lo, hi)
        yield from le(f'lower band [{k}] is above the low', lo, I[1][k + s])
        yield from ge(f'upper band [{k}] is below the high', hi, I[0][k + s])


@fact('ce')
def _(I, o, O, s, n):
    if o[1] < 0: return
    for k, (a, b) in enumerate(zip(*O)):
        w = slice(k + s - W(o) + 1, k + s + 1)
        yield from le(f'long exit [{k}] is above every high', a, *I[0][w])
        yield from ge(f'short exit [{k}] is below every low', b, *I[1][w])


@fact('ichi')
def _(I, o, O, s, n):
    h, l = I; p, q, r = map(int, o)
    for k in range(len(O[0])):
        i = k + s
        for j, (e, w) in enumerate(((i, p), (i, q), (i - q, max(p, q)), (i - q, r))):
            y = O[j][k]
            yield f'output {j}[{k}] is above every high', [(y - x, PX) for x in h[e - w + 1:e + 1]]
            yield f'output {j}[{k}] is below every low', [(x - y, PX) for x in l[e - w + 1:e + 1]]


@fact('avgprice', 'medprice', 'typprice', 'wcprice')
def _(I, o, O, s, n):
    h, l = (I[1], I[2]) if len(I) == 4 else (I[0], I[1])
    for k, y in enumerate(O[0]):
        yield from le(f'output 0[{k}] is above the high', y, h[k])
        yield from ge(f'output 0[{k}] is below the low', y, l[k])


@fact('tr')
def _(I, o, O, s, n):
    h, l, c = I
    for k, y in enumerate(O[0]):
        yield from ge(f'true range [{k}] is below the range of the bar', y, h[k] - l[k])
        if k:
            yield from ge(f'true range [{k}] is below the gap up', y, h[k] - c[k - 1])
            yield from ge(f'true range [{k}] is below the gap down', y, c[k - 1] - l[k])


@fact('atr')
def _(I, o, O, s, n):
    h, l, c = I
    t = [[h[i] - l[i]] + ([h[i] - c[i - 1], c[i - 1] - l[i]] if i else []) for i in range(n)]
    for k, y in enumerate(O[0]):
        yield f'output 0[{k}] is below every range it averages', [(x[0] - y, PX) for x in t[:k + s + 1]]
        yield f'output 0[{k}] is negative', [(-y, PX)]


@fact('stddev', 'var', 'stderr', 'md', 'volatility', 'emsd', 'natr', 'mass', 'marketfi', 'vi', 'dm', 'abs')
def _(I, o, O, s, n):
    for j, out in enumerate(O):
        for k, y in enumerate(out): yield f'output {j}[{k}] is negative', [(-y, PX)]


_md = ORDER['md']
@fact('md')
def _(I, o, O, s, n):
    yield from _md(I, o, O, s, n)
    for k, y in enumerate(O[0]):
        w = I[0][k + s - W(o) + 1:k + s + 1]
        yield f'mean deviation [{k}] exceeds the range of its window', [(y - (a - b), PX) for a in w for b in w if a is not b] or [(y, PX)]


@fact('decay', 'edecay')
def _(I, o, O, s, n):
    for k, y in enumerate(O[0]): yield from ge(f'output 0[{k}] is below the value itself', y, I[0][k])


class Facts(C01):
    quick_s = 70
    table = {}
    assumptions = ['arithmetic is exact over the reals, facts may fail by a relative 1e-6', 'bars ordered low<=open,close<=high, prices positive, volumes non-negative',
                   'window options are integers', 'outputs that are not finite (zero denominators) are not compared']

    def tasks(self): return [(n, None) for n in self.A.infos if n in self.table]
    def expand(self, ctx, sc): yield sc
    def accept_kind(self, v): return v.kind == 'range'

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed), 'positive' if name in ('marketfi',) else 'ordered', wide=False)
        ctx.case = dict(opts=list(sc.opts), inputs=ins)
        try: code, out, _ = A.call(name, ins, sc.opts, '', n)
        except Violation: raise PathEnd('memory')
        if code: return
        ctx.obs = ('', ins, sc.opts, out)
        if any(y is None or y.__class__ is T.Undef for x in out for y in x): raise PathEnd('unwritten')
        nan = math.nan
        o = list(sc.opts)
        for lab, cs in self.table[name](ins, o, [[Skip if y.__class__ is float else y for y in x] for x in out], sc.start, n):
            if any(e is Skip for e, _ in cs) or not cs: continue
            try: ex.refute([(e - t, POS) for e, t in cs], lab)
            except Violation as v: raise Violation('range', lab) if v.kind == 'assert' else v

    def judge(self, c):
        n = c['indicator']; size = len(c['inputs'][0])
        st = self.native_start(n, c['opts']); k = max(0, size - st)
        c['script'] = native_call(n, '', c['inputs'], c['opts'], k)
        rc, out, err = self.replay('release', c['script'])
        if rc != 0: return False, f'native exit {rc}'
        a = native.parse(out)[0]
        if a[1] != 0: return False, 'rejected'
        sc = max(1., scale_of(c['inputs']) * 1e-3)
        O = [[Skip if y is None or not math.isfinite(y) else y for y in x] for x in a[2]]
        for lab, cs in self.table[n](c['inputs'], c['opts'], O, st, size):
            if any(e is Skip for e, _ in cs) or not cs: continue
            if all(e > float(t) * (sc if t is PX else 1.) for e, t in cs): return True, f'{lab}: outputs {a[2]}'
        return False, 'the native outputs are in range'


class Skip_:
    """a value that takes part in no fact"""
    def _(s, *a): return s
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = _


Skip = Skip_()


class C10(Facts):
    prop = 'C10'
    rule = 'One evaluation is one symbolic path through the plain function of an oscillator.'
    table = {n: ranges(n) for n in RANGES}


class C11(Facts):
    prop = 'C11'
    rule = 'One evaluation is one symbolic path through the plain function of a band, channel, average or measure.'
    table = ORDER


# ------------------------------------------------------------------------------------------------ C12
# degree of each output in prices and in volumes
DEG = {}
for n in ('dema ema hfsma hma hfema sma lf rmf mama rema tema trima vidya wilders wma zlema rmta gf1 gf2 gf3 gf4 ehma lma pwma swma dwma shmma ahma t3 mhlma idwma emsd '
          'hwma mgdyn linreg linregintercept linregslope tsf bbands bf2 bf3 kc kama psar pc pbands edcf frama roof ssmooth hf abands apo ao dpo macd qstick wad mom lag max min '
          'sum stddev stderr md avgprice medprice typprice wcprice atr ce tr ichi edecay add sub abs todeg torad dm vwma vwap evwma').split(): DEG[n] = (1, 0)
for n in ('aroon aroonosc bop cmf mesastoch cmo cci copp fisher kst mass mfi nvi pvi ppo posc rsi tsi rmi rvi smi stoch stochrsi trix willr ultosc vhf vosc er hurst arsi dx di adx adxr '
          'roc rocr natr volatility cvi crossany crossover div vi fosc hd cmi').split(): DEG[n] = (0, 0)
for n in 'ad adosc kvo obv pvt'.split(): DEG[n] = (0, 1)
DEG.update(emv=(2, -1), fi=(1, 1), marketfi=(1, -1), var=(2, 0), mul=(2, 0))
SCALES = [Fr(1, 1024), Fr(1, 2), 4, 1024, 3]


class C12(C01):
    prop = 'C12'
    rule = 'One evaluation is one symbolic path through a call on a series and a call on the same series in other units.'
    quick_s = 80
    assumptions = ['arithmetic is exact over the reals; logarithms and trigonometric functions are uninterpreted', 'bars ordered low<=open,close<=high, prices positive, volumes non-negative',
                   'window options are integers', f'factors {", ".join(map(str, SCALES))} for prices and volumes']

    def tasks(self): return [(n, None) for n in self.A.infos if n in DEG]

    def expand(self, ctx, sc):
        names = ctx.info.input_names[:ctx.info.inputs]
        price = any(x != 'volume' for x in names); vol = 'volume' in names
        k = ctx.rng.choice(SCALES) if price else 1; m = ctx.rng.choice(SCALES) if vol else 1
        yield Scn(sc.opts, sc.n, sc.mode, sc.seed, sc.start, {'k': k, 'm': m})

    def accept_kind(self, v): return v.kind in ('differ', 'special', 'code')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; n = sc.n; k = sc.extra['k']; m = sc.extra['m']
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed), wide=False)
        other = [[x * (m if nm == 'volume' else k) for x in r] for nm, r in zip(ctx.info.input_names, ins)]
        ctx.case = dict(opts=list(sc.opts), inputs=ins, k=k, m=m)
        try:
            c1, o1, _ = A.call(name, ins, sc.opts, '', n)
            c2, o2, _ = A.call(name, other, sc.opts, '', n)
        except Violation: raise PathEnd('memory')
        if c1 != c2: raise Violation('code', f'{c1}, in other units {c2}')
        if c1: return
        ctx.obs = ('', ins, sc.opts, o1)
        a, b = DEG[name]
        f = Fr(1) / (Fr(k) ** a * Fr(m) ** b)
        compare_outputs(ex, o1, [[y if y is None or y.__class__ in (float, T.Undef) else y * f for y in x] for x in o2], 'code', 'code in other units')

    def judge(self, c):
        n = c['indicator']; size = len(c['inputs'][0]); k = c['k']; m = c['m']; a, b = DEG[n]
        names = self.A.infos[n].input_names
        st = self.native_start(n, c['opts']); w = max(0, size - st)
        other = [[x * (m if nm == 'volume' else k) for x in r] for nm, r in zip(names, c['inputs'])]
        c['script'] = native_call(n, '', c['inputs'], c['opts'], w) + native_call(n, '', other, c['opts'], w)
        rc, out, err = self.replay('release', c['script'])
        if rc != 0: return False, f'native exit {rc}'
        p, q = native.parse(out)[:2]
        if p[1] != q[1]: return True, f'codes {p[1]} and {q[1]}'
        sc = scale_of(c['inputs']); f = float(k) ** a * float(m) ** b
        for j in range(len(p[2])):
            for i in range(w):
                x, y = p[2][j][i], q[2][j][i]
                if differ(x, None if y is None else y / f, sc): return True, f'output {j}[{i}]: {x}, in other units {y} instead of {x * f if x is not None else x}'
        return False, 'the native outputs scale'
