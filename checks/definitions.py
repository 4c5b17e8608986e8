"""The published definition of each indicator, written once for two kinds of numbers: symbolic terms (the check) and floats (the judge).

d[name](K, inputs, options, n) returns, per output, a list of n entries: None before the first bar the definition has a value for.
K supplies the operations that are not + - * or comparisons; K.div raises K.Undefined when its denominator is zero."""
from fractions import Fraction as Fr
import math

d = {}
C = lambda x: Fr(float(x))          # a decimal constant as the double a C program would use
PI = C(math.pi)


def define(*names):
    def g(f):
        for n in names: d[n] = f
        return f
    return g


def cut(s, *xs): return [[None] * min(s, len(x)) + list(x[s:]) for x in xs]


# ------------------------------------------------------------------------------------------------ building blocks
def wins(xs, p):
    """-> [(i, window ending at i)] for i >= p - 1"""
    return [(i, xs[i - p + 1:i + 1]) for i in range(p - 1, len(xs))]


def over(xs, p, f): return [None] * min(p - 1, len(xs)) + [f(w) for i, w in wins(xs, p)]
def sma(xs, p): return over(xs, p, lambda w: sum(w) * Fr(1, p))
def wsum(xs, p): return over(xs, p, sum)
def wma(xs, p): return over(xs, p, lambda w: sum((k + 1) * x for k, x in enumerate(w)) * Fr(2, p * (p + 1)))
def highest(xs, p): return over(xs, p, lambda w: mx(w))
def lowest(xs, p): return over(xs, p, lambda w: mn(w))


def mx(w):
    m = w[0]
    for x in w[1:]:
        if x.__class__ is m.__class__ is float: m = max(m, x)
        elif x > m: m = x
    return m


def mn(w):
    m = w[0]
    for x in w[1:]:
        if x < m: m = x
    return m


def alpha(p): return Fr(2, 1) / (p + 1)


def smooth(xs, a, seed=None):
    """first order recursion e += a (x - e), started from the first value"""
    r = []
    e = seed
    for x in xs:
        e = x if e is None else e + a * (x - e)
        r.append(e)
    return r


def ema(xs, p): return smooth(xs, alpha(p))


def again(xs, p, k):
    """the k-th further average of an average: it starts once the one before has seen p bars"""
    return [None] * min(len(xs), k * (p - 1)) + ema(xs[k * (p - 1):], p)


def skip(f, xs, *a):
    """apply f to the defined part of xs"""
    k = sum(x is None for x in xs)
    return [None] * k + list(f(xs[k:], *a))


def lift(f, *xs):
    return [None if any(x is None for x in t) else f(*t) for t in zip(*xs)]


def truerange(h, l, c):
    r = [h[0] - l[0]] if h else []
    for i in range(1, len(h)):
        up = h[i] if h[i] > c[i - 1] else c[i - 1]
        dn = l[i] if l[i] < c[i - 1] else c[i - 1]
        r.append(up - dn)
    return r


def wilder(xs, p):
    """Wilder's smoothing: a simple average first, then e += (x - e) / p"""
    n = len(xs)
    if n < p: return [None] * n
    e = sum(xs[:p]) * Fr(1, p)
    r = [None] * (p - 1) + [e]
    for x in xs[p:]:
        e = e + (x - e) * Fr(1, p); r.append(e)
    return r


def ratio0(K, a, b, at0=0):
    """a / b where a zero numerator gives at0 without looking at b"""
    K.sound(b)
    return at0 if K.zero(a) else K.div(a, b)


def diff(xs, k=1): return [None] * min(k, len(xs)) + [xs[i] - xs[i - k] for i in range(k, len(xs))]


# ------------------------------------------------------------------------------------------------ element-wise
for nm in ('acos', 'asin', 'atan', 'ceil', 'cos', 'cosh', 'exp', 'floor', 'log10', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'trunc', 'abs'):
    d[nm] = lambda K, I, o, n, nm=nm: [[K.fn(nm, x) for x in I[0]]]
d['round'] = lambda K, I, o, n: [[K.fn('floor', x + Fr(1, 2)) for x in I[0]]]
d['ln'] = lambda K, I, o, n: [[K.fn('log', x) for x in I[0]]]
d['add'] = lambda K, I, o, n: [[a + b for a, b in zip(*I)]]
d['sub'] = lambda K, I, o, n: [[a - b for a, b in zip(*I)]]
d['mul'] = lambda K, I, o, n: [[a * b for a, b in zip(*I)]]
d['div'] = lambda K, I, o, n: [[K.div(a, b) for a, b in zip(*I)]]
d['todeg'] = lambda K, I, o, n: [[x * C(180 / math.pi) for x in I[0]]]
d['torad'] = lambda K, I, o, n: [[x * C(math.pi / 180) for x in I[0]]]
d['avgprice'] = lambda K, I, o, n: [[(a + b + c + e) * Fr(1, 4) for a, b, c, e in zip(*I)]]
d['medprice'] = lambda K, I, o, n: [[(a + b) * Fr(1, 2) for a, b in zip(*I)]]
d['typprice'] = lambda K, I, o, n: [[(a + b + c) * Fr(1, 3) for a, b, c in zip(*I)]]
d['wcprice'] = lambda K, I, o, n: [[(a + b + 2 * c) * Fr(1, 4) for a, b, c in zip(*I)]]
d['lag'] = lambda K, I, o, n: [[I[0][i - o[0]] if i >= o[0] else None for i in range(n)]]
d['mom'] = lambda K, I, o, n: [diff(I[0], o[0])]
d['max'] = lambda K, I, o, n: [highest(I[0], o[0])]
d['min'] = lambda K, I, o, n: [lowest(I[0], o[0])]
d['sum'] = lambda K, I, o, n: [wsum(I[0], o[0])]
d['sma'] = lambda K, I, o, n: [sma(I[0], o[0])]
d['wma'] = lambda K, I, o, n: [wma(I[0], o[0])]
d['ema'] = lambda K, I, o, n: [ema(I[0], o[0])]
d['wilders'] = lambda K, I, o, n: [wilder(I[0], o[0])]
d['tr'] = lambda K, I, o, n: [truerange(*I)]
d['atr'] = lambda K, I, o, n: [wilder(truerange(*I), o[0])]
d['pc'] = lambda K, I, o, n: [lowest(I[1], o[0]), highest(I[0], o[0])]


@define('roc')
def _(K, I, o, n): return [[None if i < o[0] else K.div(I[0][i] - I[0][i - o[0]], I[0][i - o[0]]) for i in range(n)]]


@define('rocr')
def _(K, I, o, n): return [[None if i < o[0] else K.div(I[0][i], I[0][i - o[0]]) for i in range(n)]]


@define('natr')
def _(K, I, o, n): return [lift(lambda a, c: ratio0(K, 100 * a, c), wilder(truerange(*I), o[0]), I[2])]


@define('crossany')
def _(K, I, o, n):
    a, b = I
    return [[None if i < 1 else int((a[i] > b[i] and a[i - 1] <= b[i - 1]) or (a[i] < b[i] and a[i - 1] >= b[i - 1])) for i in range(n)]]


@define('crossover')
def _(K, I, o, n):
    a, b = I
    return [[None if i < 1 else int(a[i] > b[i] and a[i - 1] <= b[i - 1]) for i in range(n)]]


@define('decay')
def _(K, I, o, n):
    r = []
    for x in I[0]: r.append(x if not r else mx([x, r[-1] - Fr(1, o[0])]))
    return [r]


@define('edecay')
def _(K, I, o, n):
    r = []
    for x in I[0]: r.append(x if not r else mx([x, r[-1] * (1 - Fr(1, o[0]))]))
    return [r]


# ------------------------------------------------------------------------------------------------ averages
@define('dema')
def _(K, I, o, n):
    e = ema(I[0], o[0]); f = again(e, o[0], 1)
    return [lift(lambda a, b: 2 * a - b, cut(2 * (o[0] - 1), e)[0], f)]


@define('tema')
def _(K, I, o, n):
    e = ema(I[0], o[0]); f = again(e, o[0], 1); g = again(f, o[0], 2)
    return [lift(lambda a, b, c: 3 * a - 3 * b + c, cut(3 * (o[0] - 1), e)[0], f, g)]


@define('trima')
def _(K, I, o, n):
    p = o[0]; a = p // 2 + 1 if p % 2 == 0 else (p + 1) // 2; b = p // 2 if p % 2 == 0 else (p + 1) // 2
    return [skip(sma, sma(I[0], a), b)]


@define('hma')
def _(K, I, o, n):
    p = o[0]; q = p // 2; s = math.isqrt(p)
    if not q: raise K.Undefined
    raw = lift(lambda a, b: 2 * a - b, wma(I[0], q), wma(I[0], p))
    return [skip(wma, raw, s)]


@define('dwma')
def _(K, I, o, n): return [skip(wma, wma(I[0], o[0]), o[0])]


@define('zlema')
def _(K, I, o, n):
    x = I[0]; lag = (o[0] - 1) // 2; a = alpha(o[0])
    r = [None] * n
    if n <= lag - 1: return [r]
    s = max(lag - 1, 0)
    if s < n: r[s] = x[s]
    for i in range(lag if lag else 1, n): r[i] = r[i - 1] + a * (x[i] + (x[i] - x[i - lag]) - r[i - 1])
    return [r]


@define('vwma')
def _(K, I, o, n): return [lift(K.div, wsum([c * v for c, v in zip(*I)], o[0]), wsum(I[1], o[0]))]


@define('vwap')
def _(K, I, o, n):
    h, l, c, v = I
    return [lift(K.div, wsum([(a + b + e) * Fr(1, 3) * w for a, b, e, w in zip(*I)], o[0]), wsum(v, o[0]))]


@define('trix')
def _(K, I, o, n):
    p = o[0]
    e = again(again(ema(I[0], p), p, 1), p, 2)
    return [[None if i < 3 * p - 2 else 0 if K.zero(e[i]) else K.div(100 * (e[i] - e[i - 1]), e[i]) for i in range(n)]]


@define('macd')
def _(K, I, o, n):
    s, l, g = o
    # 12/26 are Appel's 0.15 and 0.075, kept by the library for the default periods
    a, b = (C(.15), C(.075)) if (s, l) == (12, 26) else (alpha(s), alpha(l))
    m = cut(l - 1, [x - y for x, y in zip(smooth(I[0], a), smooth(I[0], b))])[0]
    sig = skip(ema, m, g)
    return [m, sig, lift(lambda x, y: x - y, m, sig)]


@define('apo')
def _(K, I, o, n): return cut(1, [x - y for x, y in zip(ema(I[0], o[0]), ema(I[0], o[1]))])


@define('ppo')
def _(K, I, o, n): return cut(1, [None if i < 1 else K.div(100 * (x - y), y) for i, (x, y) in enumerate(zip(ema(I[0], o[0]), ema(I[0], o[1])))])


@define('vosc')
def _(K, I, o, n): return [lift(lambda x, y: ratio0(K, 100 * (x - y), y), cut(o[1] - 1, sma(I[0], o[0]))[0], sma(I[0], o[1]))]


@define('ao')
def _(K, I, o, n):
    m = [(a + b) * Fr(1, 2) for a, b in zip(*I)]
    return [lift(lambda x, y: x - y, sma(m, 5), sma(m, 34))]


# ------------------------------------------------------------------------------------------------ dispersion and regression
def popvar(w, p):
    m = sum(w) * Fr(1, p)
    return sum(x * x for x in w) * Fr(1, p) - m * m


d['var'] = lambda K, I, o, n: [over(I[0], o[0], lambda w: popvar(w, o[0]))]
d['stddev'] = lambda K, I, o, n: [over(I[0], o[0], lambda w: K.root0(popvar(w, o[0])))]
d['stderr'] = lambda K, I, o, n: [over(I[0], o[0], lambda w: K.root0(popvar(w, o[0])) * C(1 / math.sqrt(o[0])))]


@define('bbands')
def _(K, I, o, n):
    m = sma(I[0], o[0]); s = d['stddev'](K, I, o, n)[0]
    return [lift(lambda a, b: a - o[1] * b, m, s), m, lift(lambda a, b: a + o[1] * b, m, s)]


@define('md')
def _(K, I, o, n):
    def f(w):
        m = sum(w) * Fr(1, o[0])
        return sum(K.fn('abs', x - m) for x in w) * Fr(1, o[0])
    return [over(I[0], o[0], f)]


def regress(w):
    """least squares line over x = 1..p -> (intercept at x = 0, slope)"""
    p = len(w)
    if p == 1: return w[0], 0
    sx = Fr(p * (p + 1), 2); sxx = Fr(p * (p + 1) * (2 * p + 1), 6)
    sy = sum(w); sxy = sum((k + 1) * y for k, y in enumerate(w))
    b = (p * sxy - sx * sy) * (1 / (p * sxx - sx * sx))
    return (sy - b * sx) * Fr(1, p), b


def line(K, xs, p, at):
    if p == 1: raise K.Undefined            # no line through one point
    return over(xs, p, lambda w: (lambda a, b: a + b * at)(*regress(w)))


d['linreg'] = lambda K, I, o, n: [line(K, I[0], o[0], o[0])]
d['linregintercept'] = lambda K, I, o, n: [line(K, I[0], o[0], 1)]
d['linregslope'] = lambda K, I, o, n: [line(K, I[0], o[0], 1) and over(I[0], o[0], lambda w: regress(w)[1])]
d['tsf'] = lambda K, I, o, n: [line(K, I[0], o[0], o[0] + 1)]


@define('fosc')
def _(K, I, o, n):
    f = line(K, I[0], o[0], o[0] + 1)
    return [[None if i < o[0] else K.div(100 * (I[0][i] - f[i - 1]), I[0][i]) for i in range(n)]]


@define('volatility')
def _(K, I, o, n):
    x = I[0]
    r = [None] + [0 if K.zero(x[i - 1]) else K.div(x[i], x[i - 1]) - 1 for i in range(1, n)]
    return [skip(lambda z: over(z, o[0], lambda w: K.root0(popvar(w, o[0])) * C(math.sqrt(252))), r[:n])]


# ------------------------------------------------------------------------------------------------ oscillators
@define('ad')
def _(K, I, o, n):
    h, l, c, v = I
    r = []; s = 0
    for i in range(n):
        if not K.zero(h[i] - l[i]): s = s + K.div((c[i] - l[i]) - (h[i] - c[i]), h[i] - l[i]) * v[i]
        r.append(s)
    return [r]


@define('adosc')
def _(K, I, o, n):
    a = d['ad'](K, I, o, n)[0]
    return cut(o[1] - 1, [x - y for x, y in zip(ema(a, o[0]), ema(a, o[1]))])


@define('bop')
def _(K, I, o, n):
    return [[0 if K.nonpos(b - c) else K.div(e - a, b - c) for a, b, c, e in zip(*I)]]


@define('cmf')
def _(K, I, o, n):
    h, l, c, v = I
    m = [0 if K.zero(h[i] - l[i]) else K.div((c[i] - l[i]) - (h[i] - c[i]), h[i] - l[i]) * v[i] for i in range(n)]
    return [lift(K.div, wsum(m, o[0]), wsum(v, o[0]))]


@define('mfi')
def _(K, I, o, n):
    h, l, c, v = I
    t = [(h[i] + l[i] + c[i]) * Fr(1, 3) for i in range(n)]
    up = [None] + [t[i] * v[i] if t[i] > t[i - 1] else 0 for i in range(1, n)]
    dn = [None] + [t[i] * v[i] if t[i] < t[i - 1] else 0 for i in range(1, n)]
    f = lambda a, b: ratio0(K, 100 * a, a + b)
    return [lift(f, skip(wsum, up[:n], o[0]), skip(wsum, dn[:n], o[0]))]


def updown(x, n, k=1):
    up, dn = [None] * min(k, n), [None] * min(k, n)
    for i in range(k, n):
        e = x[i] - x[i - k]
        if e > 0: up.append(e); dn.append(0)
        elif e < 0: up.append(0); dn.append(-e)
        else: up.append(0); dn.append(0)
    return up, dn


@define('cmo')
def _(K, I, o, n):
    up, dn = updown(I[0], n)
    return [lift(lambda a, b: K.div(100 * (a - b), a + b), skip(wsum, up, o[0]), skip(wsum, dn, o[0]))]


@define('rsi')
def _(K, I, o, n):
    up, dn = updown(I[0], n)
    return [lift(lambda a, b: ratio0(K, 100 * a, a + b), skip(wilder, up, o[0]), skip(wilder, dn, o[0]))]


@define('stochrsi')
def _(K, I, o, n):
    r = d['rsi'](K, I, o, n)[0]
    return [skip(lambda z: [None if i < o[0] - 1 else (lambda a, b: 0 if K.zero(a - b) else K.div(z[i] - b, a - b))(mx(z[i - o[0] + 1:i + 1]), mn(z[i - o[0] + 1:i + 1])) for i in range(len(z))], r)]


@define('willr')
def _(K, I, o, n):
    h, l, c = I
    return [lift(lambda a, b, x: 0 if K.zero(a - b) else K.div(-100 * (a - x), a - b), highest(h, o[0]), lowest(l, o[0]), c)]


@define('stoch')
def _(K, I, o, n):
    h, l, c = I
    f = lift(lambda a, b, x: 0 if K.zero(a - b) else K.div(100 * (x - b), a - b), highest(h, o[0]), lowest(l, o[0]), c)
    k = skip(sma, f, o[1]); dd = skip(sma, k, o[2])
    return cut(o[0] + o[1] + o[2] - 3, k, dd)


@define('aroon')
def _(K, I, o, n):
    h, l = I; p = o[0]
    def last(xs, i, better):
        j = i
        for k in range(i - 1, i - p - 1, -1):
            if better(xs[k], xs[j]): j = k
        return i - j
    up = [None if i < p else Fr(100 * (p - last(h, i, lambda a, b: a > b)), p) for i in range(n)]
    dn = [None if i < p else Fr(100 * (p - last(l, i, lambda a, b: a < b)), p) for i in range(n)]
    return [dn, up]


@define('aroonosc')
def _(K, I, o, n):
    a = d['aroon'](K, I, o, n)
    return [lift(lambda x, y: y - x, a[0], a[1])]


@define('cci')
def _(K, I, o, n):
    p = o[0]
    t = [(a + b + c) * Fr(1, 3) for a, b, c in zip(*I)]
    m = sma(t, p)
    def f(i):
        dev = sum(K.fn('abs', m[i] - t[j]) for j in range(i - p + 1, i + 1)) * Fr(1, p)
        return 0 if K.zero(dev) else K.div(t[i] - m[i], C(.015) * dev)
    return [[None if i < 2 * (p - 1) else f(i) for i in range(n)]]


@define('dpo')
def _(K, I, o, n):
    p = o[0]; m = sma(I[0], p); k = p // 2 + 1; s = max(k, p - 1)
    return [[None if i < s else I[0][i - k] - m[i] for i in range(n)]]


@define('emv')
def _(K, I, o, n):
    h, l, v = I
    return [[None if i < 1 else K.div(((h[i] + l[i]) - (h[i - 1] + l[i - 1])) * Fr(1, 2), K.div(v[i] * Fr(1, 10000), h[i] - l[i])) for i in range(n)]]


@define('marketfi')
def _(K, I, o, n):
    h, l, v = I
    return [[K.div(h[i] - l[i], v[i]) for i in range(n)]]


@define('mass')
def _(K, I, o, n):
    e = ema([a - b for a, b in zip(*I)], 9)
    f = [None] * min(8, n) + ema(e[8:], 9)          # the second average starts once the first has seen nine bars
    q = [None if i < 16 else ratio0(K, e[i], f[i]) for i in range(n)]
    return [skip(wsum, q, o[0])]


@define('cvi')
def _(K, I, o, n):
    p = o[0]
    e = ema([a - b for a, b in zip(*I)], p)
    return [[None if i < 2 * p - 1 else K.div(100 * (e[i] - e[i - p]), e[i - p]) for i in range(n)]]


def vindex(up):
    def f(K, I, o, n):
        c, v = I; r = []
        for i in range(n):
            if i == 0: r.append(1000)
            elif (v[i] > v[i - 1] and v[i - 1] > 0 if up else v[i] < v[i - 1]): r.append(r[-1] + K.div(c[i] - c[i - 1], c[i - 1]) * r[-1])
            else: r.append(r[-1])
        return [r]
    return f


d['nvi'] = vindex(False)
d['pvi'] = vindex(True)


@define('obv')
def _(K, I, o, n):
    c, v = I; r = []
    for i in range(n):
        if i == 0: r.append(0)
        elif c[i] > c[i - 1]: r.append(r[-1] + v[i])
        elif c[i] < c[i - 1]: r.append(r[-1] - v[i])
        else: r.append(r[-1])
    return [r]


@define('qstick')
def _(K, I, o, n): return [sma([c - a for a, c in zip(*I)], o[0])]


@define('wad')
def _(K, I, o, n):
    h, l, c = I; r = [None] * min(n, 1); s = 0
    for i in range(1, n):
        if c[i] > c[i - 1]: s = s + c[i] - mn([c[i - 1], l[i]])
        elif c[i] < c[i - 1]: s = s + c[i] - mx([c[i - 1], h[i]])
        r.append(s)
    return [r]


@define('vhf')
def _(K, I, o, n):
    x = I[0]; p = o[0]
    def f(i):
        w = x[i - p + 1:i + 1]
        return K.div(mx(w) - mn(w), sum(K.fn('abs', x[j] - x[j - 1]) for j in range(i - p + 1, i + 1)))
    return [[None if i < p else f(i) for i in range(n)]]


@define('ultosc')
def _(K, I, o, n):
    h, l, c = I
    bp = [None] + [c[i] - mn([l[i], c[i - 1]]) for i in range(1, n)]
    r = [None] + [mx([h[i], c[i - 1]]) - mn([l[i], c[i - 1]]) for i in range(1, n)]
    L = o[2]
    def avg(p, i): return ratio0(K, sum(bp[i - p + 1:i + 1]), sum(r[i - p + 1:i + 1]))
    return [[None if i < L else (4 * avg(o[0], i) + 2 * avg(o[1], i) + avg(o[2], i)) * Fr(100, 7) for i in range(n)]]


@define('fisher')
def _(K, I, o, n):
    m = [(a + b) * Fr(1, 2) for a, b in zip(*I)]; p = o[0]
    f, s = [None] * min(n, p - 1), [None] * min(n, p - 1)
    v = 0; y = 0
    for i in range(p - 1, n):
        hi, lo = mx(m[i - p + 1:i + 1]), mn(m[i - p + 1:i + 1])
        r = hi - lo
        x = K.div(m[i] - lo, r) if not K.zero(r) else K.div(m[i] - lo, C(.001))
        v = C(.33) * 2 * (x - Fr(1, 2)) + C(.67) * v
        if v > C(.99): v = C(.999)
        if v < C(-.99): v = C(-.999)
        s.append(y)
        y = Fr(1, 2) * K.fn('log', K.div(1 + v, 1 - v)) + Fr(1, 2) * y
        f.append(y)
    return [f, s]


@define('kvo')
def _(K, I, o, n):
    h, l, c, v = I
    trend = None; cm = 0; vf = []
    for i in range(1, n):
        a, b = h[i] + l[i] + c[i], h[i - 1] + l[i - 1] + c[i - 1]
        t = True if a > b else False if a < b else trend
        if t is not trend: cm = h[i - 1] - l[i - 1]
        trend = t
        dm = h[i] - l[i]
        cm = cm + dm
        f = 0 if K.zero(dm) else v[i] * K.fn('abs', K.div(dm, cm) * 2 - 1) * 100
        vf.append(-f if trend is False else f)
    return [[None] * min(n, 1) + [x - y for x, y in zip(ema(vf, o[0]), ema(vf, o[1]))]]


# ------------------------------------------------------------------------------------------------ directional movement
def directions(h, l):
    up, dn = [None] * min(1, len(h)), [None] * min(1, len(h))
    for i in range(1, len(h)):
        u = h[i] - h[i - 1]; w = l[i - 1] - l[i]
        a = u if u > 0 else 0
        b = w if w > 0 else 0
        if a > b: b = 0
        elif b > a: a = 0
        up.append(a); dn.append(b)
    return up, dn


def wsmooth(xs, p):
    """Wilder's running total of the values xs[1:]: the sum of the first p - 1, then s = s (p - 1) / p + x, reported from bar p - 1"""
    n = len(xs)
    if n < p: return [None] * n
    s = sum(xs[1:p])
    r = [None] * (p - 1) + [s]
    for i in range(p, n):
        s = s * Fr(p - 1, p) + xs[i]; r.append(s)
    return r


@define('dm')
def _(K, I, o, n):
    u, w = directions(*I)
    return [wsmooth(u, o[0]), wsmooth(w, o[0])]


def dxof(K, I, p):
    u, w = directions(I[0], I[1])
    return lift(lambda a, b: 0 if K.zero(a + b) else K.div(100 * K.fn('abs', a - b), a + b), wsmooth(u, p), wsmooth(w, p))


d['dx'] = lambda K, I, o, n: [dxof(K, I, o[0])]
d['adx'] = lambda K, I, o, n: [skip(wilder, dxof(K, I, o[0]), o[0])]


@define('adxr')
def _(K, I, o, n):
    p = o[0]; a = d['adx'](K, I, o, n)[0]
    return [[None if i < 3 * (p - 1) else (a[i] + a[i - p + 1]) * Fr(1, 2) for i in range(n)]]


@define('di')
def _(K, I, o, n):
    h, l, c = I; p = o[0]
    u, w = directions(h, l)
    t = wsmooth(truerange(h, l, c), p)
    f = lambda a, b: K.div(100 * a, b)
    return [lift(f, wsmooth(u, p), t), lift(f, wsmooth(w, p), t)]


@define('vi')
def _(K, I, o, n):
    h, l, c = I; p = o[0]
    t = [None] + truerange(h, l, c)[1:]
    a = [None] + [K.fn('abs', h[i] - l[i - 1]) for i in range(1, n)]
    b = [None] + [K.fn('abs', l[i] - h[i - 1]) for i in range(1, n)]
    T = skip(wsum, t[:n], p)
    return [lift(K.div, skip(wsum, a[:n], p), T), lift(K.div, skip(wsum, b[:n], p), T)]


@define('psar')
def _(K, I, o, n):
    h, l = I
    r = [None] * min(n, 1)
    if n < 2: return [r]
    step, top = o
    up = h[0] + l[0] <= h[1] + l[1]
    ext, sar = (h[0], l[0]) if up else (l[0], h[0])
    a = step
    for i in range(1, n):
        sar = sar + a * (ext - sar)
        if up:
            sar = mn([sar, l[i - 1]] + ([l[i - 2]] if i > 1 else []))
            if h[i] > ext:
                ext = h[i]
                if a < top: a = min(a + step, top)
            if l[i] < sar: up, a, sar, ext = False, step, ext, l[i]
        else:
            sar = mx([sar, h[i - 1]] + ([h[i - 2]] if i > 1 else []))
            if l[i] < ext:
                ext = l[i]
                if a < top: a = min(a + step, top)
            if h[i] > sar: up, a, sar, ext = True, step, ext, h[i]
        r.append(sar)
    return [r]


# ------------------------------------------------------------------------------------------------ bands, channels, ranges
@define('abands')
def _(K, I, o, n):
    h, l, c = I
    m = [0 if K.nonpos(a + b) else K.div(4 * (a - b), a + b) for a, b in zip(h, l)]
    return [sma([b * (1 - k) for b, k in zip(l, m)], o[0]), sma([a * (1 + k) for a, k in zip(h, m)], o[0]), sma(c, o[0])]


@define('kc')
def _(K, I, o, n):
    m = ema(I[2], o[0]); t = ema(truerange(*I), o[0])
    return [[a - o[1] * b for a, b in zip(m, t)], m, [a + o[1] * b for a, b in zip(m, t)]]


@define('ce')
def _(K, I, o, n):
    h, l, c = I
    a = wilder(truerange(h, l, c), o[0])
    return [lift(lambda x, y: x - o[1] * y, highest(h, o[0]), a), lift(lambda x, y: x + o[1] * y, lowest(l, o[0]), a)]


def projection(h, l, c, p):
    """Widner's projection bands: highs and lows moved along the regression slope of the closes"""
    up, dn = [None] * min(p - 1, len(c)), [None] * min(p - 1, len(c))
    for i in range(p - 1, len(c)):
        b = regress(c[i - p + 1:i + 1])[1]
        up.append(mx([h[i - j] + j * b for j in range(p)])); dn.append(mn([l[i - j] + j * b for j in range(p)]))
    return up, dn


@define('pbands')
def _(K, I, o, n):
    if o[0] == 1: raise K.Undefined
    u, w = projection(*I, o[0])
    return [w, u]


@define('posc')
def _(K, I, o, n):
    if o[0] == 1: raise K.Undefined
    u, w = projection(*I, o[0])
    f = lift(lambda a, b, x: ratio0(K, 100 * (x - b), a - b), u, w, I[2])
    return [skip(ema, f, o[1])]


@define('ichi')
def _(K, I, o, n):
    h, l = I
    mid = lambda p: lift(lambda a, b: (a + b) * Fr(1, 2), highest(h, p), lowest(l, p))
    t, k, s = mid(o[0]), mid(o[1]), mid(o[2])
    a = lift(lambda x, y: (x + y) * Fr(1, 2), t, k)
    sh = lambda x: ([None] * o[1] + x)[:n]
    return cut(o[2] - 1 + o[1], t, k, sh(a), sh(s))


@define('cmi')
def _(K, I, o, n):
    p = o[0]
    if p == 1: raise K.Undefined
    t = truerange(*I)
    return [over(t, p, lambda w: K.div(K.fn('log', K.div(mx(w) - mn(w), sum(w))), C(math.log(p))) * 100)]


@define('mhlma')
def _(K, I, o, n):
    p, q = o; x = I[0]
    m = [(mx(x[max(0, i - p + 1):i + 1]) + mn(x[max(0, i - p + 1):i + 1])) * Fr(1, 2) for i in range(n)]
    return cut(q - 1, sma(m, q), ema(m, q))


# ------------------------------------------------------------------------------------------------ weighted and adaptive averages
@define('ahma')
def _(K, I, o, n):
    p = o[0]; r = []
    for i, x in enumerate(I[0]): r.append(x if i < p else r[-1] + (x - (r[-1] + r[i - p]) * Fr(1, 2)) * Fr(1, p))
    return [r]


def weighted(xs, ws):
    """ws[j] is the weight of the value j bars ago"""
    tot = sum(ws)
    return over(xs, len(ws), lambda w: sum(a * b for a, b in zip(reversed(w), ws)) * (1 / tot))


@define('pwma')
def _(K, I, o, n): return [weighted(I[0], [Fr(o[0] - j) ** int(o[1]) if o[1] == int(o[1]) and o[1] >= 0 else C(float(o[0] - j) ** float(o[1])) for j in range(o[0])])]


@define('idwma')
def _(K, I, o, n): return [weighted(I[0], [1 / Fr(j + 1) ** int(o[1]) if o[1] == int(o[1]) and o[1] >= 0 else C(1 / float(j + 1) ** float(o[1])) for j in range(o[0])])]


@define('swma')
def _(K, I, o, n):
    if o[0] % 12 in (0, 11): raise K.Undefined      # the weights sum to zero
    return [weighted(I[0], [C(math.sin((j % 12 + 1) * math.pi / 6)) for j in range(o[0])])]


HENDERSON = {       # Australian Bureau of Statistics: 13-term filter and its end-of-series surrogates, oldest value first
    7: (-.092, -.058, .012, .12, .244, .353, .421), 8: (-.043, -.038, .002, .08, .174, .254, .292, .279),
    9: (-.016, -.025, .003, .068, .149, .216, .241, .216, .148), 10: (-.009, -.022, .004, .066, .145, .208, .23, .201, .131, .046),
    11: (-.011, -.022, .003, .067, .145, .21, .235, .205, .136, .05, -.018), 12: (-.017, -.025, .001, .066, .147, .213, .238, .212, .144, .061, -.006, -.034),
    13: (-.019, -.028, 0, .066, .147, .214, .24, .214, .147, .066, 0, -.028, -.019)}


@define('hwma')
def _(K, I, o, n): return [over(I[0], o[0], lambda w: sum(C(a) * b for a, b in zip(HENDERSON[o[0]], w)))]


@define('lma')
def _(K, I, o, n): return [lift(lambda a, b: 2 * a - b, wma(I[0], o[0]), sma(I[0], o[0]))]


@define('shmma')
def _(K, I, o, n):
    p = o[0]
    return [over(I[0], p, lambda w: sum(w) * Fr(1, p) + Fr(6, p * (p + 1)) * sum((Fr(2 * k - p + 1, 2)) * x for k, x in enumerate(w)))]


@define('ehma')
def _(K, I, o, n):
    p = o[0]
    e = [2 * a - b for a, b in zip(smooth(I[0], 2 / (Fr(p, 2) + 1)), ema(I[0], p))]
    return [smooth(e, C(2 / (math.sqrt(p) + 1)))]


@define('t3')
def _(K, I, o, n):
    p, v = o
    def gd(x):
        e = ema(x, p); f = ema(e, p)
        return [a * (1 + v) - b * v for a, b in zip(e, f)]
    return [gd(gd(gd(I[0])))]


@define('rema')
def _(K, I, o, n):
    p, lam = o; a = alpha(p); r = []
    for i, x in enumerate(I[0]):
        if i == 0: r.append(x)
        elif i == 1: r.append(r[0] + a * (x - r[0]))
        else: r.append((r[-1] * (1 + 2 * lam) + a * (x - r[-1]) - lam * r[-2]) * (1 / (1 + Fr(lam))))
    return [r]


@define('rmta')
def _(K, I, o, n):
    p, beta = o; a = 1 - beta; r = []
    for i, x in enumerate(I[0]):
        if i == 0:
            b = (1 - a) * x + x
            r.append((1 - a) * x + a * (x + b))
        else:
            c = (1 - a) * b + x
            r.append((1 - a) * r[-1] + a * (x + c - b)); b = c
    return cut(p - 1, r)


@define('mgdyn')
def _(K, I, o, n):
    r = []
    for x in I[0]:
        if not r: r.append(x); continue
        q = K.div(x, r[-1])
        r.append(r[-1] + K.div(x - r[-1], o[0] * q * q * q * q))
    return [r]


@define('evwma')
def _(K, I, o, n):
    c, v = I; p, g = o
    r = [None] * min(n, p - 1)
    for i in range(p - 1, n):
        if i == p - 1: r.append(c[i]); continue
        N = sum(v[i - p + 1:i + 1])
        if K.zero(N): r.append(0); continue
        k = K.div(v[i], g * N)
        r.append(r[-1] * (1 - k) + k * c[i])
    return [r]


@define('kama')
def _(K, I, o, n):
    x = I[0]; p = o[0]
    r = [None] * min(n, p - 1)
    for i in range(p - 1, n):
        if i == p - 1: r.append(x[i]); continue
        s = sum(K.fn('abs', x[j] - x[j - 1]) for j in range(i - p + 1, i + 1))
        e = 1 if K.zero(s) else K.div(K.fn('abs', x[i] - x[i - p]), s)
        k = e * (Fr(2, 3) - Fr(2, 31)) + Fr(2, 31)
        r.append(r[-1] + k * k * (x[i] - r[-1]))
    return [r]


@define('vidya')
def _(K, I, o, n):
    s, l, a = o; x = I[0]
    r = [None] * min(n, l - 2)
    for i in range(l - 2, n):
        if i == l - 2: r.append(x[i]); continue
        A = K.root0(popvar(x[i - s + 1:i + 1], s)); B = K.root0(popvar(x[i - l + 1:i + 1], l))
        k = 0 if K.zero(A) else K.div(A, B)
        r.append(r[-1] + a * k * (x[i] - r[-1]))
    return [r]


@define('emsd')
def _(K, I, o, n):
    p, q = o
    v = over(I[0], p, lambda w: popvar(w, p))
    return [lift(K.root0, skip(ema, v, q))]


@define('edcf')
def _(K, I, o, n):
    x = I[0]; p = o[0]; s = 2 * p - 1
    def f(i):
        cs = [sum((x[i - c] - x[i - c - k]) * (x[i - c] - x[i - c - k]) for k in range(1, p)) for c in range(p)]
        t = sum(cs)
        return 0 if K.zero(t) else K.div(sum(a * x[i - c] for c, a in enumerate(cs)), t)
    return [[None if i < s else f(i) for i in range(n)]]


@define('frama')
def _(K, I, o, n):
    h, l = I; p, q = o; half = p // 2
    if not half: raise K.Undefined
    w = math.log(2 / (1 + q)); r = []
    for i in range(n):
        m = (h[i] + l[i]) * Fr(1, 2)
        if i < p: r.append(m); continue
        rng = lambda a, b: mx(h[a:b]) - mn(l[a:b])
        n3 = rng(i - p + 1, i + 1) * Fr(1, p); n2 = rng(i - p + 1, i - half + 1) * Fr(1, half); n1 = rng(i - half + 1, i + 1) * Fr(1, half)
        dim = 0
        if n1 > 0 and n2 > 0 and n3 > 0: dim = (K.fn('log', n1 + n2) - K.fn('log', n3)) * (1 / C(math.log(2)))
        a = K.fn('exp', C(w) * (dim - 1)) if w else 1
        if a < C(.01): a = C(.01)
        if a > 1: a = 1
        r.append(a * m + (1 - a) * r[-1])
    return [r]


# ------------------------------------------------------------------------------------------------ filters
def recursive(xs, b, a, first=0):
    """f = sum b[k] x[-k] + sum a[k] f[-k-1] from rest, or after the first so many values themselves"""
    r = list(xs[:first])
    for i in range(first, len(xs)):
        v = sum(c * xs[i - k] for k, c in enumerate(b) if i - k >= 0) + sum(c * r[i - k - 1] for k, c in enumerate(a) if i - k - 1 >= 0)
        r.append(v)
    return r


def six(x): return Fr(round(x, 6)).limit_denominator(10**6)


def gauss(poles):
    def f(K, I, o, n):
        P = o[0] // 2 * 2
        if P < 2: raise K.Undefined
        b = (1 - math.cos(2 * math.pi / P)) / (2 ** (1 / poles) - 1)
        al = -b + math.sqrt(b * b + 2 * b)
        cs = [six(al ** poles)] + [six(-(-1) ** k * math.comb(poles, k) * (1 - al) ** k) for k in range(1, poles + 1)]
        t = 1 / sum(cs)
        return [recursive(I[0], [cs[0] * t], [c * t for c in cs[1:]], 5 if poles == 4 else 0)]
    return f


for k in (1, 2, 3, 4): d[f'gf{k}'] = gauss(k)


@define('bf2')
def _(K, I, o, n):
    P = o[0] // 2 * 2
    if P < 2: raise K.Undefined
    a = math.exp(-1.414 * math.pi / P); b = 2 * a * math.cos(1.414 * math.pi / P)
    c = (1 - b + a * a) / 4
    return cut(math.ceil(2 * o[0] / (3.1415 * 3.1415)), recursive(I[0], [six(c), six(2 * c), six(c)], [six(b), six(-a * a)]))


@define('bf3')
def _(K, I, o, n):
    P = o[0] // 2 * 2
    if P < 2: raise K.Undefined
    a = math.exp(-math.pi / P); b = 2 * a * math.cos(1.732 * math.pi / P); c = a * a
    B = (1 - b + c) * (1 - c) / 8
    return cut(math.ceil(3 * o[0] / (3.1415 * 3.1415)), recursive(I[0], [six(B), six(3 * B), six(3 * B), six(B)], [six(b + c), six(-(c + b * c)), six(c * c)]))


def supers(period=10, pi=3.14159):
    a = math.exp(-1.414 * pi / period); b = 2 * a * math.cos(1.414 * pi / period)
    c2 = C(b); c3 = -C(a) * C(a)
    return (1 - c2 - c3) * Fr(1, 2), c2, c3


def highpass(xs, period, pi):
    w = .707 * 2 * pi / period
    al = C((math.cos(w) + math.sin(w) - 1) / math.cos(w))
    k = (1 - al * Fr(1, 2)) * (1 - al * Fr(1, 2))
    return recursive(xs, [k, -2 * k, k], [2 * (1 - al), -(1 - al) * (1 - al)])


@define('ssmooth')
def _(K, I, o, n):
    c, a, b = supers()
    return [recursive(I[0], [c, c], [a, b])]


@define('roof')
def _(K, I, o, n):
    c, a, b = supers()
    return [recursive(highpass(I[0], 48, 3.14159), [c, c], [a, b])]


@define('mesastoch')
def _(K, I, o, n):
    p, cyc = o; x = I[0]
    c, a, b = supers()
    w = .707 * 2 * math.pi / cyc
    if abs(math.cos(w)) < 1e-9: raise K.Undefined
    al = C((math.cos(w) + math.sin(w) - 1) / math.cos(w))
    k = (1 - al * Fr(1, 2)) * (1 - al * Fr(1, 2))
    dd = [x[i] - 2 * x[i - 1] + x[i - 2] for i in range(2, n)]
    hp = recursive(dd, [k], [2 * (1 - al), -(1 - al) * (1 - al)])
    f = recursive(hp, [c, c], [a, b])
    st = [ratio0(K, f[i] - mn(f[i - p + 1:i + 1]), mx(f[i - p + 1:i + 1]) - mn(f[i - p + 1:i + 1])) for i in range(p, len(f))]
    return [[None] * min(n, p + 2) + recursive(st, [c, c], [a, b])]


@define('lf')
def _(K, I, o, n):
    g = o[0]; L = [0, 0, 0, 0]; r = []
    for x in I[0]:
        N = [(1 - g) * x + g * L[0]]
        for k in (1, 2, 3): N.append(-g * N[k - 1] + L[k - 1] + g * L[k])
        L = N
        r.append((L[0] + 2 * L[1] + 2 * L[2] + L[3]) * Fr(1, 6))
    return [r]


def median_of(w, k): return sorted(w)[k]


def hampel(K, w, cand, k, t, strict):
    m = median_of(w, k)
    dev = median_of([K.fn('abs', x - m) for x in w], k)
    e = K.fn('abs', cand - m); lim = t * C(1.4826) * dev
    return cand if (e < lim if strict else e <= lim) else m


@define('hf')
def _(K, I, o, n):
    k = o[0]; x = I[0]
    return [[None if i < 2 * k else hampel(K, x[i - 2 * k:i + 1], x[i], k, o[1], True) for i in range(n)]]


@define('hfsma')
def _(K, I, o, n):
    p, k, t = o
    return [skip(lambda z: over(z, 2 * k + 1, lambda w: hampel(K, w, w[k], k, t, False)), sma(I[0], p))]


@define('hfema')
def _(K, I, o, n):
    p, k, t = o
    return [over(ema(I[0], p), 2 * k + 1, lambda w: hampel(K, w, w[k], k, t, False))]


@define('rmf')
def _(K, I, o, n):
    c, m = o
    w = 2 * math.pi / float(c)
    if abs(math.cos(w)) < 1e-9: raise K.Undefined
    a = C((math.cos(w) + math.sin(w) - 1) / math.cos(w))
    return [skip(smooth, over(I[0], m, lambda w: median_of(w, m // 2)), a)]


# ------------------------------------------------------------------------------------------------ rates, momenta, volumes
@define('copp')
def _(K, I, o, n):
    x = I[0]; s, l, w = o
    roc = lambda i, k: 0 if K.zero(x[i - k]) else K.div(x[i], x[i - k]) - 1
    return [skip(wma, [None if i < l else (roc(i, s) + roc(i, l)) * 50 for i in range(n)], w)]


@define('kst')
def _(K, I, o, n):
    x = I[0]; m = [0] * n
    tot = None
    for j in range(4):
        k = o[j]
        e = skip(ema, [None if i < k else (0 if K.zero(x[i - k]) else K.div(x[i] - x[i - k], x[i - k])) for i in range(n)], o[4 + j])
        e = [None if y is None else (j + 1) * y for y in e]
        tot = e if tot is None else lift(lambda a, b: a + b, tot, e)
    k = [None if y is None else y * Fr(1, 10) for y in cut(o[3], tot)[0]]
    return [k, skip(ema, k, 9)]


@define('er')
def _(K, I, o, n):
    x = I[0]; p = o[0]
    return [[None if i < p else ratio0(K, K.fn('abs', x[i] - x[i - p]), sum(K.fn('abs', x[j] - x[j - 1]) for j in range(i - p + 1, i + 1))) for i in range(n)]]


@define('pfe')
def _(K, I, o, n):
    x = I[0]; p, q = o
    def f(i):
        e = x[i] - x[i - p]
        s = K.root0(e * e + 100)        # the constant of the 10-bar original, kept by the library for every period
        v = K.div(100 * s, sum(K.root0((x[j] - x[j - 1]) * (x[j] - x[j - 1]) + 1) for j in range(i - p + 1, i + 1)))
        return v if e > 0 else -v
    return [skip(ema, [None if i < p else f(i) for i in range(n)], q)]


@define('fi')
def _(K, I, o, n): return [skip(ema, [None if i < 1 else I[1][i] * (I[0][i] - I[0][i - 1]) for i in range(n)], o[0])]


@define('pvt')
def _(K, I, o, n):
    c, v = I; r = [None] * min(1, n)
    for i in range(1, n):
        r.append((v[0] if i == 1 else r[-1]) + v[i] * K.div(c[i] - c[i - 1], c[i - 1]))
    return [r]


@define('tsi')
def _(K, I, o, n):
    e = diff(I[0]); m = [None if x is None else K.fn('abs', x) for x in e]
    dbl = lambda z: skip(ema, skip(ema, z, o[0]), o[1])
    return [lift(lambda a, b: 0 if K.zero(b) else K.div(100 * a, b), dbl(e), dbl(m))]


@define('rmi')
def _(K, I, o, n):
    up, dn = updown(I[0], n, o[1])
    return [lift(lambda a, b: ratio0(K, 100 * a, a + b), skip(ema, up, o[0]), skip(ema, dn, o[0]))]


@define('rvi')
def _(K, I, o, n):
    p, s = o; x = I[0]; a = alpha(p); g = l = 0
    if s == 1: raise K.Undefined
    r = [None] * min(n, s - 1)
    for i in range(s - 1, n):
        A, B = regress(x[i - s + 1:i + 1])
        e = x[i] - (A + B * s)
        q = e * e * Fr(1, s)
        if e > 0: g = g + a * (q - g)
        else: l = l + a * (q - l)
        r.append(ratio0(K, 100 * g, g + l, 50))
    return [r]


@define('smi')
def _(K, I, o, n):
    h, l, c = I; q, r, s = o
    H, L = highest(h, q), lowest(l, q)
    dbl = lambda z: skip(ema, skip(ema, z, r), s)
    num = dbl(lift(lambda a, b, x: x - (a + b) * Fr(1, 2), H, L, c)); den = dbl(lift(lambda a, b: a - b, H, L))
    return [lift(lambda a, b: 0 if K.zero(b) else K.div(200 * a, b), num, den)]


@define('hurst')
def _(K, I, o, n):
    x = I[0]; p = o[0]
    lr = [None] + [0 if K.zero(x[i]) or K.zero(x[i - 1]) else K.fn('log', K.div(x[i], x[i - 1])) for i in range(1, n)]
    def f(w):
        m = sum(w) * Fr(1, p); c = 0; cs = []
        for v in reversed(w): c = c + v - m; cs.append(c)
        R = mx(cs) - mn(cs)
        if K.zero(R): return 0
        S = K.root0(sum((v - m) * (v - m) for v in w) * Fr(1, p))
        return K.fn('log', K.div(R, S)) * (1 / C(math.log(p)))
    H = skip(lambda z: over(z, p, f), lr[:n])
    return [H, [None if v is None else 2 - v for v in H]]


@define('msw')
def _(K, I, o, n):
    x = I[0]; p = o[0]; pi = 3.1415926
    s, l = [None] * min(n, p), [None] * min(n, p)
    for i in range(p, n):
        re = sum(C(math.cos(2 * pi * j / p)) * x[i - j] for j in range(p)); im = sum(C(math.sin(2 * pi * j / p)) * x[i - j] for j in range(p))
        if K.fn('abs', re) > C(.001): ph = K.fn('atan', K.div(im, re))
        else: ph = C(-pi) if im < 0 else C(pi)
        if re < 0: ph = ph + C(pi)
        ph = ph + C(pi / 2)
        if ph < 0: ph = ph + C(2 * pi)
        if ph > C(2 * pi): ph = ph - C(2 * pi)
        s.append(K.fn('sin', ph)); l.append(K.fn('sin', ph + C(pi / 4)))
    return [s, l]


def homodyne(K, x, first, n):
    """Ehlers' homodyne discriminator from rest -> per bar (I1, Q1, smoothed period)"""
    z = lambda s, k: s[-1 - k] if len(s) > k else 0
    sm, de, q1, i1, i2, q2, re, im, per, sp = ([] for _ in range(10))
    out = []
    for i in range(first, n):
        P = z(per, 0)
        adj = C(.075) * P + C(.54)
        hil = lambda s: (C(.0962) * z(s, 0) + C(.5769) * z(s, 2) - C(.5769) * z(s, 4) - C(.0962) * z(s, 6)) * adj
        sm.append((4 * x[i] + 3 * x[i - 1] + 2 * x[i - 2] + x[i - 3]) * Fr(1, 10))
        de.append(hil(sm)); q1.append(hil(de)); i1.append(z(de, 3))
        jI, jQ = hil(i1), hil(q1)
        pi2, pq2 = z(i2, 0), z(q2, 0)
        i2.append(C(.2) * (i1[-1] - jQ) + C(.8) * pi2); q2.append(C(.2) * (q1[-1] + jI) + C(.8) * pq2)
        re.append(C(.2) * (i2[-1] * pi2 + q2[-1] * pq2) + C(.8) * z(re, 0))
        im.append(C(.2) * (i2[-1] * pq2 - q2[-1] * pi2) + C(.8) * z(im, 0))
        if not K.zero(im[-1]) and not K.zero(re[-1]): p = K.div(2 * PI, K.fn('atan', K.div(im[-1], re[-1])))
        else:
            if not P <= 4: raise K.Undefined       # the period of an exactly silent signal
            p = P
        p = mx([mn([p, C(1.5) * P]), C(.67) * P, 6]); p = mn([p, 50])
        per.append(C(.2) * p + C(.8) * P); sp.append(C(.33) * per[-1] + C(.67) * z(sp, 0))
        out.append((i1[-1], q1[-1], sp[-1]))
    return out


d['hd'] = lambda K, I, o, n: [[None] * min(n, 5) + [t[2] for t in homodyne(K, I[0], 5, n)]]


@define('arsi')
def _(K, I, o, n):
    x = I[0]; r = [None] * min(n, 5)
    for k, (_, _, sp) in enumerate(homodyne(K, x, 5, n)):
        i = k + 5; up = dn = 0
        for c in range(min(K.whole(o[0] * sp), i)):
            e = x[i - c] - x[i - c - 1]
            if e > 0: up = up + e
            else: dn = dn - e
        r.append(0 if K.zero(up + dn) else K.div(100 * up, up + dn))
    return [r]


@define('mama')
def _(K, I, o, n):
    x = I[0]; fast, slow = o
    m, f = [None] * min(n, 6), [None] * min(n, 6)
    ph = 0; M = F = 0
    for k, (i1, q1, _) in enumerate(homodyne(K, x, 6, n)):
        p = 0 if K.zero(i1) else K.fn('atan', K.div(q1, i1)) * C(180 / math.pi)
        dp = mx([ph - p, 1]); ph = p
        a = mx([K.div(fast, dp), slow])
        M = a * x[k + 6] + (1 - a) * M; F = a * Fr(1, 2) * M + (1 - a * Fr(1, 2)) * F
        m.append(M); f.append(F)
    return [m, f]
