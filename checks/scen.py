"""Option vectors, sizes and (symbolic) series."""
import re, random, itertools
from fractions import Fraction as Fr
from engine import terms as T, rt
from engine.explore import Violation
from engine.terms import NEG, ZERO, POS

WINDOW = re.compile(r'period|^length$|^N$|^roc\d|^ma\d|^max_cycle|^k$|slowing')


def is_window(o): return bool(WINDOW.search(o)) and o != 'critical_period'


REALS = {
    'threshold': [Fr(1, 2), 0, 2], 'gamma': [Fr(1, 2), Fr(1, 4), 1, 0], 'fastlimit': [Fr(1, 2), Fr(3, 4)], 'slowlimit': [Fr(1, 20), Fr(1, 2)],
    'critical_period': [2, Fr(5, 2), 7], 'lambda': [Fr(1, 2), 2, 0], 'alpha': [Fr(1, 5), Fr(1, 2)], 'beta': [Fr(1, 2), Fr(7, 10)],
    'power': [2, 1, 3], 'v': [Fr(7, 10), 1, 0], 'exponent': [1, 2], 'stddev': [2, 1, Fr(1, 2)], 'multiple': [2, Fr(1, 2)],
    'acceleration factor step': [Fr(1, 50), Fr(1, 4), Fr(3, 10)], 'acceleration factor maximum': [Fr(1, 5), 1, Fr(7, 10)], 'coef': [3, Fr(1, 2)],
    'cycpart': [Fr(1, 2), 1, 2],
}
GENERIC_REAL = [1, Fr(1, 2), 2, 0, Fr(1, 4)]
DEFAULTS = {'macd': [12, 26, 9], 'stoch': [5, 3, 3], 'ichi': [9, 26, 52], 'kst': [10, 15, 20, 30, 10, 10, 10, 15], 'ultosc': [7, 14, 28],
            'psar': [Fr(1, 50), Fr(1, 5)], 'kvo': [34, 55], 'adosc': [3, 10], 'copp': [11, 14, 10], 'vidya': [5, 10, Fr(1, 5)]}


class Options:
    """accepted option vectors of one indicator, by increasing weight"""
    def __init__(self, A, info, rng):
        self.A = A; self.info = info; self.rng = rng; self.extra = ()
        self.names = info.option_names[:info.options]
        self.cache = {}

    def accepted(self, v):
        v = tuple(v)
        r = self.cache.get(v)
        if r is None:
            try:
                r = self.A.call(self.info.name, [[]] * self.info.inputs, v, '', 0, 0)[0] == 0
                if not r:
                    n = 2 + sum(int(x) for x, o in zip(v, self.names) if is_window(o))
                    if 0 < n < 300:
                        k = self.A.start(self.info.name, v)
                        r = self.A.call(self.info.name, [[i % 7 + 1 for i in range(n)]] * self.info.inputs, v, '', n, max(0, n - k))[0] == 0
                if r:
                    s = self.A.start(self.info.name, v)
                    r = s.__class__ is int
            except Violation:
                # an access outside the arrays (too few bars for the function as it is): judged by the checks, not here
                try:
                    s = self.A.start(self.info.name, v); r = s.__class__ is int and 0 <= s < 1000
                except Exception: r = False
            except Exception:
                r = False
            self.cache[v] = r
        return r

    def product(self, cand, limit):
        n = 1
        for c in cand: n *= len(c)
        if n <= limit: return list(itertools.product(*cand))
        r = {tuple(self.rng.choice(c) for c in cand) for _ in range(limit)}
        w = [i for i, c in enumerate(cand) if len(c) > 3]
        for k in range(1, max(map(len, cand)) + 1):      # monotone ones, which ordering constraints ask for
            for _ in range(8):
                ws = sorted(self.rng.randint(1, k) for _ in w); it = iter(ws)
                r.add(tuple(next(it) if i in w else self.rng.choice(c) for i, c in enumerate(cand)))
        if len(w) > 3:                                   # strictly increasing from some point on, or up to it
            for k in range(1, len(w) + 1):
                for _ in range(12):
                    top = max(k, self.rng.choice([k, k + 1, k + 3, 13]))
                    ws = sorted(self.rng.sample(range(1, top + 1), k)) + [self.rng.randint(1, 4) for _ in w[k:]]; it = iter(ws)
                    r.add(tuple(next(it) if i in w else self.rng.choice(c) for i, c in enumerate(cand)))
        return sorted(r, key=lambda v: [float(x) for x in v])

    def start(self, v): return self.A.start(self.info.name, v)

    def reals(self, o, some=False):
        """values tried for an option that is not a window; some: any rational in their range now and then"""
        r = REALS.get(o, GENERIC_REAL)
        if some and self.rng.random() < .3:
            if self.extra and self.rng.random() < .6:
                c = Fr(self.rng.choice(self.extra)).limit_denominator(1 << 20)
                return [T.const_norm(c + d) for d in (0, Fr(1, 4), -Fr(1, 4))]
            lo, hi = min(r), max(r)
            return [T.const_norm(Fr(self.rng.randint(int(lo * 16), int(hi * 24)), 16))]
        return r

    def small(self, limit=14, maxw=4, maxstart=12):
        """small accepted vectors: full product of windows 1..maxw when feasible"""
        if not self.names: return [()]
        res = []
        nw = sum(map(is_window, self.names))
        ws = list(range(1, maxw + 1))
        if nw > 3: ws = [1, 2, 3]
        if nw > 4: ws = [1, 2]
        cand = [ws if is_window(o) else self.reals(o) for o in self.names]
        allv = self.product(cand, 600)
        ok = [v for v in allv if self.accepted(v)]
        if len(ok) < 3 and nw:
            cand = [list(range(1, 14)) if is_window(o) else self.reals(o)[:2] for o in self.names]
            allv = self.product(cand, 1500)
            ok = sorted(set(ok) | {v for v in allv if self.accepted(v)}, key=lambda v: [float(x) for x in v])
        ok = [(self.start(v), v) for v in ok]
        ok.sort(key=lambda x: (x[0], sum(float(y) for y in x[1])))
        ok2 = [x for x in ok if x[0] <= maxstart] or ok[:2]
        # diverse subset: first two, then spread with distinct window values preferred
        pick = ok2[:2]
        rest = ok2[2:]
        rest.sort(key=lambda x: (-len(set(x[1])), x[0]))
        half = rest[:max(1, limit // 3)]
        others = [x for x in rest if x not in half]
        self.rng.shuffle(others)
        for x in half + others:
            if len(pick) >= limit: break
            if x not in pick: pick.append(x)
        pick.sort(key=lambda x: (x[0], sum(float(y) for y in x[1])))
        return [v for _, v in pick]

    def contrast(self, tries=12):
        """accepted vectors with one long window among short ones, or one short among long"""
        w = [i for i, o in enumerate(self.names) if is_window(o)]
        if len(w) < 2: return None
        for _ in range(tries):
            i = self.rng.choice(w); big = self.rng.randint(5, 11); small = self.rng.randint(1, 2)
            if self.rng.random() < .3: big, small = small, self.rng.randint(4, 7)
            v = tuple(big if j == i else small if j in w else self.rng.choice(self.reals(o, True)) for j, o in enumerate(self.names))
            if self.accepted(v): return v
        return None

    def random(self, maxw=40, tries=60):
        for _ in range(tries):
            hi = self.rng.choice([6, 12, 20, maxw])
            v = []
            mono = self.rng.random() < 0.6
            ws = [self.rng.randint(1, hi) for o in self.names if is_window(o)]
            if mono: ws.sort()
            if mono and len(ws) > 4 and self.rng.random() < .7:
                k = self.rng.randint(2, len(ws))
                ws = sorted(self.rng.sample(range(1, max(hi, k) + 1), k)) + [self.rng.randint(1, hi) for _ in ws[k:]]
            it = iter(ws)
            v = tuple(next(it) if is_window(o) else self.rng.choice(self.reals(o, True)) for o in self.names)
            if self.accepted(v): return v
        return None

    def near(self, c, tries=40):
        """accepted vectors with windows at a harvested constant"""
        for _ in range(tries):
            v = tuple((c if self.rng.random() < 0.6 else max(1, c + self.rng.randint(-3, 3))) if is_window(o) else self.rng.choice(self.reals(o, True)) for o in self.names)
            if self.accepted(v): return v
            ws = sorted(x for x, o in zip(v, self.names) if is_window(o))
            it = iter(ws)
            v = tuple(next(it) if is_window(o) else x for x, o in zip(v, self.names))
            if self.accepted(v): return v
            v = tuple(c if i == _ % len(v) else x for i, x in enumerate(self.random() or v))
            if self.accepted(v): return v
        return None


PRICE = ('open', 'high', 'low', 'close')


class Dom:
    """bounds of the symbolic values; wide ones now and then"""
    def __init__(self, wide):
        self.lo, self.hi, self.x = (Fr(1, 1 << 20), 1 << 30, 1 << 30) if wide else (1, 1000, 100)


def series(ex, info, n, mode='full', rng=None, dom='ordered', pre='', wide=True):
    """-> list of input lists (terms).  dom: ordered | any | positive"""
    names = info.input_names[:info.inputs]
    rng = rng or random.Random(1)
    D = Dom(wide and mode != 'conc' and .2 < rng.random() < .35)
    if mode == 'full':
        if dom == 'any':
            return [[ex.real(f'{pre}{nm}{k}_{i}', -D.x * 10, D.x * 10) for i in range(n)] for k, nm in enumerate(names)]
        bars = {}
        isbar = any(nm in PRICE for nm in names)
        if isbar:
            lows, highs, closes, opens = [], [], [], []
            for i in range(n):
                if 'high' in names or 'low' in names:
                    l = ex.real(f'{pre}low_{i}', D.lo, D.hi // 2)
                    h = l + ex.real(f'{pre}rng_{i}', 0, D.hi // 2)
                    c = o = None
                    if 'close' in names:
                        c = l + ex.real(f'{pre}cl_{i}', 0, D.hi // 2); ex.assume(h - c, POS | ZERO)
                    if 'open' in names:
                        o = l + ex.real(f'{pre}op_{i}', 0, D.hi // 2); ex.assume(h - o, POS | ZERO)
                else:
                    l = h = None
                    c = ex.real(f'{pre}close_{i}', D.lo, D.hi) if 'close' in names else None
                    o = ex.real(f'{pre}open_{i}', D.lo, D.hi) if 'open' in names else None
                lows.append(l); highs.append(h); closes.append(c); opens.append(o)
            bars = {'low': lows, 'high': highs, 'close': closes, 'open': opens}
        res = []
        for k, nm in enumerate(names):
            if nm in bars and bars[nm] and bars[nm][0] is not None: res.append(bars[nm])
            elif nm in bars and n == 0: res.append([])
            elif nm == 'volume': res.append([ex.real(f'{pre}vol_{i}', 0, D.hi) for i in range(n)])
            else:
                lo, hi = (D.lo, D.hi) if dom == 'positive' else (-D.x, D.x)
                res.append([ex.real(f'{pre}x{k}_{i}', lo, hi) for i in range(n)])
        return res
    if mode in ('few', 'conc'):
        conc = concrete(names, n, rng, dom)
        if mode == 'conc' or n == 0: return conc
        return fewsym(ex, names, conc, n, rng, dom, pre, D)
    if mode == 'line':
        t = ex.real(f'{pre}t', 0, 1)
        a = concrete(names, n, rng, dom); b = concrete(names, n, rng, dom)
        # convex combination of two valid series is valid
        res = []
        for x, y in zip(a, b):
            row = []
            for u, v in zip(x, y):
                d = v - u
                row.append(u + d * t if d != 0 else u)
            res.append(row)
        return res
    raise ValueError(mode)


def concrete(names, n, rng, dom='ordered'):
    """concrete series with many ties, trends and flat stretches; small dyadic values"""
    isbar = any(nm in PRICE for nm in names)
    style = rng.randrange(6)
    base = 20 if (isbar or dom == 'positive') else rng.choice([0, 5, 20])
    xs = []
    v = base
    for i in range(n):
        if style == 0: v = base + rng.randint(-8, 8)
        elif style == 1: v += rng.choice([-2, -1, 0, 0, 1, 2])
        elif style == 2: v += rng.choice([0, 1, 1, 2])
        elif style == 3: v -= rng.choice([0, 0, 1])
        elif style == 4: v = base + rng.randint(0, 2)
        else:
            if rng.random() < 0.35: v += rng.randint(-5, 5)
        if isbar or dom == 'positive': v = max(2, v)
        xs.append(v)
    out = {}
    q = (lambda k: Fr(rng.randint(0, 4 * k), 4))
    if isbar:
        lo = []; hi = []; cl = []; op = []
        for x in xs:
            sp = rng.choice([0, 0, 1, 2, 4]) if style in (4, 5) else rng.choice([0, 1, 2, 3, 5])
            l = T.const_norm(Fr(x)); h = l + sp
            lo.append(l); hi.append(h)
            pick = lambda: l if (r := rng.random()) < .15 else h if r < .3 else T.const_norm(Fr(l) + Fr(sp * rng.randint(0, 4), 4))
            cl.append(pick()); op.append(pick())
        if 'high' not in names and 'low' not in names:
            cl = list(xs)
        out = {'low': lo, 'high': hi, 'close': cl, 'open': op}
    res = []
    for k, nm in enumerate(names):
        if nm in out: res.append(list(out[nm]))
        elif nm == 'volume': res.append([rng.choice([0, 1, 2, 5, 10, 10, 30]) for _ in range(n)])
        elif k == 0 or not isbar:
            if k == 0: res.append([T.const_norm(Fr(x)) for x in xs])
            else: res.append([T.const_norm(Fr(x) + rng.choice([-1, 0, 0, 1, Fr(1, 2)])) for x in xs])
        else: res.append([T.const_norm(Fr(x)) for x in xs])
    return res


def fewsym(ex, names, conc, n, rng, dom, pre, D, k=None):
    """conc with k bars symbolic"""
    k = k or rng.choice([1, 2, 2, 3])
    pos = sorted(rng.sample(range(n), min(k, n)))
    isbar = any(nm in PRICE for nm in names)
    if dom == 'any': isbar = False
    for i in pos:
        if isbar:
            hl = 'high' in names or 'low' in names
            if hl:
                l = ex.real(f'{pre}low_{i}', D.lo, D.hi // 2); h = l + ex.real(f'{pre}rng_{i}', 0, D.hi // 2)
            d = {}
            if hl: d['low'] = l; d['high'] = h
            for nm in ('close', 'open'):
                if nm in names:
                    if hl:
                        c = l + ex.real(f'{pre}{nm}_{i}', 0, D.hi // 2); ex.assume(h - c, POS | ZERO)
                    else: c = ex.real(f'{pre}{nm}_{i}', D.lo, D.hi)
                    d[nm] = c
            for j, nm in enumerate(names):
                if nm in d: conc[j][i] = d[nm]
                elif nm == 'volume': conc[j][i] = ex.real(f'{pre}vol_{i}', 0, D.hi)
        else:
            lo, hi = (D.lo, D.hi) if dom == 'positive' else (-D.x * 10, D.x * 10) if dom == 'any' else (-D.x, D.x)
            for j, nm in enumerate(names): conc[j][i] = ex.real(f'{pre}x{j}_{i}', 0 if nm == 'volume' and dom != 'any' else lo, hi)
    return conc


class Scn:
    __slots__ = ('opts', 'n', 'mode', 'seed', 'extra', 'start')
    def __init__(s, opts, n, mode, seed, start, extra=None):
        s.opts = opts; s.n = n; s.mode = mode; s.seed = seed; s.extra = extra; s.start = start
    def key(s): return (tuple(map(str, s.opts)), s.n, s.mode, s.seed, str(s.extra))
    def show(s): return f'options={[str(o) for o in s.opts]} bars={s.n} {s.mode}' + (f' {s.extra}' if s.extra else '')


def wmax(names, v):
    w = [int(x) for x, o in zip(v, names) if is_window(o)]
    return max(w) if w else 1


def plan(O, rng, consts=(), tier='quick', maxsize=140, fullcap=9, extra_small=True):
    """infinite generator of scenarios, the most valuable first"""
    names = O.names
    O.extra = tuple(getattr(consts, 'newf', ()))
    small = O.small(limit=10 if tier == 'quick' else 30, maxw=4 if tier == 'quick' else 6)
    q = []
    # small, fully symbolic
    tier1 = []
    for idx, v in enumerate(small):
        s = max(0, O.start(v))
        w = wmax(names, v)
        for d in ((1, 3, w + 2) if tier == 'quick' else (1, 2, 3, w + 1, w + 2, 2 * w + 1)):
            n = s + d
            tier1.append((n + idx * 0.2, Scn(v, n, 'full', 1, s)))
    tier1.sort(key=lambda x: x[0])
    seen = set()
    t1 = []
    for _, sc in tier1:
        if sc.key() not in seen: seen.add(sc.key()); t1.append(sc)
    def late():
        k = 0
        cs = [c for c in consts]
        rng.shuffle(cs)
        new = list(getattr(consts, 'new', ()))
        rng.shuffle(new)
        # constants the recorded code does not have, first: bar counts and windows around them
        rounds = [(c, d) for d in (1, 2, 9, 0) for c in new]
        for j, (c, d) in enumerate(rounds[:60]):
            if c <= 150 and any(map(is_window, names)):
                v = O.near(c, 15)
                if v is not None:
                    s = max(0, O.start(v)); w = wmax(names, v)
                    yield Scn(v, s + w + d if s + w + d <= 2 * maxsize else s + d, ('few', 'line')[j % 2], rng.randrange(10**6), s)
            v = rng.choice(small[:4]) if small and names else () if not names else None
            if v is not None:
                s = max(0, O.start(v))
                for n in {c + d, c + s + d}:
                    if n > s: yield Scn(v, n, ('few', 'line')[j % 2] if n < 600 else 'few', rng.randrange(10**6), s)
        d = DEFAULTS.get(O.info.name)
        if d is not None and O.accepted(tuple(d)):
            s = O.start(tuple(d)); yield Scn(tuple(d), s + wmax(names, d) + 3, 'line', 7, s)
        while True:
            k += 1
            r = rng.random()
            mode = rng.choice(['few', 'line', 'line', 'few', 'conc'])
            if cs and (k % 3 == 1):
                c = cs[(k // 3) % len(cs)]
                if names and any(map(is_window, names)) and c <= 100 and rng.random() < .6:
                    v = O.near(c)
                    if v is None: continue
                    s = max(0, O.start(v)); n = s + wmax(names, v) + rng.choice([1, 2, 5])
                else:
                    v = O.random(12) if names else ()
                    if v is None: continue
                    s = max(0, O.start(v)); n = c + rng.choice([-1, 0, 1, 2, 7])
                    if n <= s: n = s + c + 1
                if n > 2 * maxsize or n < 1: continue
                yield Scn(v, n, mode if n <= maxsize else 'line', rng.randrange(10**6), s)
                continue
            v = O.contrast() if k % 4 == 2 else None
            if v is None: v = O.random() if names else ()
            if v is None:
                v = rng.choice(small) if small else None
                if v is None: return
            s = max(0, O.start(v)); w = wmax(names, v)
            n = s + rng.choice([1, 2, w, w + 2, 2 * w + 3, rng.randint(1, 40)])
            if n > maxsize: n = s + 3
            if n > 2 * maxsize: continue
            yield Scn(v, n, mode, rng.randrange(10**6), s)
    L = late()
    # interleave: two small ones, then one late
    i = 0
    first_pass = list(t1)
    while i < len(first_pass):
        yield first_pass[i]; i += 1
        if i < len(first_pass): yield first_pass[i]; i += 1
        x = next(L, None)
        if x is not None: yield x
    r = 1
    while True:
        # afterwards: mostly large scenarios, with re-seeded small ones in between
        for _ in range(3):
            x = next(L, None)
            if x is not None: yield x
        if t1:
            sc = rng.choice(t1)
            yield Scn(sc.opts, sc.n + rng.choice([0, 0, 1, 2]), 'full', rng.randrange(10**6), sc.start)
        elif x is None: return
