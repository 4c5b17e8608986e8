"""Exact symbolic real/integer values.

A finite double is a Python int / Fraction (constant) or a Poly: a Laurent polynomial over atoms with
rational coefficients.  NaN and infinities are Python floats.  UNDEF marks uninitialised data.
"""
import math
from fractions import Fraction
from math import gcd

NEG, ZERO, POS = 1, 2, 4
ALL = 7
NAN = float('nan')
INF = float('inf')

MULMAX = 48        # product of term counts above which an operand is aliased
TERMMAX = 4000     # polys larger than this are aliased when used non-linearly


class Undef:
    __slots__ = ()
    def _u(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __truediv__ = __rtruediv__ = _u
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- atoms
# atom id -> Atom
class Atom:
    __slots__ = ('id', 'kind', 'name', 'poly', 'args', 'isint', 'sign', 'lo', 'hi', 'z', 'zdef', 'val', 'depth')
    def __init__(s, id, kind, name=None, poly=None, args=None):
        s.id = id; s.kind = kind; s.name = name; s.poly = poly; s.args = args
        s.isint = False; s.sign = ALL; s.lo = None; s.hi = None; s.z = None; s.zdef = None; s.val = None; s.depth = 0

ATOMS = []
_def_index = {}
_var_index = {}


def reset():
    ATOMS.clear(); _def_index.clear(); _var_index.clear()


def var(name, isint=False, lo=None, hi=None):
    a = _var_index.get(name)
    if a is None:
        a = Atom(len(ATOMS), 'ivar' if isint else 'var', name)
        a.isint = isint
        a.lo, a.hi = lo, hi
        m = ALL
        if lo is not None:
            if lo > 0: m &= POS
            elif lo == 0: m &= POS | ZERO
        if hi is not None:
            if hi < 0: m &= NEG
            elif hi == 0: m &= NEG | ZERO
        a.sign = m
        ATOMS.append(a)
        _var_index[name] = a
    return Poly({((a.id, 1),): 1}, 1)


def _def_atom(kind, key, poly=None, args=None, sign=ALL):
    k = (kind, key)
    a = _def_index.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, None, poly, args)
        a.sign = sign
        ATOMS.append(a)
        _def_index[k] = a
    return a


# ---------------------------------------------------------------- monomials
def _mono_mul(a, b):
    """-> (monomial, list of sqrt atoms to substitute [(atom, k)])"""
    if not a: return b
    if not b: return a
    i = j = 0
    la, lb = len(a), len(b)
    r = []
    while i < la and j < lb:
        x = a[i]; y = b[j]
        if x[0] < y[0]: r.append(x); i += 1
        elif x[0] > y[0]: r.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e: r.append((x[0], e))
            i += 1; j += 1
    if i < la: r.extend(a[i:])
    if j < lb: r.extend(b[j:])
    return tuple(r)


def _norm(t, den):
    """dict -> constant or Poly"""
    n = len(t)
    if n == 0: return 0
    if n == 1 and () in t:
        c = t[()]
        if den == 1: return c
        f = Fraction(c, den)
        return f.numerator if f.denominator == 1 else f
    return Poly(t, den)


def const_norm(f):
    if isinstance(f, Fraction) and f.denominator == 1: return f.numerator
    return f


class Poly:
    __slots__ = ('t', 'den', '_key', '_prim')
    def __init__(self, t, den=1):
        self.t = t; self.den = den; self._key = None; self._prim = None

    def __repr__(self): return show(self)

    # -- linear ops
    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()}, self.den)

    def _addc(self, n, d):
        den = self.den
        if d == den or d == 1:
            t = dict(self.t)
            if d != den: n *= den
        else:
            g = gcd(den, d)
            f = d // g
            t = {m: c * f for m, c in self.t.items()}
            n *= den // g
            den *= f
        c = t.get((), 0) + n
        if c: t[()] = c
        else: t.pop((), None)
        return _norm(t, den)

    def __add__(self, o):
        k = o.__class__
        if k is Poly:
            d1, d2 = self.den, o.den
            if d1 == d2:
                if len(self.t) >= len(o.t): t = dict(self.t); it = o.t
                else: t = dict(o.t); it = self.t
                get = t.get
                for m, c in it.items():
                    c2 = get(m)
                    if c2 is None: t[m] = c
                    else:
                        c2 += c
                        if c2: t[m] = c2
                        else: del t[m]
                return _norm(t, d1)
            g = gcd(d1, d2)
            f1 = d2 // g; f2 = d1 // g
            t = {m: c * f1 for m, c in self.t.items()} if f1 != 1 else dict(self.t)
            get = t.get
            for m, c in o.t.items():
                c *= f2
                c2 = get(m)
                if c2 is None: t[m] = c
                else:
                    c2 += c
                    if c2: t[m] = c2
                    else: del t[m]
            den = d1 * f1
            if den.bit_length() > 200: return _reduce(t, den)
            return _norm(t, den)
        if k is int: return self if o == 0 else self._addc(o, 1)
        if k is Fraction: return self._addc(o.numerator, o.denominator)
        if k is float: return o
        if k is Undef: return o
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        k = o.__class__
        if k is Poly:
            d1, d2 = self.den, o.den
            if d1 == d2:
                t = dict(self.t)
                get = t.get
                for m, c in o.t.items():
                    c2 = get(m)
                    if c2 is None: t[m] = -c
                    else:
                        c2 -= c
                        if c2: t[m] = c2
                        else: del t[m]
                return _norm(t, d1)
            return self + (-o)
        if k is int: return self if o == 0 else self._addc(-o, 1)
        if k is Fraction: return self._addc(-o.numerator, o.denominator)
        if k is float: return -o
        if k is Undef: return o
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, n, d=1):
        """multiply by n/d, d>0"""
        if n == 0: return 0
        den = self.den
        g = gcd(n, den)
        if g > 1: n //= g; den //= g
        den *= d
        if n == 1: t = self.t
        else: t = {m: c * n for m, c in self.t.items()}
        if den.bit_length() > 200: return _reduce(dict(t), den)
        return Poly(t, den)

    def __mul__(self, o):
        k = o.__class__
        if k is int: return self.scale(o)
        if k is Fraction: return self.scale(o.numerator, o.denominator)
        if k is Poly: return mul(self, o)
        if k is float:
            return _mul_special(self, o)
        if k is Undef: return o
        return NotImplemented
    __rmul__ = __mul__

    def key(self):
        k = self._key
        if k is None:
            t, den = self.t, self.den
            if den != 1:
                g = den
                for c in t.values():
                    g = gcd(g, c)
                    if g == 1: break
                if g > 1:
                    t = {m: c // g for m, c in t.items()}; den //= g
                    self.t = t; self.den = den
            k = self._key = (den, frozenset(t.items()))
        return k

    def prim(self):
        """-> (primitive Poly with den 1, positive leading coeff, numerator n, denominator d): self = n/d * prim"""
        p = self._prim
        if p is None:
            g = 0
            for c in self.t.values():
                g = gcd(g, c)
                if g == 1: break
            lead = self.t[max(self.t)]
            n = g if lead > 0 else -g
            if n == 1:
                q = self if self.den == 1 else Poly(self.t, 1)
            else:
                q = Poly({m: c // n for m, c in self.t.items()}, 1)
            p = self._prim = (q, n, self.den)
        return p

    def is_linear(self):
        for m in self.t:
            if len(m) > 1 or (m and (m[0][1] != 1)): return False
        return True

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m: s.add(a)
        return s


def _reduce(t, den):
    g = den
    for c in t.values():
        g = gcd(g, c)
        if g == 1: break
    if g > 1:
        t = {m: c // g for m, c in t.items()}; den //= g
    return _norm(t, den)


def _mul_special(p, f):
    if f != f: return NAN
    m = quick_sign(p)
    if m == POS: return f
    if m == NEG: return -f
    raise SpecialFork(p, f)


class SpecialFork(Exception):
    """finite symbolic times infinity: caller forks on the sign"""
    def __init__(self, p, f): self.p = p; self.f = f


def alias(p):
    """-> (atom id, n, d) with p = n/d * atom"""
    q, n, d = p.prim()
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return m[0][0], n, d
    a = _def_atom('def', q.key(), q, sign=quick_sign(q))
    return a.id, n, d


def _aliased(p):
    a, n, d = alias(p)
    return Poly({((a, 1),): n}, d)


def mul(a, b):
    la, lb = len(a.t), len(b.t)
    if la * lb > MULMAX and la > 1 and lb > 1:
        if la >= lb:
            a = _aliased(a)
            if lb > MULMAX: b = _aliased(b)
        else:
            b = _aliased(b)
            if la > MULMAX: a = _aliased(a)
    elif (la > TERMMAX and lb >= 1): a = _aliased(a)
    elif (lb > TERMMAX and la >= 1): b = _aliased(b)
    return rawmul(a, b)


def rawmul(a, b):
    t = {}
    get = t.get
    sq = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mono_mul(m1, m2)
            c = get(m)
            if c is None: t[m] = c1 * c2
            else:
                c += c1 * c2
                if c: t[m] = c
                else: del t[m]
    den = a.den * b.den
    r = _norm(t, den) if den.bit_length() <= 200 else _reduce(t, den)
    if r.__class__ is Poly: r = _sqrt_reduce(r)
    return r


def _sqrt_reduce(p):
    """replace s^k, k>=2 (or <=-2), for sqrt atoms by powers of its radicand"""
    hit = None
    for m in p.t:
        for a, e in m:
            if (e > 1 or e < -1) and ATOMS[a].kind == 'sqrt':
                hit = a; break
        if hit is not None: break
    if hit is None: return p
    rad = ATOMS[hit].poly
    rest = {}; out = 0
    for m, c in p.t.items():
        ee = 0
        for a, e in m:
            if a == hit: ee = e
        if ee > 1 or ee < -1:
            k = abs(ee) // 2 * (1 if ee > 0 else -1)
            rem = ee - 2 * k
            mm = tuple((a, e) if a != hit else (a, rem) for a, e in m if a != hit or rem)
            if k > 0:
                q = rad if rad.__class__ is Poly else rad
                f = 1
                for _ in range(k): f = q * f
            else:
                f = div(1, rad)
                g = f
                for _ in range(-k - 1): f = f * g
            out = out + Poly({mm: c}, p.den) * f if mm else out + f * Fraction(c, p.den)
        else:
            rest[m] = c
    r = out + (_norm(rest, p.den) if rest else 0)
    return _sqrt_reduce(r) if r.__class__ is Poly else r


def div(a, b):
    """a/b with b a finite non-zero value"""
    if b.__class__ is not Poly:
        if a.__class__ is Poly:
            f = Fraction(b)
            n, d = f.denominator, f.numerator
            if d < 0: n, d = -n, -d
            return a.scale(n, d)
        return const_norm(Fraction(a) / Fraction(b))
    if a.__class__ is Poly:
        if len(a.t) == len(b.t):
            q1, n1, d1 = a.prim(); q2, n2, d2 = b.prim()
            if q1.t == q2.t:
                return const_norm(Fraction(n1 * d2, d1 * n2))
    elif a == 0: return 0
    return a * inverse(b)


def inverse(b):
    if len(b.t) == 1:
        (m, c), = b.t.items()
        n, d = b.den, c
        if d < 0: n, d = -n, -d
        return _sqrt_reduce(Poly({tuple((x, -e) for x, e in m): n}, d))
    # pull out a common monomial factor
    b0 = b
    common = None
    for m in b.t:
        dm = dict(m)
        if common is None: common = dm
        else:
            for a in list(common):
                e = dm.get(a, 0)
                ce = common[a]
                if e == 0 or (e > 0) != (ce > 0): del common[a]
                else: common[a] = min(e, ce) if ce > 0 else max(e, ce)
            # monomials lacking negative exps but others having: handled below
        if not common: break
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        b = Poly({_mono_mul(m, cm): c for m, c in b.t.items()}, b.den)
        inv = inverse(b) if len(b.t) > 1 else inverse(b)
        return inv * Poly({cm: 1}, 1)
    # clear inner denominators so that the alias is a polynomial
    mins = {}
    for m in b.t:
        for a, e in m:
            if e < mins.get(a, 0): mins[a] = e
    if mins:
        cm = tuple(sorted((a, -e) for a, e in mins.items()))
        b = Poly({_mono_mul(m, cm): c for m, c in b.t.items()}, b.den)
        b = _sqrt_reduce(b)
        if b.__class__ is not Poly: return Poly({cm: 1}, 1) * const_norm(Fraction(1) / Fraction(b))
        return inverse(b) * Poly({cm: 1}, 1)
    a, n, d = alias(b)
    # b = n/d * A  -> 1/b = d/n * A^-1
    if n < 0: n, d = -n, -d
    return Poly({((a, -1),): d}, n)


# ---------------------------------------------------------------- signs
_flip = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}
def flip(m): return _flip[m]


def _mono_sign(m, know=None):
    """mask of the sign of a monomial"""
    zero = False
    neg = False
    unk = False
    for a, e in m:
        s = ATOMS[a].sign
        if know is not None:
            s &= know.get(a, ALL)
        if e % 2 == 0:
            if s & ZERO and e > 0: zero = True
            continue
        if e < 0: s &= ~ZERO
        if s & ZERO: zero = True
        s2 = s & 5
        if s2 == 5: unk = True
        elif s2 == 1: neg = not neg
        elif s2 == 0: return ZERO
    if unk: r = 5
    else: r = NEG if neg else POS
    if zero: r |= ZERO
    return r


def quick_sign(p, know=None):
    """sound mask of possible signs from atom sign information alone"""
    if p.__class__ is not Poly:
        return POS if p > 0 else NEG if p < 0 else ZERO
    acc = 0
    strict = False
    for m, c in p.t.items():
        s = _mono_sign(m, know) if m else POS
        if c < 0: s = _flip[s]
        if (s & 5) == 5: return ALL
        acc |= s
        if not s & ZERO: strict = True
        if (acc & 5) == 5: return ALL
    if acc & 5 == 0: return ZERO
    if strict: return acc & 5
    return acc | ZERO


# ---------------------------------------------------------------- functions
def sqrt_(p):
    """p finite, > 0"""
    if p.__class__ is not Poly:
        f = Fraction(p)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return const_norm(Fraction(a, b))
        # sqrt(n/d) = sqrt(n*d)/d ; keep as atom on squarefree-ish integer
        n = f.numerator * f.denominator
        s = 1
        k = 2
        while k * k <= n and k < 200:
            while n % (k * k) == 0: n //= k * k; s *= k
            k += 1
        at = _def_atom('sqrt', ('c', n), n, sign=POS)
        at.poly = n
        return Poly({((at.id, 1),): s}, f.denominator)
    q, n, d = p.prim()
    # single monomial with even exponents
    sgn = 1
    if n < 0:
        q = -q; n = -n; sgn = -1
    if sgn == 1 and len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and all(e % 2 == 0 for _, e in m):
            if all((ATOMS[a].sign & NEG) == 0 or e % 4 == 0 for a, e in m):
                r = Poly({tuple((a, e // 2) for a, e in m): 1}, 1)
                return r * sqrt_(Fraction(n, d))
    at = _def_atom('sqrt', q.key(), q, sign=POS | ZERO)
    r = Poly({((at.id, 1),): 1}, 1)
    return r * sqrt_(Fraction(n, d))


def uf(name, *args, sign=ALL):
    key = (name,) + tuple(a.key() if a.__class__ is Poly else a for a in args)
    at = _def_atom('uf', key, args=args, sign=sign)
    at.name = name
    return Poly({((at.id, 1),): 1}, 1)


def floor_(p):
    at = _def_atom('floor', p.key(), p)
    at.isint = True
    return Poly({((at.id, 1),): 1}, 1)


_lit_cache = {}
def lit(x):
    """double -> exact value read as the simplest small rational within half an ulp"""
    r = _lit_cache.get(x)
    if r is not None: return r
    if x != x or x in (INF, -INF): return x
    f = Fraction(x)
    if f.denominator == 1: r = f.numerator
    else:
        half = Fraction(math.ulp(x)) / 2
        r = f
        for lim in (1000, 1000000):
            g = f.limit_denominator(lim)
            if abs(g - f) <= half: r = g; break
    _lit_cache[x] = r
    return r


# ---------------------------------------------------------------- evaluation
def _uf_eval(name, args):
    try:
        if name == 'pow': return float(args[0]) ** float(args[1])
        return getattr(math, name)(*[float(a) for a in args])
    except (ValueError, OverflowError, ZeroDivisionError):
        return NAN


class Evaluator:
    """evaluates polys under {var atom id: Fraction}; exact unless sqrt/uf are involved (then float)"""
    def __init__(self, asg, default=0):
        self.asg = asg; self.cache = {}; self.default = default

    def atom(self, a):
        c = self.cache.get(a)
        if c is not None: return c
        at = ATOMS[a]
        k = at.kind
        if k in ('var', 'ivar'):
            v = self.asg.get(a)
            if v is None:
                v = self.default
                if at.lo is not None and v < at.lo: v = at.lo
                if at.hi is not None and v > at.hi: v = at.hi
        elif k == 'def': v = self(at.poly)
        elif k == 'sqrt':
            r = self(at.poly) if at.poly.__class__ is Poly else at.poly
            if r < 0: v = NAN
            elif r.__class__ is float: v = math.sqrt(r)
            else:
                f = Fraction(r)
                x, y = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if x * x == f.numerator and y * y == f.denominator: v = Fraction(x, y)
                else:
                    try: v = math.sqrt(f)
                    except OverflowError: v = INF
        elif k == 'uf': v = _uf_eval(at.name, [self(x) for x in at.args])
        elif k == 'floor':
            r = self(at.poly)
            v = math.floor(r) if r == r and abs(r) != INF else NAN
        else: raise Unsupported(k)
        self.cache[a] = v
        return v

    def __call__(self, p):
        if p.__class__ is not Poly: return p
        try: return self._eval(p, self.atom)
        except OverflowError: pass
        try:
            r = self._eval(p, self._exact_atom)
            return r if r.__class__ is float else float(r)
        except OverflowError: return NAN

    def _exact_atom(self, a):
        v = self.atom(a)
        if v.__class__ is float and v == v and abs(v) != INF: return Fraction(v)
        return v

    def _eval(self, p, atom):
        s = 0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                x = atom(a)
                if e == 1: v = v * x
                elif e > 1: v = v * x ** e
                else:
                    if x == 0: return NAN
                    v = v / (Fraction(x) if x.__class__ is int else x) ** (-e)
            s = s + v
        if s.__class__ is float: return s / self_den(p.den)
        return Fraction(s) / p.den if p.den != 1 else s


def self_den(d):
    return float(d)


# ---------------------------------------------------------------- normal forms
def clear(p, know=None):
    """remove negative exponents.  -> (poly without denominators, sign-flip allowed?)
    Multiplies by even powers (or by atoms of known sign, tracked), so that sign(p) = s * sign(result);
    returns (q, s) with s in (1,-1)."""
    mins = None
    for m in p.t:
        for a, e in m:
            if e < 0:
                if mins is None: mins = {}
                if e < mins.get(a, 0): mins[a] = e
    if mins is None: return p, 1
    s = 1
    cm = []
    for a, e in mins.items():
        k = -e
        if k % 2:
            sg = ATOMS[a].sign
            if know is not None: sg &= know(a)
            sg &= 5
            if sg == POS: pass
            elif sg == NEG: s = -s
            else: k += 1
        cm.append((a, k))
    cm.sort()
    cm = tuple(cm)
    q = Poly({_mono_mul(m, cm): c for m, c in p.t.items()}, p.den)
    q = _sqrt_reduce(q)
    if q.__class__ is Poly:
        q, s2 = clear(q, know)
        s *= s2
    return q, s


class TooBig(Exception):
    pass


def expand(p, limit=3000):
    """substitute all def atoms; p must be a Poly. Result may be const. Only for zero tests: the result is
    a non-zero multiple of p."""
    while p.__class__ is Poly:
        p, _ = clear(p)
        if p.__class__ is not Poly: return p
        top = -1
        for m in p.t:
            for a, e in m:
                if a > top and ATOMS[a].kind == 'def': top = a
        if top < 0: return p
        d = ATOMS[top].poly
        by = {}
        for m, c in p.t.items():
            ee = 0
            for a, e in m:
                if a == top: ee = e
            mm = tuple(x for x in m if x[0] != top)
            by.setdefault(ee, {})[mm] = c
        # Horner
        maxe = max(by)
        acc = 0
        for e in range(maxe, -1, -1):
            if acc.__class__ is Poly:
                if len(acc.t) * len(d.t) > limit * 10: raise TooBig()
                acc = rawmul(acc, d)
            elif acc != 0:
                acc = d * acc
            if e in by: acc = acc + _norm(dict(by[e]), 1)
            if acc.__class__ is Poly and len(acc.t) > limit: raise TooBig()
        p = acc
    return p


def bound(p, cache=None):
    """interval upper bound of |p| from variable bounds, or None"""
    if p.__class__ is not Poly: return abs(p)
    s = 0
    for m, c in p.t.items():
        v = abs(c)
        for a, e in m:
            at = ATOMS[a]
            if e < 0: return None
            if at.kind in ('var', 'ivar'):
                if at.lo is None or at.hi is None: return None
                b = max(abs(at.lo), abs(at.hi))
            elif at.kind == 'def':
                b = bound(at.poly)
                if b is None: return None
            elif at.kind == 'sqrt':
                b = bound(at.poly)
                if b is None: return None
                b = b + 1
            else: return None
            v = v * b ** e
        s += v
    return Fraction(s) / p.den


def show(p, limit=12):
    if p.__class__ is not Poly: return str(p)
    r = []
    for m, c in sorted(p.t.items())[:limit]:
        ms = '*'.join(aname(a) + (f'^{e}' if e != 1 else '') for a, e in m)
        r.append((f'{c}*' if c != 1 else '') + ms if ms else str(c))
    s = ' + '.join(r)
    if len(p.t) > limit: s += f' + ...({len(p.t)})'
    return s if p.den == 1 else f'({s})/{p.den}'


def aname(a):
    at = ATOMS[a]
    if at.name and at.kind != 'uf': return at.name
    if at.kind == 'uf': return f'{at.name}({", ".join(show(x, 3) for x in at.args)})'
    if at.kind == 'def': return f'd{a}'
    return f'{at.kind}{a}'
