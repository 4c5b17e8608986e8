"""Runtime for translated IR: memory, integers, floating point (exact reals + specials), libc/libstdc++ stubs."""
import math, os, struct
from fractions import Fraction
from . import terms as T
from .terms import Poly, UNDEF, Undef, NEG, ZERO, POS, ALL, NAN, INF, Unsupported
from .explore import Violation, PathEnd, EngineError, Budget
from . import ir


class Obj:
    __slots__ = ('cells', 'size', 'fill', 'alive', 'ro', 'kind', 'name', 'base', 'reads', 'writes', 'init')
    def __init__(s, size, fill, kind, name=''):
        s.cells = {}; s.size = size; s.fill = fill; s.alive = True; s.ro = False; s.kind = kind; s.name = name
        s.base = None; s.reads = None; s.writes = None; s.init = None


class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return f'&{s.obj.kind}:{s.obj.name}+{s.off}'


class Bits:
    """i64 view of a double"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v


class CxxExc(Exception):
    def __init__(self, types): self.types = types; self.obj = None

BAD_ARRAY = ('_ZTISt20bad_array_new_length', '_ZTISt9bad_alloc', '_ZTISt9exception')
BAD_ALLOC = ('_ZTISt9bad_alloc', '_ZTISt9exception')
LENGTH = ('_ZTISt12length_error', '_ZTISt11logic_error', '_ZTISt9exception')
OUT_OF_RANGE = ('_ZTISt12out_of_range', '_ZTISt11logic_error', '_ZTISt9exception')

EX = None           # current explorer


class Machine:
    """per-path state"""
    heap = []
    alloc_hook = None
    cur_exc = []
    dirty_globals = []
    steplim = 2_000_000
    track_global_writes = True
    in_ctor = False
    allocs = 0
    bases = 1
    base_map = {}
M = Machine()
SIZES = {1: 1, 2: 2, 4: 4, 8: 8, 9: 8, 5: 4, 16: 16}
HUGE = 1 << 31


def reset_path():
    M.heap = []
    M.cur_exc = []
    M.allocs = 0
    M.frees = 0
    M.alloc_hook = None
    M.base_map = {}
    M.bases = 1
    for o in M.dirty_globals:
        o.cells = dict(o.init)
    M.dirty_globals = []


# ------------------------------------------------------------------------------------------- memory
def bad_pointer(p, what):
    if p.__class__ is Undef: raise Violation('uninit', f'{what} through an uninitialised pointer')
    if p.__class__ is int and 0 <= p < 4096: raise Violation('null', f'{what} through a null pointer')
    raise Unsupported(f'{what} through {p!r}')


def LD(p, n):
    try:
        c = p.obj.cells.get(p.off)
    except AttributeError:
        bad_pointer(p, 'read')
    if c is not None and c[0] == n:
        r = p.obj.reads
        if r is not None: r.add(p.off)
        return c[1]
    return ld_slow(p, n)


def ld_slow(p, n):
    o = p.obj; off = p.off
    sz = SIZES[n]
    if not o.alive: raise Violation('uaf', f'read of {o.kind} {o.name} after it was released')
    if off < 0 or off + sz > o.size:
        if o.kind == 'extern': raise Unsupported('extern object ' + o.name)
        raise Violation('oob-read', f'read of {sz} bytes at offset {off} of {o.kind} {o.name} ({o.size} bytes)')
    if o.reads is not None: o.reads.add(off)
    c = o.cells.get(off)
    if c is not None:
        m, v = c
        if SIZES[m] == sz:
            if m == n: return v
            if v.__class__ is Undef: return v
            if n == 8 and m == 9:
                if v.__class__ is int and v == 0: return 0
                return Bits(v)
            if n == 9 and m == 8:
                if v.__class__ is Bits: return v.v
                if v.__class__ is int and v == 0: return 0
                raise Unsupported('int bits read as double')
            raise Unsupported('type pun')
        if SIZES[m] > sz:
            if v.__class__ is Undef: return v
            if v.__class__ is int:
                if m == 9 and v != 0: raise Unsupported('partial double read')
                return wrap(v & ((1 << (8 * sz)) - 1), 8 * sz)
            raise Unsupported('partial read')
    # assemble from bytes
    val = 0
    und = False; got = False
    for i in range(sz):
        b = _byte(o, off + i)
        if b.__class__ is Undef: und = True
        else: val |= b << (8 * i); got = True
    if und: return UNDEF
    if n == 9:
        if val == 0: return 0
        return T.lit(struct.unpack('<d', val.to_bytes(8, 'little'))[0])
    return wrap(val, 8 * sz)


def _byte(o, off):
    for k in range(8):
        c = o.cells.get(off - k)
        if c is not None:
            if SIZES[c[0]] > k:
                v = c[1]
                if v.__class__ is Undef: return v
                if v.__class__ is int:
                    if c[0] == 9:
                        if v == 0: return 0
                        bts = struct.pack('<d', float(v)); return bts[k]
                    return (v >> (8 * k)) & 255
                if v.__class__ is bool: return int(v)
                raise Unsupported('byte of symbolic value')
            break
    f = o.fill
    return f


def ST(p, v, n):
    try:
        o = p.obj
        c = o.cells.get(p.off)
    except AttributeError:
        bad_pointer(p, 'write')
    if c is not None and c[0] == n and not o.ro:
        o.cells[p.off] = (n, v)
        return
    st_slow(p, v, n)


def st_slow(p, v, n):
    o = p.obj; off = p.off
    sz = SIZES[n]
    if not o.alive: raise Violation('uaf', f'write to {o.kind} {o.name} after it was released')
    if off < 0 or off + sz > o.size:
        raise Violation('oob-write', f'write of {sz} bytes at offset {off} of {o.kind} {o.name} ({o.size} bytes)')
    if o.ro:
        if o.ro == 'global':
            if not M.in_ctor:
                if o not in M.dirty_globals: M.dirty_globals.append(o)
                if M.on_global_write is not None: M.on_global_write(o, off)
        else: raise Violation('ro-write', f'write to {o.kind} {o.name} at offset {off}')
    cells = o.cells
    # clear overlapping cells
    for k in range(1, 8):
        c = cells.get(off - k)
        if c is not None and SIZES[c[0]] > k:
            _split(o, off - k); break
    for k in range(0, sz):
        c = cells.get(off + k)
        if c is not None:
            if k + SIZES[c[0]] > sz: _split(o, off + k)
            cells.pop(off + k, None)
    cells[off] = (n, v)

M.on_global_write = None


def _split(o, off):
    m, v = o.cells.pop(off)
    sz = SIZES[m]
    if v.__class__ is Undef:
        for i in range(sz): o.cells[off + i] = (1, UNDEF)
        return
    if v.__class__ is not int or (m == 9 and v != 0): raise Unsupported('split of a value')
    for i in range(sz): o.cells[off + i] = (1, wrap((v >> (8 * i)) & 255, 8))


def range_check(p, n, what):
    if p.__class__ is not Ptr: bad_pointer(p, what)
    o = p.obj
    if not o.alive: raise Violation('uaf', f'{what} of {o.kind} {o.name} after it was released')
    if p.off < 0 or p.off + n > o.size:
        if o.kind == 'extern': raise Unsupported('extern')
        raise Violation('oob-' + what, f'{what} of {n} bytes at offset {p.off} of {o.kind} {o.name} ({o.size} bytes)')
    return o


def L_memset(p, v, n, vol=False):
    n = CI(n)
    if n == 0: return
    if n < 0: raise Violation('oob-write', f'memset with size {n}')
    o = range_check(p, n, 'write')
    if o.ro:
        if o.ro == 'global':
            if not M.in_ctor:
                if o not in M.dirty_globals: M.dirty_globals.append(o)
                if M.on_global_write is not None: M.on_global_write(o, p.off)
        else: raise Violation('ro-write', f'memset of {o.kind} {o.name}')
    v = CI(v) & 255
    off = p.off
    end = off + n
    if off == 0 and end == o.size:
        o.cells.clear()
        if v == 0:
            o.fill = 0
            return
    else:
        for k in range(1, 8):
            c = o.cells.get(off - k)
            if c is not None and SIZES[c[0]] > k: _split(o, off - k); break
        if n > 64 and len(o.cells) < n:
            for a in [a for a in o.cells if off <= a < end]:
                if a + SIZES[o.cells[a][0]] > end: _split(o, a)
                o.cells.pop(a, None)
        else:
            for a in range(off, end):
                c = o.cells.get(a)
                if c is not None:
                    if a + SIZES[c[0]] > end: _split(o, a)
                    o.cells.pop(a, None)
    if v == 0 and o.fill == 0 and o.fill.__class__ is int: return
    a = off
    while a < end:
        if a % 8 == 0 and a + 8 <= end and v == 0: o.cells[a] = (8, 0); a += 8
        elif v == 0 and a % 4 == 0 and a + 4 <= end: o.cells[a] = (4, 0); a += 4
        else: o.cells[a] = (1, wrap(v, 8)); a += 1


def L_memmove(d, s, n, vol=False):
    n = CI(n)
    if n == 0: return
    if n < 0: raise Violation('oob-write', f'memmove with size {n}')
    so = range_check(s, n, 'read'); do = range_check(d, n, 'write')
    if do.ro:
        if do.ro == 'global':
            if not M.in_ctor:
                if do not in M.dirty_globals: M.dirty_globals.append(do)
                if M.on_global_write is not None: M.on_global_write(do, d.off)
        else: raise Violation('ro-write', f'memmove to {do.kind} {do.name}')
    so_off = s.off
    items = []
    covered = 0
    a = so_off; end = so_off + n
    while a < end:
        c = so.cells.get(a)
        if c is not None and a + SIZES[c[0]] <= end:
            if so.reads is not None: so.reads.add(a)
            items.append((a - so_off, c[0], c[1])); a += SIZES[c[0]]; continue
        if a % 8 == 0 and a + 8 <= end and c is None and not any((a + k) in so.cells for k in range(8)) and not _covered(so, a):
            items.append((a - so_off, 8, so.fill)); a += 8; continue
        items.append((a - so_off, 1, _byte(so, a))); a += 1
    # clear destination
    off = d.off
    for k in range(1, 8):
        c = do.cells.get(off - k)
        if c is not None and SIZES[c[0]] > k: _split(do, off - k); break
    for a in range(off, off + n):
        c = do.cells.get(a)
        if c is not None:
            if a + SIZES[c[0]] > off + n: _split(do, a)
            do.cells.pop(a, None)
    for r, m, v in items:
        do.cells[off + r] = (m, v)
L_memcpy = L_memmove


def _covered(o, a):
    for k in range(1, 8):
        c = o.cells.get(a - k)
        if c is not None: return SIZES[c[0]] > k
    return False


def ALLOCA(n):
    return Ptr(Obj(n, UNDEF, 'stack', ''), 0)


def GEPC(p, off):
    if p.__class__ is Ptr: return Ptr(p.obj, p.off + off)
    return gep_slow(p, off)


def GEP(p, off):
    if p.__class__ is Ptr:
        if off.__class__ is int: return Ptr(p.obj, p.off + off)
        return Ptr(p.obj, p.off + CI(off))
    return gep_slow(p, off)


def gep_slow(p, off):
    if p.__class__ is Undef: return p
    off = CI(off)
    if p == 0: return off if off else 0
    if p.__class__ is int: return p + off
    raise Unsupported('gep')


def PEQ(a, b):
    if a.__class__ is Ptr and b.__class__ is Ptr: return a.obj is b.obj and a.off == b.off
    if a.__class__ is Undef or b.__class__ is Undef: raise Violation('uninit', 'comparison of an uninitialised pointer')
    if a.__class__ is Ptr or b.__class__ is Ptr: return False
    return a == b


def P2I(p):
    if p.__class__ is Ptr:
        o = p.obj
        if o.base is None or M.base_map.get(o.base) is not o:
            o.base = M.bases; M.bases += 1; M.base_map[o.base] = o
        return (o.base << 40) + p.off
    return p


def I2P(v):
    if v.__class__ is int:
        if v == 0: return 0
        b = (v + (1 << 39)) >> 40
        o = M.base_map.get(b)
        if o is None: raise Unsupported('inttoptr')
        return Ptr(o, v - (b << 40))
    return v


# ------------------------------------------------------------------------------------------- integers
def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def CI(v):
    if v.__class__ is int: return v
    if v.__class__ is bool: return int(v)
    if v.__class__ is Poly: return EX.concretize(v)
    if v.__class__ is Undef: raise Violation('uninit', 'uninitialised integer used')
    raise Unsupported('int of ' + type(v).__name__)


def WRAP(v, bits):
    bits = int(bits)
    if v.__class__ is int:
        lim = 1 << (bits - 1)
        if -lim <= v < lim: return v
        return wrap(v, bits)
    if v.__class__ is Undef: return v
    if v.__class__ is bool: return int(v)
    if v.__class__ is Poly:
        lim = 1 << (bits - 1)
        b = T.bound(v)
        if b is not None and b < lim: return v
        return wrap(CI(v), bits)
    raise Unsupported('wrap')


def OVF(v, bits):
    if v.__class__ is int: raise Violation('overflow', f'signed {bits}-bit integer overflow')
    if v.__class__ is Undef: return v
    if v.__class__ is Poly:
        lim = 1 << (bits - 1)
        b = T.bound(v)
        if b is not None and b < lim: return v
        if EX.branch(v - lim, POS | ZERO) or EX.branch(v + lim, NEG):
            raise Violation('overflow', f'signed {bits}-bit integer overflow')
        return v
    if v.__class__ is bool: return int(v)
    raise Unsupported('ovf')


def UN(v, bits):
    if v.__class__ is int: return v if v >= 0 else v + (1 << bits)
    if v.__class__ is Poly:
        if EX.branch(v, NEG): return v + (1 << bits)
        return v
    if v.__class__ is bool: return int(v)
    return v


def _div(a, b, bits):
    if b == 0: raise Violation('int-div0', 'integer division by zero')
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0): q = -q
    if q >= 1 << (bits - 1): raise Violation('overflow', 'division overflow')
    return q


def SDIV(a, b, bits):
    if a.__class__ is int and b.__class__ is int: return _div(a, b, bits)
    if b.__class__ is Undef: raise Violation('uninit', 'division by an uninitialised integer')
    if a.__class__ is Undef: return a
    if a.__class__ is Poly and b.__class__ is int and b > 0:
        return sdiv_sym(a, b)
    return _div(CI(a), CI(b), bits)


def sdiv_sym(a, b):
    """truncating division of a symbolic int by a positive constant, as floor atoms"""
    if b == 1: return a
    if EX.branch(a, NEG): return -T.floor_(T.div(-a, b)) if (-a).__class__ is Poly else -((-a) // b)
    return T.floor_(T.div(a, b))


def SREM(a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        return a - _div(a, b, bits) * b
    if b.__class__ is Undef: raise Violation('uninit', 'division by an uninitialised integer')
    if a.__class__ is Undef: return a
    if a.__class__ is Poly and b.__class__ is int and b > 0:
        return a - sdiv_sym(a, b) * b
    a = CI(a); b = CI(b)
    return a - _div(a, b, bits) * b


def UDIV(a, b):
    a = CI(a); b = CI(b)
    if b == 0: raise Violation('int-div0', 'integer division by zero')
    return a // b
def UREM(a, b):
    a = CI(a); b = CI(b)
    if b == 0: raise Violation('int-div0', 'integer division by zero')
    return a % b


def AND(a, b):
    if a.__class__ is bool and b.__class__ is bool: return a and b
    if a.__class__ is Undef or b.__class__ is Undef:
        for x in (a, b):
            if x.__class__ is not Undef and (x is False or (x.__class__ is int and x == 0)): return x
        return UNDEF
    return CI(a) & CI(b) if not (a.__class__ is bool or b.__class__ is bool) else bool(a) and bool(b)
def OR(a, b):
    if a.__class__ is bool and b.__class__ is bool: return a or b
    if a.__class__ is Undef or b.__class__ is Undef: return UNDEF
    return CI(a) | CI(b) if not (a.__class__ is bool or b.__class__ is bool) else bool(a) or bool(b)
def XOR(a, b):
    if a.__class__ is bool and b.__class__ is bool: return a != b
    if a.__class__ is Undef or b.__class__ is Undef: return UNDEF
    return CI(a) ^ CI(b)
def NOT(a):
    if a.__class__ is Undef: return a
    return not a
def B2I(a):
    if a.__class__ is Undef: return a
    return 1 if a else 0
def TR1(a):
    if a.__class__ is Undef: return a
    return bool(CI(a) & 1)


def IEQ(a, b):
    if a.__class__ is int and b.__class__ is int: return a == b
    if a.__class__ is Poly or b.__class__ is Poly: return EX.branch(a - b, ZERO)
    if a.__class__ is Undef or b.__class__ is Undef: raise Violation('uninit', 'branch on uninitialised data')
    if a.__class__ is bool or b.__class__ is bool: return bool(a) == bool(b)
    if a.__class__ is Ptr or b.__class__ is Ptr: return PEQ(a, b)
    raise Unsupported('icmp')


# comparison operators on symbolic values fork
def _cmp(mask):
    def f(a, b):
        if b.__class__ is Undef: raise Violation('uninit', 'branch on uninitialised data')
        return EX.branch(a - b, mask)
    return f
Poly.__lt__ = _cmp(NEG); Poly.__le__ = _cmp(NEG | ZERO); Poly.__gt__ = _cmp(POS); Poly.__ge__ = _cmp(POS | ZERO)
def _ucmp(a, b): raise Violation('uninit', 'branch on uninitialised data')
for _n in ('__lt__', '__le__', '__gt__', '__ge__', '__bool__'):
    setattr(Undef, _n, (lambda a, b=None: _ucmp(a, b)))
Undef.__lshift__ = Undef.__rshift__ = Undef.__and__ = Undef.__or__ = lambda a, b: a


# ------------------------------------------------------------------------------------------- doubles
def _fork_special(p, f):
    if f != f: return NAN
    if EX.branch(p, POS): return f
    if EX.branch(p, NEG): return -f
    return NAN
T._mul_special = _fork_special


def FDIV(a, b):
    kb = b.__class__
    if kb is Undef: return b
    ka = a.__class__
    if ka is Undef: return a
    if kb is float:
        if b != b: return b
        if ka is float: return NAN
        return 0
    if kb is Poly:
        if ka is float:
            if a != a: return a
            return a if EX.branch(b, POS) else -a
        zero = EX.branch(b, ZERO)
        if not zero:
            return T.div(a, b)
    elif b != 0:
        if ka is float: return a / float(b) if a == a else a
        return T.div(a, b)
    # division by zero
    if M.on_div0 is not None: M.on_div0()
    if ka is float: return a
    if ka is Poly:
        if EX.branch(a, ZERO): return NAN
        return INF if EX.branch(a, POS) else -INF
    return NAN if a == 0 else INF if a > 0 else -INF

M.on_div0 = None


def FREM(a, b):
    if a.__class__ is Poly or b.__class__ is Poly: raise Unsupported('frem')
    if a.__class__ is Undef: return a
    if b == 0: return NAN
    q = Fraction(a) / Fraction(b)
    return T.const_norm(Fraction(a) - int(q) * Fraction(b))


def _fc(mask, name, pyop, nanres):
    def f(a, b):
        ka = a.__class__; kb = b.__class__
        if ka is Poly:
            if kb is not float:
                if kb is Undef: raise Violation('uninit', 'branch on uninitialised data')
                return EX.branch(a - b, mask)
            if b != b: return nanres
            return bool((NEG if b > 0 else POS) & mask)
        if kb is Poly:
            if ka is not float:
                if ka is Undef: raise Violation('uninit', 'branch on uninitialised data')
                return EX.branch(a - b, mask)
            if a != a: return nanres
            return bool((POS if a > 0 else NEG) & mask)
        if ka is Undef or kb is Undef: raise Violation('uninit', 'branch on uninitialised data')
        if a != a or b != b: return nanres
        return pyop(a, b)
    return f
import operator as _o
FC = {}
for _n, _m, _op in (('eq', ZERO, _o.eq), ('ne', NEG | POS, _o.ne), ('lt', NEG, _o.lt), ('le', NEG | ZERO, _o.le), ('gt', POS, _o.gt), ('ge', POS | ZERO, _o.ge)):
    FC['FO' + _n.upper()] = _fc(_m, 'o' + _n, _op, False)
    FC['FU' + _n.upper()] = _fc(_m, 'u' + _n, _op, True)
def FORD(a, b): return not (_nan(a) or _nan(b))
def FUNO(a, b): return _nan(a) or _nan(b)
def _nan(a):
    if a.__class__ is Undef: raise Violation('uninit', 'branch on uninitialised data')
    return a.__class__ is float and a != a
FC['FORD'] = FORD; FC['FUNO'] = FUNO
FC['FTRUE'] = lambda a, b: True; FC['FFALSE'] = lambda a, b: False


def FPTOSI(x, bits):
    k = x.__class__
    if k is int: v = x
    elif k is Poly:
        if all((not m) or (len(m) == 1 and m[0][1] == 1 and T.ATOMS[m[0][0]].isint) for m in x.t):
            x.key()
            if x.den == 1:
                return x
        v = EX.trunc(x)
    elif k is Fraction: v = int(x)
    elif k is Undef: return x
    else:
        if M.on_fptosi is not None: M.on_fptosi(x)
        raise Violation('fptosi', f'conversion of {x} to an integer')
    lim = 1 << (bits - 1)
    if not -lim <= v < lim: raise Violation('fptosi', f'conversion of {v} to {bits}-bit integer')
    return v
M.on_fptosi = None


def FPTOUI(x, bits):
    v = FPTOSI(x, 64)
    v = CI(v)
    if v < 0: raise Violation('fptosi', 'conversion of negative value to unsigned')
    return wrap(v, bits)


def BITS(x, k):
    if k == 'i':
        if x.__class__ is int and x == 0: return 0
        return Bits(x)
    if x.__class__ is Bits: return x.v
    if x.__class__ is int:
        if x == 0: return 0
        return T.lit(struct.unpack('<d', (x & (2**64 - 1)).to_bytes(8, 'little'))[0])
    return x


def INSV(a, v, k):
    l = list(a) if a.__class__ is tuple else [UNDEF] * (k + 1)
    while len(l) <= k: l.append(UNDEF)
    l[k] = v
    return tuple(l)


def fabs_(x):
    k = x.__class__
    if k is Poly: return -x if EX.branch(x, NEG) else x
    if k is Undef: return x
    return abs(x)


def _const(x): return x.__class__ in (int, Fraction)


def _mathfn(name, dom=None, at0=None):
    f = getattr(math, name)
    def g(x):
        k = x.__class__
        if k is Undef: return x
        if k is float:
            if x != x: return x
            try: return T.lit(f(x))
            except (ValueError, OverflowError): return NAN
        if dom is not None:
            r = dom(x)
            if r is not None: return r
        if k is Poly: return T.uf(name, x)
        try: return T.lit(f(x))
        except OverflowError: return INF
        except ValueError: return NAN
    return g


def _logdom(x):
    if x.__class__ is Poly:
        if EX.branch(x, ZERO): return -INF
        if EX.branch(x, NEG): return NAN
        return None
    if x == 0: return -INF
    if x < 0: return NAN
def _acosdom(x):
    if x.__class__ is Poly:
        if EX.branch(x - 1, POS) or EX.branch(x + 1, NEG): return NAN
        return None
    if abs(x) > 1: return NAN
def sqrt_(x):
    k = x.__class__
    if k is Undef: return x
    if k is float: return x if x != x or x > 0 else NAN
    if k is Poly:
        if EX.branch(x, POS):
            return T.sqrt_(x)
        if EX.branch(x, NEG): return NAN
        M.sqrt0 += 1
        return 0
    if x < 0: return NAN
    if x == 0:
        M.sqrt0 += 1
        return 0
    return T.sqrt_(x)
M.sqrt0 = 0


def exp_(x):
    k = x.__class__
    if k is Poly: return T.uf('exp', x, sign=POS)
    if k is Undef: return x
    if k is float: return x if x != x else (INF if x > 0 else 0)
    try: return T.lit(math.exp(x))
    except OverflowError: return INF


def pow_(a, b):
    if a.__class__ is Undef or b.__class__ is Undef: return UNDEF
    if a.__class__ is float or b.__class__ is float:
        if _const(b) and b == 0: return 1
        if _const(a) and a == 1: return 1
        try: return T.lit(math.pow(a, b)) if a.__class__ is not Poly and b.__class__ is not Poly else NAN
        except (ValueError, OverflowError): return NAN
    if _const(b):
        fb = Fraction(b)
        if fb.denominator == 1 and abs(fb) <= 8:
            n = int(fb)
            r = 1
            for _ in range(abs(n)): r = r * a
            if n < 0: return FDIV(1, r)
            return r
        if fb == Fraction(1, 2): return sqrt_(a)
        if _const(a):
            try:
                v = math.pow(a, b)
                return T.lit(v)
            except OverflowError: return INF
            except ValueError: return NAN
        # symbolic base, fractional exponent
        if EX.branch(a, NEG): return NAN if fb.denominator != 1 else T.uf('pow', a, b)
        if EX.branch(a, ZERO): return 0 if b > 0 else INF
        return T.uf('pow', a, b, sign=POS)
    if _const(a) and a > 0:
        return T.uf('pow', a, b, sign=POS)
    return T.uf('pow', a, b)


def ceil_(x):
    if x.__class__ is Poly: return -T.floor_(-x)
    if x.__class__ in (Undef, float): return x
    return math.ceil(x)
def floor_(x):
    if x.__class__ is Poly: return T.floor_(x)
    if x.__class__ in (Undef, float): return x
    return math.floor(x)
def trunc_(x):
    if x.__class__ is Poly:
        return -T.floor_(-x) if EX.branch(x, NEG) else T.floor_(x)
    if x.__class__ in (Undef, float): return x
    return math.trunc(x)
def round_(x):
    if x.__class__ is Poly:
        h = Fraction(1, 2)
        return -T.floor_(-x + h) if EX.branch(x, NEG) else T.floor_(x + h)
    if x.__class__ in (Undef, float): return x
    return math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))
def fmax_(a, b):
    if _nan(a): return b
    if _nan(b): return a
    return b if FC['FOLT'](a, b) else a
def fmin_(a, b):
    if _nan(a): return b
    if _nan(b): return a
    return b if FC['FOGT'](a, b) else a


def L_ctlz(x, poison, bits):
    x = CI(x); bits = int(bits)
    return bits - (x & ((1 << bits) - 1)).bit_length()
def L_cttz(x, poison, bits):
    x = CI(x); bits = int(bits)
    if x == 0: return bits
    return (x & -x).bit_length() - 1
def L_ctpop(x, bits): return bin(CI(x) & ((1 << int(bits)) - 1)).count('1')
def L_smax(a, b, bits): return b if a < b else a
def L_smin(a, b, bits): return a if a < b else b
def L_umax(a, b, bits): return b if UN(a, int(bits)) < UN(b, int(bits)) else a
def L_umin(a, b, bits): return a if UN(a, int(bits)) < UN(b, int(bits)) else b
def L_abs(a, poison, bits): return -a if a < 0 else a
def L_expect(a, b, bits=None): return a
def L_umul_with_overflow(a, b, bits):
    bits = int(bits)
    a = UN(CI(a), bits); b = UN(CI(b), bits)
    r = a * b
    return (wrap(r, bits), r >= 1 << bits)
def L_smul_with_overflow(a, b, bits):
    bits = int(bits); r = CI(a) * CI(b)
    return (wrap(r, bits), not -(1 << (bits - 1)) <= r < 1 << (bits - 1))
def L_sadd_with_overflow(a, b, bits):
    bits = int(bits); r = CI(a) + CI(b)
    return (wrap(r, bits), not -(1 << (bits - 1)) <= r < 1 << (bits - 1))
def L_uadd_with_overflow(a, b, bits):
    bits = int(bits); r = UN(CI(a), bits) + UN(CI(b), bits)
    return (wrap(r, bits), r >= 1 << bits)
def L_is_constant(x, *a): return False
def L_objectsize(*a): return -1
def L_copysign(a, b):
    a = fabs_(a)
    return -a if FC['FOLT'](b, 0) else a
def L_trap(): raise Violation('trap', 'trap')
def L_fmuladd(a, b, c): return a * b + c
def L_stacksave(): return 0
def L_stackrestore(x): return None
def L_usub_sat(a, b, bits): return max(0, UN(CI(a), int(bits)) - UN(CI(b), int(bits)))


# ------------------------------------------------------------------------------------------- heap
def _alloc(n, fill, kind):
    n = UN(CI(n), 64)
    M.allocs += 1
    if n >= HUGE: return 0
    if M.alloc_hook is not None and M.alloc_hook(n): return 0
    o = Obj(n, fill, 'heap', f'block#{M.allocs}({kind})')
    o.init = kind
    M.heap.append(o)
    return Ptr(o, 0)


def malloc(n): return _alloc(n, UNDEF, 'malloc')
def calloc(a, b): return _alloc(CI(a) * CI(b), 0, 'malloc')
def op_new(n):
    p = _alloc(n, UNDEF, 'new')
    if p == 0:
        raise CxxExc(BAD_ALLOC)
    return p
def op_new_arr(n):
    if UN(CI(n), 64) >= (1 << 62):
        raise CxxExc(BAD_ARRAY)
    p = _alloc(n, UNDEF, 'new[]')
    if p == 0: raise CxxExc(BAD_ALLOC)
    return p
def op_new_nt(n, t): return _alloc(n, UNDEF, 'new')
def op_newarr_nt(n, t): return _alloc(n, UNDEF, 'new[]')


def _free(p, kind):
    if p.__class__ is Ptr:
        o = p.obj
        if o.kind != 'heap' or p.off != 0: raise Violation('bad-free', f'release of {p!r}')
        if not o.alive: raise Violation('double-free', f'{o.name} released twice')
        if o.init != kind and not (kind is None):
            raise Violation('alloc-mismatch', f'{o.name} allocated with {o.init}, released with {kind}')
        o.alive = False
        o.cells = {}
        return
    if p.__class__ is Undef: raise Violation('uninit', 'release of an uninitialised pointer')
    if p == 0: return
    raise Violation('bad-free', f'release of {p!r}')


def free(p): _free(p, 'malloc')
def op_del(p, *a): _free(p, 'new')
def op_delarr(p, *a): _free(p, 'new[]')


def realloc(p, n):
    if p == 0 and p.__class__ is int: return malloc(n)
    n = CI(n)
    o = p.obj
    if not o.alive: raise Violation('uaf', 'realloc of a released block')
    q = _alloc(n, UNDEF, 'malloc')
    if q == 0: return 0
    q.obj.fill = o.fill
    for a, (m, v) in o.cells.items():
        if a + SIZES[m] <= n: q.obj.cells[a] = (m, v)
    if o.fill is not UNDEF and n > o.size:
        q.obj.fill = UNDEF
        for a in range(0, o.size, 4):
            if not any((a - k) in q.obj.cells for k in range(8)): q.obj.cells[a] = (4, 0)
    o.alive = False; o.cells = {}
    return q


def live_heap(): return [o for o in M.heap if o.alive]


# ------------------------------------------------------------------------------------------- C++ exceptions
TYPEIDS = {}
def typeid(name):
    name = name.lstrip('@')
    if name not in TYPEIDS: TYPEIDS[name] = len(TYPEIDS) + 1
    return TYPEIDS[name]


def LANDING(e, clauses, cleanup):
    for c in clauses:
        if c == 'null': return (e, typeid('catch-all'))
        n = c.lstrip('@')
        if n in e.types: return (e, typeid(n))
    if cleanup: return (e, 0)
    raise e


def L_eh_typeid_for(p): return typeid(p.obj.name)
def RESUME(v): raise v[0]
def begin_catch(e):
    M.cur_exc.append(e)
    return Ptr(Obj(64, UNDEF, 'exception', ''), 0)
def end_catch():
    if M.cur_exc: M.cur_exc.pop()
def rethrow():
    if not M.cur_exc: raise Violation('terminate', 'rethrow without exception')
    raise M.cur_exc[-1]
def terminate(*a): raise Violation('terminate', 'std::terminate called')
def throw_of(types):
    def f(*a): raise CxxExc(types)
    return f
def cxa_allocate(n):
    return Ptr(Obj(CI(n), UNDEF, 'exception', ''), 0)
def cxa_throw(obj, tinfo, dtor):
    n = tinfo.obj.name
    d = {BAD_ALLOC[0]: BAD_ALLOC, BAD_ARRAY[0]: BAD_ARRAY, LENGTH[0]: LENGTH}
    raise CxxExc(d.get(n, (n,)))
def UNREACHABLE(): raise Violation('unreachable', 'control reaches a point the compiler proved undefined')
def STEPS(): raise Unsupported('step limit')
def abort(*a): raise Violation('abort', 'abort called')


def strcmp(a, b):
    i = 0
    while True:
        x = LD(Ptr(a.obj, a.off + i), 1) if a.__class__ is Ptr else bad_pointer(a, 'read')
        y = LD(Ptr(b.obj, b.off + i), 1) if b.__class__ is Ptr else bad_pointer(b, 'read')
        if x.__class__ is Undef or y.__class__ is Undef: raise Violation('uninit', 'strcmp of uninitialised data')
        if not IEQ(x, y): return -1 if _uch(x) < _uch(y) else 1
        if IEQ(x, 0): return 0
        i += 1
def _uch(x):
    """as an unsigned char"""
    return x + 256 if x < 0 else x
def strncmp(a, b, n):
    n = CI(n)
    for i in range(n):
        x = LD(Ptr(a.obj, a.off + i), 1); y = LD(Ptr(b.obj, b.off + i), 1)
        if not IEQ(x, y): return -1 if _uch(x) < _uch(y) else 1
        if IEQ(x, 0): return 0
    return 0
def strlen(a):
    i = 0
    while True:
        x = LD(Ptr(a.obj, a.off + i), 1)
        if IEQ(x, 0): return i
        i += 1


def guard_acquire(p):
    o = p.obj
    c = o.cells.get(p.off)
    return 0 if c is not None and c[1] == 'done' else 1
def guard_release(p):
    if p.obj not in M.dirty_globals: M.dirty_globals.append(p.obj)
    p.obj.cells[p.off] = (8, 'done')


EXTERN = {
    'malloc': malloc, 'calloc': calloc, 'free': free, 'realloc': realloc,
    '_Znwm': op_new, '_Znam': op_new_arr, '_ZnwmRKSt9nothrow_t': op_new_nt, '_ZnamRKSt9nothrow_t': op_newarr_nt,
    '_ZdlPv': op_del, '_ZdaPv': op_delarr, '_ZdlPvRKSt9nothrow_t': op_del, '_ZdaPvRKSt9nothrow_t': op_delarr,
    '_ZdlPvm': op_del, '_ZdaPvm': op_delarr,
    'memset': lambda p, v, n: (L_memset(p, v, n), p)[1], 'memcpy': lambda d, s, n: (L_memmove(d, s, n), d)[1],
    'memmove': lambda d, s, n: (L_memmove(d, s, n), d)[1],
    '__cxa_begin_catch': begin_catch, '__cxa_end_catch': end_catch, '__cxa_rethrow': rethrow,
    '__cxa_allocate_exception': cxa_allocate, '__cxa_throw': cxa_throw, '__cxa_free_exception': lambda p: None,
    '_ZNSt9bad_allocD1Ev': lambda *a: None, '_ZNSt9bad_allocC1Ev': lambda *a: None,
    '_ZSt9terminatev': terminate, 'abort': abort, '__assert_fail': abort,
    '_ZSt28__throw_bad_array_new_lengthv': throw_of(BAD_ARRAY), '_ZSt17__throw_bad_allocv': throw_of(BAD_ALLOC),
    '_ZSt20__throw_length_errorPKc': throw_of(LENGTH), '_ZSt24__throw_out_of_range_fmtPKcz': throw_of(OUT_OF_RANGE),
    '_ZSt20__throw_out_of_rangePKc': throw_of(OUT_OF_RANGE),
    '_ZSt25__throw_bad_function_callv': throw_of(('_ZTISt17bad_function_call', '_ZTISt9exception')),
    'sqrt': sqrt_, 'pow': pow_, 'sin': _mathfn('sin'), 'cos': _mathfn('cos'), 'tan': _mathfn('tan'),
    'exp': exp_, 'log': _mathfn('log', _logdom), 'log10': _mathfn('log10', _logdom), 'log2': _mathfn('log2', _logdom),
    'atan': _mathfn('atan'), 'acos': _mathfn('acos', _acosdom), 'asin': _mathfn('asin', _acosdom),
    'sinh': _mathfn('sinh'), 'cosh': _mathfn('cosh'), 'tanh': _mathfn('tanh'),
    'fabs': fabs_, 'ceil': ceil_, 'floor': floor_, 'trunc': trunc_, 'round': round_, 'fmax': fmax_, 'fmin': fmin_,
    'abs': lambda a: -a if a < 0 else a, 'labs': lambda a: -a if a < 0 else a,
    'strcmp': strcmp, 'strlen': strlen, 'strncmp': strncmp,
    'fmod': FREM, '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release,
    '__cxa_guard_abort': lambda p: None, '__cxa_atexit': lambda *a: 0,
    'cbrt': _mathfn('cbrt') if hasattr(math, 'cbrt') else None,
    'hypot': lambda a, b: sqrt_(a * a + b * b),
}
LLVM = {k: v for k, v in list(globals().items()) if k.startswith('L_')}
LLVM.update({'L_fabs': fabs_, 'L_sqrt': sqrt_, 'L_ceil': ceil_, 'L_floor': floor_, 'L_trunc': trunc_, 'L_round': round_,
             'L_maxnum': fmax_, 'L_minnum': fmin_, 'L_pow': pow_, 'L_exp': exp_, 'L_log': EXTERN['log'],
             'L_sin': EXTERN['sin'], 'L_cos': EXTERN['cos'], 'L_log10': EXTERN['log10'],
             'L_powi': lambda a, b, *r: pow_(a, CI(b))})

BASE_NS = dict(T=T, LD=LD, ST=ST, GEP=GEP, GEPC=GEPC, PEQ=PEQ, P2I=P2I, I2P=I2P, ALLOCA=ALLOCA, WRAP=WRAP, OVF=OVF, UN=UN, SDIV=SDIV,
               SREM=SREM, UDIV=UDIV, UREM=UREM, AND=AND, OR=OR, XOR=XOR, NOT=NOT, B2I=B2I, TR1=TR1, IEQ=IEQ, CI=CI, FDIV=FDIV,
               FREM=FREM, FPTOSI=FPTOSI, FPTOUI=FPTOUI, BITS=BITS, INSV=INSV, UNDEF=UNDEF, CxxExc=CxxExc, LANDING=LANDING,
               RESUME=RESUME, UNREACHABLE=UNREACHABLE, STEPS=STEPS, STEPLIM=M.steplim, **FC, **LLVM)


# ------------------------------------------------------------------------------------------- linking
class Program:
    """all IR modules of one build; functions are translated on first call"""
    def __init__(self, irdir):
        self.irdir = irdir
        self.index = {}       # external symbol -> module file
        self.mods = {}
        self.compiled = []    # names of functions translated
        self.ninstr = 0
        idx = os.path.join(irdir, 'index.txt')
        with open(idx) as f:
            for l in f:
                sym, mod = l.split()
                self.index.setdefault(sym, mod)
        self.funcobjs = {}

    def module(self, name):
        m = self.mods.get(name)
        if m is None: m = self.mods[name] = Linked(self, os.path.join(self.irdir, name))
        return m

    def func(self, name):
        """callable for external symbol"""
        sym = '@' + name
        mod = self.index.get(sym)
        if mod is None: return None
        m = self.module(mod)
        return lambda *a: m.call(sym, a)

    def get(self, name):
        sym = '@' + name
        mod = self.index.get(sym)
        if mod is None: raise Unsupported('no symbol ' + name)
        m = self.module(mod)
        n = m.fname(sym)
        return lambda *a: m.ns[n](*a)

    def has(self, name): return '@' + name in self.index

    def globalptr(self, name):
        sym = '@' + name
        return self.module(self.index[sym]).symptr(sym)

    def func_ptr(self, mod, sym):
        ext = sym in self.index and not (sym in mod.m.funcs and mod.m.funcs[sym].linkage == 'internal')
        key = sym if ext else (mod.m.path, sym)
        o = self.funcobjs.get(key)
        if o is None:
            o = Obj(1, UNDEF, 'func', sym[1:]); o.init = (mod, sym)
            self.funcobjs[key] = o
        return Ptr(o, 0)

    def icall(self, p, *args):
        if p.__class__ is not Ptr or p.obj.kind != 'func': bad_pointer(p, 'call')
        mod, sym = p.obj.init
        return mod.ns[mod.fname(sym)](*args)


class Linked:
    def __init__(self, prog, path):
        self.prog = prog
        self.m = ir.Module(path)
        self.ns = dict(BASE_NS)
        self.ns['__consts__'] = {}
        self.ns['__fname__'] = self.fname
        self.ns['__symptr__'] = self.symptr
        self.ns['ICALL'] = prog.icall
        self.names = {}
        self.gobj = {}
        if self.m.ctors:
            M.in_ctor, old = True, M.in_ctor
            try:
                for c in self.m.ctors: self.ns[self.fname(c)]()
            finally: M.in_ctor = old
            for o in self.gobj.values(): o.init = dict(o.cells)
            # init values become part of the image

    def fname(self, sym):
        n = self.names.get(sym)
        if n is None:
            n = self.names[sym] = 'f%d_' % len(self.names) + ''.join(c if c.isalnum() else '_' for c in sym[1:])[:40]
            self.ns[n] = self._stub(sym, n)
        return n

    def _stub(self, sym, n):
        def stub(*args):
            f = self.resolve(sym)
            self.ns[n] = f
            return f(*args)
        return stub

    def resolve(self, sym):
        f = self.m.funcs.get(sym)
        if f is not None:
            try:
                src = ir.Trans(self.m, f, self.ns).translate()
                loc = {}
                code = compile(src, sym, 'exec')
                exec(code, self.ns, loc)
            except (IndexError, ValueError, KeyError, SyntaxError, RecursionError) as e:
                raise Unsupported(f'translation of {sym}: {type(e).__name__} {e}')
            f.py = src
            self.prog.compiled.append(sym[1:])
            self.prog.ninstr += f.ninstr
            return loc['F']
        n = sym[1:]
        if n == '__clang_call_terminate': return terminate
        if n in EXTERN and EXTERN[n] is not None: return EXTERN[n]
        mod = self.prog.index.get(sym)
        if mod is not None:
            m = self.prog.module(mod)
            nn = m.fname(sym)
            ns = m.ns
            return lambda *a: ns[nn](*a)
        def missing(*a): raise Unsupported('external function ' + n)
        return missing

    def symptr(self, sym):
        if sym in self.m.funcs or sym in self.m.decls: return self.prog.func_ptr(self, sym)
        o = self.gobj.get(sym)
        if o is not None: return Ptr(o, 0)
        txt = self.m.globals.get(sym)
        if txt is None: raise Unsupported('symbol ' + sym)
        if ' external ' in ' ' + txt[:60] or txt.startswith('external'):
            mod = self.prog.index.get(sym)
            if mod is not None: return self.prog.module(mod).symptr(sym)
            o = Obj(0, UNDEF, 'extern', sym[1:])
            self.gobj[sym] = o
            return Ptr(o, 0)
        import re
        mm = re.search(r'\b(global|constant)\s+(.*)$', txt)
        p = ir.P(ir.tokens(re.sub(r', (align|section|comdat|!dbg).*$', '', mm.group(2))), self.m)
        t = p.type()
        o = Obj(t.size, 0, 'global', sym[1:])
        self.gobj[sym] = o
        self.init_value(o, 0, t, p)
        o.init = dict(o.cells)
        o.ro = 'const' if mm.group(1) == 'constant' else 'global'
        return Ptr(o, 0)

    def init_value(self, o, off, t, p):
        x = p.peek()
        if x == 'zeroinitializer': p.next(); return
        if x in ('undef', 'poison'):
            p.next()
            return
        if t.k == 's':
            br = p.next()
            pk = br == '<'
            if pk: p.expect('{')
            for i, e in enumerate(t.elems):
                t1 = p.type(); self.init_value(o, off + t.offs[i], t1, p); p.accept(',')
            p.expect('}')
            if pk: p.expect('>')
            return
        if t.k == 'a':
            if x.startswith('c"'):
                p.next()
                s = x[2:-1]; i = 0; a = off
                while i < len(s):
                    if s[i] == '\\': b = int(s[i + 1:i + 3], 16); i += 3
                    else: b = ord(s[i]); i += 1
                    o.cells[a] = (1, wrap(b, 8)); a += 1
                return
            p.expect('[')
            for i in range(t.n):
                t1 = p.type(); self.init_value(o, off + i * t.elems.size, t1, p); p.accept(',')
            p.expect(']')
            return
        tr = ir.Trans(self.m, None, self.ns)
        e = tr.value(p, t)
        v = eval(e, self.ns)
        if t.k == 'i' and t.bits == 1: v = int(v)
        o.cells[off] = (t.code, v)
