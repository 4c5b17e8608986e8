"""ctypes and numpy as far as the Python binding needs them, over symbolic values; the library behind CDLL is the real code in the
symbolic machine.  Anything not modelled raises Unsupported: the path is reported as outside the encoding."""
import math, types, collections
from fractions import Fraction
from engine import rt, terms as T
from engine.rt import Obj, Ptr, UNDEF
from engine.explore import Violation

NUM = (int, float, Fraction, T.Poly)


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise T.Unsupported(f'{self.__name__}.{n} is not modelled')


def index(n):
    if n.__class__ is T.Poly: n = rt.EX.concretize(n)
    if isinstance(n, bool) or not hasattr(n, '__index__'): 
        if isinstance(n, bool): return int(n)
        raise TypeError(f"'{type(n).__name__}' object cannot be interpreted as an integer")
    return n.__index__()


def to_double(v):
    if isinstance(v, bool): return int(v)
    if v.__class__ is T.Poly or v.__class__ is T.Undef: return v
    if isinstance(v, int): return v
    if isinstance(v, float): return v if not math.isfinite(v) else T.lit(v)
    if isinstance(v, Fraction): return T.const_norm(v)
    if isinstance(v, c_double): return v.value
    if hasattr(v, '__float__'): return T.lit(float(v))
    raise TypeError(f'must be real number, not {type(v).__name__}')


# ------------------------------------------------------------------------------------------------ ctypes
class CTypeMeta(type):
    def __mul__(cls, n):
        n = index(n)
        if n < 0: raise ValueError('Array length must be >= 0')
        return array_type(cls, n)
    __rmul__ = __mul__
    def __getattr__(cls, n):
        if n.startswith('__'): raise AttributeError(n)
        raise T.Unsupported(f'{cls.__name__}.{n} is not modelled')


class CBase(metaclass=CTypeMeta):
    def __getattr__(self, n):
        if n.startswith('__') or n in vars(self): raise AttributeError(n)
        raise T.Unsupported(f'{type(self).__name__}.{n} is not modelled')


def _simple(name, default):
    class S(CBase):
        def __init__(self, v=default): self.value = v
    S.__name__ = name
    return S
c_int = _simple('c_int', 0); c_long = _simple('c_long', 0); c_void_p = _simple('c_void_p', None); c_char_p = _simple('c_char_p', None)
c_size_t = _simple('c_size_t', 0); c_char = _simple('c_char', b'\0'); c_bool = _simple('c_bool', False)
class c_double(CBase):
    def __init__(self, v=0.0): self.value = to_double(v)


_arr = {}
def array_type(t, n):
    k = (t, n)
    a = _arr.get(k)
    if a is None:
        a = _arr[k] = CTypeMeta(f'{t.__name__}_Array_{n}', (CArray,), {'_type_': t, '_length_': n})
    return a


class CArray(CBase):
    _type_ = None; _length_ = 0
    def __init__(self, *vals):
        if len(vals) > self._length_: raise IndexError('invalid index')
        self.data = [0 if self._type_ in (c_double, c_int, c_long) else None] * self._length_
        for i, v in enumerate(vals): self[i] = v
    def __len__(self): return self._length_
    def _conv(self, v):
        t = self._type_
        if t is c_double: return to_double(v)
        if issubclass(t, CPtr):
            if v is None: return None
            if not isinstance(v, CPtr) and not isinstance(v, CArray): raise TypeError(f'expected {t.__name__} instance, got {type(v).__name__}')
            return v
        if t in (c_int, c_long): return index(v)
        return v
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            v = list(v); r = range(*i.indices(self._length_))
            if len(v) != len(r): raise ValueError('Can only assign sequence of same size')
            for k, x in zip(r, v): self.data[k] = self._conv(x)
            return
        i = index(i)
        if i < 0: i += self._length_
        if not 0 <= i < self._length_: raise IndexError('invalid index')
        self.data[i] = self._conv(v)
    def __getitem__(self, i):
        if isinstance(i, slice): return self.data[i]
        i = index(i)
        if i < 0: i += self._length_
        if not 0 <= i < self._length_: raise IndexError('invalid index')
        return self.data[i]
    def __iter__(self): return iter(list(self.data))
    @classmethod
    def in_dll(cls, lib, name):
        a = cls.__new__(cls)
        a.data = lib.records(name, cls._length_)
        return a


class CPtr(CBase):
    _type_ = None
    def __init__(self, obj=None): self._obj = obj
    @property
    def contents(self):
        if self._obj is None: raise ValueError('NULL pointer access')
        return self._obj
    def __bool__(self): return self._obj is not None
    def __getitem__(self, i):
        o = self.contents
        if isinstance(o, CArray): return o[i]
        if i == 0: return o
        raise T.Unsupported('pointer indexing')


_ptr = {}
def POINTER(t):
    p = _ptr.get(t)
    if p is None: p = _ptr[t] = CTypeMeta(f'LP_{t.__name__}', (CPtr,), {'_type_': t})
    return p


def pointer(o): return POINTER(type(o))(o)
def byref(o, off=0): return pointer(o)
def cast(o, t):
    if isinstance(o, (CArray, CPtr)): return t(o._obj if isinstance(o, CPtr) else o)
    raise T.Unsupported('cast')


class Structure(CBase):
    _fields_ = []


class Lib:
    """what CDLL returns: the library inside the symbolic machine"""
    def __init__(self, A, log):
        object.__setattr__(self, 'A', A); object.__setattr__(self, 'log', log); object.__setattr__(self, '_f', {})
    def __getattr__(self, n):
        f = self._f.get(n)
        if f is None:
            if not self.A.p.has(n): raise AttributeError(f'undefined symbol: {n}')
            f = self._f[n] = Fn(self, n)
        return f
    def __getitem__(self, n): return self.__getattr__(n)

    def record(self, x):
        r = Structure.__new__(Structure)
        b = lambda s: None if s is None else s.encode('ascii')
        r.name = b(x.name); r.full_name = b(x.full_name); r.type = x.type; r.inputs = x.inputs; r.options = x.options; r.outputs = x.outputs
        r.input_names = [b(s) for s in x.input_names]; r.option_names = [b(s) for s in x.option_names]; r.output_names = [b(s) for s in x.output_names]
        r.start, r.indicator, r.indicator_ref = (x.start_p or None, x.plain_p or None, x.ref_p or None)
        r.stream_new, r.stream_run, r.stream_free = (x.snew_p or None, x.srun_p or None, x.sfree_p or None)
        return r

    def records(self, name, n):
        if name != 'ti_indicators': raise T.Unsupported('in_dll ' + name)
        rs = sorted(self.A.infos.values(), key=lambda x: x.idx)
        if n > len(rs): raise T.Unsupported('reads the terminating record')
        return [self.record(x) for x in rs[:n]]


def deref(p):
    """array behind an argument"""
    if isinstance(p, CPtr): return p.contents
    return p


class Fn:
    def __init__(self, lib, name): self.lib = lib; self.name = name; self.restype = c_int; self.argtypes = None
    def __call__(self, *args):
        A = self.lib.A; n = self.name
        if n == 'ti_find_indicator':
            s = args[0].value if isinstance(args[0], c_char_p) else args[0]
            if not isinstance(s, bytes): raise T.Unsupported('find argument')
            o = Obj(len(s) + 1, UNDEF, 'string', 'name')
            for i, c in enumerate(s): o.cells[i] = (1, c if c < 128 else c - 256)
            o.cells[len(s)] = (1, 0)
            r = A.fn(n)(Ptr(o, 0))
            if r.__class__ is not Ptr: return CPtr(None)
            return CPtr(self.lib.record(A.infos[A.name_at(r)]))
        if n == 'ti_indicator_count': return A.fn(n)()
        if n == 'ti_build': return 0
        if n == 'ti_version': return b'0'
        if n.endswith('_start') and n[3:-6] in A.infos:
            opts = deref(args[0])
            return A.fn(n)(self.doubles(opts, 'options'))
        if n.startswith('ti_') and n[3:].removesuffix('_ref') in A.infos:
            if len(args) != 4: raise T.Unsupported('call with other arguments')
            size, ins, opts, outs = args
            size = index(size)
            ia, oa = deref(ins), deref(outs)
            iobj = [self.doubles(deref(x), f'input {k}').obj if x is not None else None for k, x in enumerate(ia.data)]
            oarr = [deref(x) if x is not None else None for x in oa.data]
            oobj = [self.doubles(x, f'output {k}').obj if x is not None else None for k, x in enumerate(oarr)]
            for o in oobj:
                if o is not None: o.ro = False
            P = lambda o: Ptr(o, 0) if o is not None else 0
            code = A.fn(n)(size, Ptr(A.parray([P(o) for o in iobj], 'inputs'), 0), self.doubles(deref(opts), 'options'), Ptr(A.parray([P(o) for o in oobj], 'outputs'), 0))
            self.lib.log.append((n, size, [list(deref(x).data) for x in ia.data if x is not None], list(deref(opts).data), code))
            for a, o in zip(oarr, oobj):
                if o is not None: a.data[:] = A.read_out(o, len(a.data))
            return code
        raise T.Unsupported('call of ' + n)

    def doubles(self, a, name):
        if not isinstance(a, CArray) or a._type_ is not c_double: raise T.Unsupported('argument ' + name)
        return Ptr(self.lib.A.darray(a.data, name), 0)


def ctypes_module(make_lib):
    m = StubModule('ctypes')
    for k, v in dict(c_int=c_int, c_long=c_long, c_double=c_double, c_void_p=c_void_p, c_char_p=c_char_p, c_size_t=c_size_t, c_bool=c_bool, c_char=c_char,
                     POINTER=POINTER, pointer=pointer, byref=byref, cast=cast, Structure=Structure, CDLL=lambda *a, **k: make_lib(), sizeof=lambda o: 8 * len(o),
                     Array=CArray).items():
        setattr(m, k, v)
    m.__all__ = [k for k in vars(m) if not k.startswith('_')]
    return m


# ------------------------------------------------------------------------------------------------ numpy
def doubles(dtype):
    if dtype is None or dtype is float or dtype in ('float64', 'double', 'd', 'f8') or dtype.__class__ is CTypeMeta and dtype is c_double: return
    raise T.Unsupported(f'dtype {dtype}')


class NArr:
    """one-dimensional array of doubles"""
    def __init__(self, data): self.data = data
    @property
    def size(self): return len(self.data)
    @property
    def shape(self): return (len(self.data),)
    ndim = 1
    def __len__(self): return len(self.data)
    def __iter__(self): return iter(list(self.data))
    def __getitem__(self, i):
        if isinstance(i, slice): return NArr(self.data[i])
        return self.data[i]
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            r = range(*i.indices(len(self.data)))
            v = list(v) if hasattr(v, '__iter__') else [v] * len(r)
            if len(v) == 1 and len(r) != 1: v = v * len(r)
            if len(v) != len(r): raise ValueError('could not broadcast')
            for k, x in zip(r, v): self.data[k] = to_double(x)
        else: self.data[i] = to_double(v)
    def copy(self): return NArr(list(self.data))
    def astype(self, *a, **k):
        doubles(a[0] if a else k.get('dtype')); return self.copy()
    def tolist(self): return list(self.data)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise T.Unsupported(f'ndarray.{n} is not modelled')


def numpy_module():
    m = StubModule('numpy')
    def arr(x, dtype=None, **k):
        doubles(dtype)
        if not isinstance(x, (list, tuple, NArr, CArray)) and not hasattr(x, '__iter__'): raise T.Unsupported('numpy scalar')
        return NArr([to_double(v) for v in x])
    def pad(a, width, mode='constant', **k):
        if isinstance(width, (tuple, list)):
            if len(width) == 1 and isinstance(width[0], (tuple, list)): width = width[0]
            w = [index(x) for x in width]
            if len(w) == 1: w = w * 2
        else: w = [index(width)] * 2
        if min(w) < 0: raise ValueError("index can't contain negative values")
        if mode != 'constant': raise T.Unsupported('pad mode')
        c = k.get('constant_values', 0)
        c = list(c) if isinstance(c, (tuple, list)) else [c]
        if len(c) == 1: c = c * 2
        return NArr([to_double(c[0])] * w[0] + list(a) + [to_double(c[1])] * w[1])
    def full(n, v, dtype=None, **k):
        if isinstance(n, tuple): n, = n
        n = index(n)
        if n < 0: raise ValueError('negative dimensions are not allowed')
        return NArr([to_double(v)] * n)
    def concat(xs, **k):
        r = []
        for x in xs: r += [to_double(v) for v in x]
        return NArr(r)
    cl = StubModule('numpy.ctypeslib')
    def as_array(a, shape=None):
        if isinstance(a, CPtr): a = a.contents
        if not isinstance(a, CArray): raise T.Unsupported('as_array')
        return NArr(a.data)
    cl.as_array = as_array
    for k, v in dict(nan=math.nan, NaN=math.nan, inf=math.inf, array=arr, asarray=arr, ascontiguousarray=arr, asfarray=arr, fromiter=arr, pad=pad, full=full,
                     zeros=lambda n, *a, **k: full(n, 0), ones=lambda n, *a, **k: full(n, 1), empty=lambda n, *a, **k: NArr([UNDEF] * index(n if not isinstance(n, tuple) else n[0])),
                     concatenate=concat, hstack=concat, append=lambda a, b, axis=None: concat([a, b]), float64=float, double=float, float_=float, ndarray=NArr, ctypeslib=cl).items():
        setattr(m, k, v)
    return m


def load(path, A, log):
    """namespace of the binding module, executed over the stubs"""
    mods = {'ctypes': ctypes_module(lambda: Lib(A, log)), 'numpy': numpy_module()}
    import builtins
    def imp(name, g=None, l=None, fromlist=(), level=0):
        top = name.split('.')[0]
        if top in mods:
            if name == 'numpy.ctypeslib': return mods['numpy'].ctypeslib if fromlist else mods['numpy']
            if name != top: raise T.Unsupported('import ' + name)
            return mods[top]
        if level: raise T.Unsupported('relative import')
        return builtins.__import__(name, g, l, fromlist, level)
    b = dict(vars(builtins)); b['__import__'] = imp
    ns = {'__name__': 'tindicators.impl', '__file__': path, '__builtins__': b}
    exec(compile(open(path).read(), path, 'exec'), ns)
    return ns
