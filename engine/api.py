"""Calling the library's entry points inside the symbolic machine."""
from . import rt, terms as T, explore
from .rt import Obj, Ptr, M, UNDEF
from .explore import Violation


def cstr(p):
    if p.__class__ is not Ptr: return None
    r = []
    i = p.off
    while True:
        c = p.obj.cells.get(i)
        b = c[1] if c else 0
        if b == 0: break
        r.append(chr(b & 255)); i += 1
    return ''.join(r)


class Info:
    pass


def read_infos(prog):
    g = prog.globalptr('ti_indicators').obj
    n = g.size // 320
    res = []
    def at(off, d=0):
        c = g.cells.get(off)
        return c[1] if c else d
    for i in range(n):
        b = i * 320
        x = Info()
        x.idx = i
        x.name = cstr(at(b)); x.full_name = cstr(at(b + 8))
        if x.name is None: x.terminator = True
        x.start_p, x.plain_p, x.ref_p = at(b + 16), at(b + 24), at(b + 32)
        x.type, x.inputs, x.options, x.outputs = at(b + 40), at(b + 44), at(b + 48), at(b + 52)
        x.input_names = [cstr(at(b + 56 + 8 * k)) for k in range(10)]
        x.option_names = [cstr(at(b + 136 + 8 * k)) for k in range(10)]
        x.output_names = [cstr(at(b + 216 + 8 * k)) for k in range(10)]
        x.snew_p, x.srun_p, x.sfree_p = at(b + 296), at(b + 304), at(b + 312)
        x.has_ref = x.ref_p != 0; x.has_stream = x.snew_p != 0
        res.append(x)
    return res


class Api:
    def __init__(self, prog):
        self.p = prog
        self.infos = {x.name: x for x in read_infos(prog) if x.name is not None}
        self.fn_cache = {}

    def fn(self, name):
        f = self.fn_cache.get(name)
        if f is None: f = self.fn_cache[name] = self.p.get(name)
        return f

    def name_at(self, p):
        """name in the registry record p points to"""
        c = p.obj.cells.get(p.off)
        return cstr(c[1]) if c else None

    # objects
    def darray(self, vals, name, ro='input', kind='array'):
        o = Obj(8 * len(vals), UNDEF, kind, name)
        cells = o.cells
        for i, v in enumerate(vals): cells[8 * i] = (9, v)
        o.ro = ro
        return o

    def parray(self, ptrs, name):
        o = Obj(8 * len(ptrs), UNDEF, 'pointer array', name)
        for i, v in enumerate(ptrs): o.cells[8 * i] = (8, v)
        o.ro = 'const'
        return o

    def options(self, info, opts):
        return Ptr(self.darray(list(opts), 'options', 'options'), 0)

    def start(self, name, opts):
        return self.fn(f'ti_{name}_start')(self.options(self.infos[name], opts))

    def call(self, name, inputs, opts, variant='', size=None, outsize=None, start=None, in_objs=None, track=False):
        """-> (code, outputs[list of lists], out objects).  variant '' or '_ref'"""
        info = self.infos[name]
        n = len(inputs[0]) if inputs else 0
        if size is None: size = n
        ins = [self.darray(x, f'input {info.input_names[i]}', 'input') for i, x in enumerate(inputs)]
        op = self.darray(list(opts), 'options', 'options')
        if outsize is None:
            if start is None: start = self.start(name, opts)
            outsize = max(0, size - rt.CI(start))
        outs = [Obj(8 * outsize, UNDEF, 'array', f'output {info.output_names[i]}') for i in range(info.outputs)]
        if track:
            for o in ins + [op]: o.reads = set()
        ia = self.parray([Ptr(o, 0) for o in ins], 'inputs')
        oa = self.parray([Ptr(o, 0) for o in outs], 'outputs')
        if track: ia.reads = set(); oa.reads = set()
        code = self.fn(f'ti_{name}{variant}')(size, Ptr(ia, 0), Ptr(op, 0), Ptr(oa, 0))
        self.last = (ins, op, outs, ia, oa)
        return code, [self.read_out(o, outsize) for o in outs], outs

    def read_out(self, o, n):
        r = []
        for i in range(n):
            c = o.cells.get(8 * i)
            if c is None: r.append(None)
            elif c[0] == 9: r.append(c[1])
            elif c[0] == 8 and (c[1].__class__ is int and c[1] == 0): r.append(0)
            elif c[1].__class__ is rt.Bits: r.append(c[1].v)
            elif c[1].__class__ is T.Undef: r.append(c[1])
            else: raise T.Unsupported('output cell')
        return r

    def stream_new(self, name, opts):
        op = self.darray(list(opts), 'options', 'options')
        s = Obj(8, UNDEF, 'stack', 'stream pointer')
        s.cells[0] = (8, 0)
        code = self.fn(f'ti_{name}_stream_new')(Ptr(op, 0), Ptr(s, 0))
        c = s.cells.get(0)
        return code, c[1]

    def stream_run(self, name, sp, inputs, outsize, generic=False):
        info = self.infos[name]
        n = len(inputs[0])
        ins = [self.darray(x, f'input {info.input_names[i]}', 'input') for i, x in enumerate(inputs)]
        outs = [Obj(8 * outsize, UNDEF, 'array', f'output {info.output_names[i]}') for i in range(info.outputs)]
        ia = self.parray([Ptr(o, 0) for o in ins], 'inputs'); oa = self.parray([Ptr(o, 0) for o in outs], 'outputs')
        f = self.fn('ti_stream_run' if generic else f'ti_{name}_stream_run')
        code = f(sp, n, Ptr(ia, 0), Ptr(oa, 0))
        return code, [self.read_out(o, outsize) for o in outs]

    def stream_free(self, name, sp, generic=False):
        self.fn('ti_stream_free' if generic else f'ti_{name}_stream_free')(sp)

    def stream_progress(self, sp): return self.fn('ti_stream_get_progress')(sp)


def begin(ex):
    """start of a path"""
    rt.EX = ex
    rt.reset_path()
