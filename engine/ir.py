"""Parser for textual LLVM IR (clang 18, opaque pointers, no vectors) and translation to Python functions."""
import re, struct
from . import terms as T
from .terms import Unsupported

TOK = re.compile(r'''\s*(?:
 (c"(?:[^"\\]|\\.)*")|
 ([%@]"[^"]*"|[%@][-\w.$]+)|
 (0x[KLMH]?[0-9A-Fa-f]+)|
 (-?\d+\.\d*(?:e[+-]?\d+)?)|
 (-?\d+)|
 ([A-Za-z_][\w.]*)|
 (!"[^"]*"|!\w+|\#\d+|"[^"]*")|
 (\.\.\.|[{}()\[\]<>,*=!:|])
)''', re.X)


def tokens(s):
    r = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise Unsupported('token ' + s[i:i + 40])
        r.append(m.group(m.lastindex))
        i = m.end()
    return r


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext', 'zeroext',
               'inreg', 'immarg', 'returned', 'nofree', 'swiftself', 'nest', 'allocptr', 'allocalign', 'noreturn', 'writable', 'dead_on_unwind'}


class Type:
    __slots__ = ('k', 'bits', 'elems', 'n', 'size', 'align', 'offs', 'code')
    def __repr__(s): return f'<{s.k}{s.bits or ""}>'


def mk(k, bits=0, elems=None, n=0, size=0, align=1, offs=None, code=0):
    t = Type(); t.k = k; t.bits = bits; t.elems = elems; t.n = n; t.size = size; t.align = align; t.offs = offs; t.code = code
    return t

_int_types = {}
def int_type(b):
    t = _int_types.get(b)
    if t is None:
        sz = 1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8 if b <= 64 else 16
        t = _int_types[b] = mk('i', b, size=sz, align=sz, code=sz)
    return t
PTR = mk('p', size=8, align=8, code=8)
DBL = mk('d', size=8, align=8, code=9)
FLT = mk('f', size=4, align=4, code=5)
VOID = mk('v')
META = mk('m')
FN = mk('fn')


def struct_type(elems, packed=False):
    off = 0; al = 1; offs = []
    for e in elems:
        a = 1 if packed else e.align
        off = (off + a - 1) // a * a
        offs.append(off); off += e.size
        al = max(al, a)
    size = (off + al - 1) // al * al
    return mk('s', elems=elems, size=size, align=al, offs=offs)


class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def accept(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def expect(s, x):
        y = s.next()
        if y != x: raise Unsupported(f'expected {x} got {y} in {" ".join(s.t)[:120]}')

    def type(s):
        x = s.next()
        if x[0] == 'i' and x[1:].isdigit(): t = int_type(int(x[1:]))
        elif x == 'ptr': t = PTR
        elif x == 'double': t = DBL
        elif x == 'float': t = FLT
        elif x == 'void': t = VOID
        elif x == 'metadata': t = META
        elif x == '{':
            t = s._struct('}')
        elif x == '<':
            if s.accept('{'):
                t = s._struct('}', True); s.expect('>')
            else: raise Unsupported('vector type')
        elif x == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']')
            t = mk('a', elems=e, n=n, size=n * e.size, align=e.align)
        elif x[0] == '%': t = s.m.named_type(x)
        elif x == 'x86_fp80': raise Unsupported('long double')
        else: raise Unsupported('type ' + x)
        while s.peek() == '(':
            # function type:  ret (args)
            d = 0
            while True:
                y = s.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if d == 0: break
            t2 = mk('fn'); t2.elems = t; t = t2
        return t

    def _struct(s, end, packed=False):
        el = []
        if s.accept(end): return struct_type(el, packed)
        while True:
            el.append(s.type())
            if s.accept(end): break
            s.expect(',')
        return struct_type(el, packed)

    def attrs(s):
        while True:
            x = s.peek()
            if x in PARAM_ATTRS: s.i += 1
            elif x in ('align',):
                s.i += 2
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'range', 'nofpclass', 'elementtype', 'memory', 'initializes'):
                s.i += 1
                if s.peek() == '(':
                    d = 0
                    while True:
                        y = s.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
                elif x == 'align': s.i += 1
            elif x and x[0] == '#': s.i += 1
            elif x and x[0] == '"': s.i += 1
            else: return


def parse_double(x):
    if x.startswith('0x'):
        if x[2] in 'KLMH': raise Unsupported('fp literal')
        return struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
    return float(x)


class Func:
    __slots__ = ('name', 'params', 'ret', 'text', 'linkage', 'py', 'ninstr', 'nblocks', 'attr')


DEF = re.compile(r'^define\s+(.*?)(@"[^"]+"|@[-\w.$]+)\((.*)\)([^()]*(?:\([^)]*\))?[^()]*)\{\s*$')


class Module:
    def __init__(s, path):
        s.path = path
        s.types = {}
        s.typetext = {}
        s.funcs = {}
        s.globals = {}
        s.decls = set()
        s.ctors = []
        s.aliases = {}
        with open(path) as f: s._scan(f.read())

    def _scan(s, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == '%':
                m = re.match(r'^(%"[^"]+"|%[-\w.$]+) = type (.*)$', l)
                if m: s.typetext[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'^(@"[^"]+"|@[-\w.$]+) = (.*)$', l)
                if m:
                    if m.group(1) == '@llvm.global_ctors':
                        s.ctors = re.findall(r'ptr (@[-\w.$]+)', m.group(2))
                    elif m.group(1).startswith('@llvm.'): pass
                    else: s.globals[m.group(1)] = m.group(2)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'(@"[^"]+"|@[-\w.$]+)\(', l)
                f = Func(); f.name = m.group(1); f.text = (l, lines[i + 1:j]); f.py = None
                f.linkage = 'internal' if re.match(r'^define\s+(internal|private)\b', l) else 'linkonce' if ' linkonce' in l[:30] else 'external'
                s.funcs[f.name] = f
                i = j
            elif l.startswith('declare'):
                m = re.search(r'(@"[^"]+"|@[-\w.$]+)\(', l)
                if m: s.decls.add(m.group(1))
            i += 1

    def named_type(s, n):
        t = s.types.get(n)
        if t is None:
            txt = s.typetext.get(n)
            if txt is None or txt == 'opaque': t = mk('o')
            else: t = P(tokens(txt), s).type()
            s.types[n] = t
        return t


# ------------------------------------------------------------------------------------------- translation
ICMP = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}


class Trans:
    """translates one IR function into Python source"""
    def __init__(s, mod, func, ns):
        s.m = mod; s.f = func; s.ns = ns
        s.names = {}
        s.consts = ns['__consts__']

    def reg(s, n):
        r = s.names.get(n)
        if r is None: r = s.names[n] = 'v%d' % len(s.names)
        return r

    def const(s, v, pfx='K'):
        if v.__class__ is int: return f'({v})' if v < 0 else str(v)
        key = (v.__class__, repr(v))
        n = s.consts.get(key)
        if n is None:
            n = s.consts[key] = f'{pfx}{len(s.consts)}'
            s.ns[n] = v
        return n

    def value(s, p, t):
        """parse a value operand of type t -> python expression"""
        x = p.next()
        c = x[0]
        if c == '%': return s.reg(x)
        if c == '@': return s.sym(x)
        if t.k == 'd' or t.k == 'f':
            if x in ('undef', 'poison'): return 'UNDEF'
            if x == 'zeroinitializer': return '0'
            return s.const(T.lit(parse_double(x)))
        if x == 'true': return 'True'
        if x == 'false': return 'False'
        if x in ('null', 'zeroinitializer'):
            if t.k == 's': return '(' + ''.join('0,' for _ in t.elems) + ')'
            return '0'
        if x == 'none': return '0'
        if x in ('undef', 'poison'):
            if t.k == 's': return '(' + ''.join('UNDEF,' for _ in t.elems) + ')'
            return 'UNDEF'
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): p.next()
            p.expect('(')
            e = s.gep(p, ')')
            return e
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'sub', 'add', 'icmp', 'zext', 'sext'):
            if x == 'ptrtoint':
                p.expect('('); t1 = p.type(); v = s.value(p, t1); p.expect('to'); p.type(); p.expect(')')
                return f'P2I({v})'
            if x == 'inttoptr':
                p.expect('('); t1 = p.type(); v = s.value(p, t1); p.expect('to'); p.type(); p.expect(')')
                return f'I2P({v})'
            raise Unsupported('constexpr ' + x)
        if c == '-' or c.isdigit():
            v = int(x)
            return s.const(v)
        if x == '{':
            el = []
            for e in t.elems:
                t1 = p.type(); el.append(s.value(p, t1)); p.accept(',')
            p.expect('}')
            return '(' + ','.join(el) + ',)'
        raise Unsupported('value ' + x)

    def sym(s, x):
        return s.const(s.ns['__link__'](x), 'G') if False else s._symconst(x)

    def _symconst(s, x):
        key = ('sym', x)
        n = s.consts.get(key)
        if n is None:
            n = s.consts[key] = f'G{len(s.consts)}'
            s.ns[n] = s.ns['__symptr__'](x)
        return n

    def gep(s, p, end):
        t = p.type(); p.expect(',')
        pt = p.type(); base = s.value(p, pt)
        off = 0; dyn = []
        first = True
        cur = t
        while p.accept(','):
            if p.peek() and p.peek()[0] == '!': break
            while p.peek() == 'inrange': p.next()
            it = p.type()
            x = p.peek()
            isconst = x.lstrip('-').isdigit()
            v = s.value(p, it)
            if first:
                sz = cur.size; first = False
            elif cur.k == 's':
                k = int(v.strip('()')); off += cur.offs[k]; cur = cur.elems[k]; continue
            else:
                cur = cur.elems; sz = cur.size
            if isconst: off += int(v.strip('()')) * sz
            elif sz: dyn.append(v if sz == 1 else f'{sz}*{v}')
        if end: p.expect(end)
        if not dyn:
            if off == 0: return base
            return f'GEPC({base},{off})'
        e = '+'.join(dyn)
        if off: e += f'+{off}'
        return f'GEP({base},{e})'

    # -- whole function
    def translate(s):
        head, body = s.f.text
        p = P(tokens(re.sub(r'\s+personality .*$', '', re.sub(r'\s*\{\s*$', '', re.sub(r'#\d+.*$', '', head)))), s.m)
        # params
        i = 0
        while p.t[i] != s.f.name: i += 1
        p.i = i + 1
        p.expect('(')
        params = []
        vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'): vararg = True; p.expect(')'); break
                t = p.type(); p.attrs()
                x = p.peek()
                if x and x[0] == '%': params.append(s.reg(p.next()))
                else: params.append(s.reg('%' + str(len(params))))
                if p.accept(')'): break
                p.expect(',')
        # blocks
        blocks = {}
        order = []
        entry = '%' + str(len(params))
        cur = None
        lines = []
        # join continued lines (switch, landingpad, invoke)
        raw = []
        for l in body:
            if not l.strip() or l.lstrip().startswith(';'): continue
            if l.startswith('  ') and not l.startswith('    ') and not l.startswith('   '):
                raw.append(l.strip())
            elif l.startswith('  '):
                raw[-1] += ' ' + l.strip()
            else: raw.append(l)
        # 'switch' ends with ']' on a two-space line
        raw2 = []
        for l in raw:
            if l == ']': raw2[-1] += ' ]'
            else: raw2.append(l)
        for l in raw2:
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m and not l.startswith(' '):
                cur = '%' + m.group(1)
                blocks[cur] = []; order.append(cur); continue
            if cur is None:
                cur = entry; blocks[cur] = []; order.append(cur)
            blocks[cur].append(l)
        s.f.nblocks = len(order)
        s.f.ninstr = sum(len(b) for b in blocks.values())
        parsed = {}
        for b in order:
            parsed[b] = [s.parse(l) for l in blocks[b]]
        s.parsed = parsed
        # phis & preds
        preds = {b: [] for b in order}
        for b in order:
            for d in s.succ(parsed[b][-1]): preds[d].append(b)
        phis = {}
        for b in order:
            ph = {}
            for ins in parsed[b]:
                if ins[0] == 'phi': ph[ins[1]] = ins[2]
            phis[b] = ph
        s.phis = phis; s.preds = preds; s.order = order
        idx = {}
        heads = [b for i, b in enumerate(order) if i == 0 or len(preds[b]) != 1 or b in preds[b]]
        # depth limit: blocks too deep become heads
        s.heads = {b: i for i, b in enumerate(heads)}
        s.extra = []
        out = []
        s.dispatch = []
        done = {}
        work = list(heads)
        while work:
            b = work.pop(0)
            buf = []
            s.emit_block(b, 0, buf, work)
            done[s.heads[b]] = buf
        n = len(done)
        res = [f'def F({",".join(params)}):']
        uninit = [r for r in s.names.values() if r not in params]
        if n == 1 and not s.has_jump:
            for l in done[0]: res.append('  ' + l)
        else:
            res.append('  b=0;N=0')
            res.append('  while True:')
            res.append('   N+=1')
            res.append('   if N>STEPLIM: STEPS()')
            def tree(lo, hi, ind):
                if hi - lo == 1:
                    for l in done[lo]: res.append(ind + l)
                    return
                mid = (lo + hi) // 2
                res.append(f'{ind}if b<{mid}:')
                tree(lo, mid, ind + ' ')
                res.append(f'{ind}else:')
                tree(mid, hi, ind + ' ')
            tree(0, n, '   ')
        return '\n'.join(res)

    has_jump = False

    def succ(s, ins):
        k = ins[0]
        if k == 'br': return [ins[1]]
        if k == 'cbr': return [ins[2], ins[3]]
        if k == 'switch': return [ins[2]] + [d for _, d in ins[3]]
        if k == 'invoke': return [ins[3], ins[4]]
        return []

    def phi_moves(s, src, dst):
        ph = s.phis[dst]
        if not ph: return None
        l = []; r = []
        for n, inc in ph.items():
            v = inc[src]
            if v != n: l.append(n); r.append(v)
        if not l: return None
        return ','.join(l) + '=' + ','.join(r)

    def jump(s, src, dst, d, buf, work):
        ind = ' ' * d
        mv = s.phi_moves(src, dst)
        if mv: buf.append(ind + mv)
        if dst not in s.heads and d > 30:
            s.heads[dst] = len(s.heads); work.append(dst)
        if dst in s.heads:
            s.has_jump = True
            buf.append(f'{ind}b={s.heads[dst]};continue')
        else:
            s.emit_block(dst, d, buf, work)

    def emit_block(s, b, d, buf, work):
        ind = ' ' * d
        for ins in s.parsed[b]:
            k = ins[0]
            if k == 'x':
                for q in ins[1].split('\x00'): buf.append(ind + q)
            elif k == 'phi': pass
            elif k == 'br': s.jump(b, ins[1], d, buf, work)
            elif k == 'cbr':
                if ins[2] == ins[3]:
                    s.jump(b, ins[2], d, buf, work); return
                buf.append(f'{ind}if {ins[1]}:')
                s.jump(b, ins[2], d + 1, buf, work)
                buf.append(f'{ind}else:')
                s.jump(b, ins[3], d + 1, buf, work)
            elif k == 'switch':
                buf.append(f'{ind}sw_={ins[1]}')
                for v, dst in ins[3]:
                    buf.append(f'{ind}if IEQ(sw_,{v}):')
                    s.jump(b, dst, d + 1, buf, work)
                    buf.append(f'{ind}else:')
                    d += 1; ind = ' ' * d
                s.jump(b, ins[2], d, buf, work)
            elif k == 'ret': buf.append(f'{ind}return {ins[1]}')
            elif k == 'unreachable': buf.append(f'{ind}UNREACHABLE()')
            elif k == 'resume': buf.append(f'{ind}RESUME({ins[1]})')
            elif k == 'invoke':
                buf.append(f'{ind}try:')
                buf.append(f'{ind} ' + (f'{ins[1]}={ins[2]}' if ins[1] else ins[2]))
                buf.append(f'{ind} ex_=None')
                buf.append(f'{ind}except CxxExc as e_:')
                buf.append(f'{ind} ex_=e_')
                buf.append(f'{ind}if ex_ is None:')
                s.jump(b, ins[3], d + 1, buf, work)
                buf.append(f'{ind}else:')
                # landing pad result passed through a hidden register
                buf.append(f'{ind} lp_=ex_')
                s.jump(b, ins[4], d + 1, buf, work)
            elif k == 'nop': pass
            else: raise Unsupported('emit ' + k)

    # -- one instruction
    def parse(s, l):
        toks = tokens(META_SUFFIX.sub('', l))
        p = P(toks, s.m)
        dst = None
        if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
            dst = s.reg(p.next()); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        m = getattr(s, 'i_' + op, None)
        if m is None: raise Unsupported('instr ' + op)
        return m(p, dst)

    def i_load(s, p, d):
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.expect(',')
        pt = p.type(); a = s.value(p, pt)
        if t.k in ('s', 'a'): raise Unsupported('aggregate load')
        if t.k == 'i' and t.bits == 1: return ('x', f'{d}=LD({a},1)&1')
        return ('x', f'{d}=LD({a},{t.code})')

    def i_store(s, p, d):
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); v = s.value(p, t); p.expect(',')
        pt = p.type(); a = s.value(p, pt)
        if t.k in ('s', 'a'): raise Unsupported('aggregate store')
        if t.k == 'i' and t.bits == 1: v = f'int({v})'
        return ('x', f'ST({a},{v},{t.code})')

    def i_getelementptr(s, p, d):
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): p.next()
        return ('x', f'{d}={s.gep(p, None)}')

    def i_br(s, p, d):
        if p.accept('label'): return ('br', p.next())
        t = p.type(); c = s.value(p, t); p.expect(',')
        p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return ('cbr', f'TR({c})' if False else c, a, b)

    def i_switch(s, p, d):
        t = p.type(); v = s.value(p, t); p.expect(','); p.expect('label'); df = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            t1 = p.type(); c = s.value(p, t1); p.expect(','); p.expect('label'); cs.append((c, p.next()))
        return ('switch', v, df, cs)

    def i_phi(s, p, d):
        t = p.type()
        inc = {}
        while True:
            if p.peek() != '[': break
            p.expect('['); v = s.value(p, t); p.expect(','); b = p.next(); p.expect(']')
            inc[b] = v
            if not p.accept(','): break
        return ('phi', d, inc)

    def i_ret(s, p, d):
        t = p.type()
        if t.k == 'v': return ('ret', 'None')
        return ('ret', s.value(p, t))

    def i_unreachable(s, p, d): return ('unreachable',)

    def i_resume(s, p, d):
        t = p.type(); v = s.value(p, t)
        return ('resume', v)

    def i_landingpad(s, p, d):
        t = p.type()
        cl = []
        cleanup = False
        while p.i < len(p.t):
            x = p.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch':
                p.type(); y = p.next(); cl.append(y)
            elif x == 'filter':
                t1 = p.type(); cl.append('@filter'); p.i = len(p.t)
        return ('x', f'{d}=LANDING(lp_,{cl!r},{cleanup})')

    def i_alloca(s, p, d):
        t = p.type()
        n = '1'
        if p.accept(','):
            if p.peek() != 'align':
                t1 = p.type(); n = s.value(p, t1)
        return ('x', f'{d}=ALLOCA({t.size}*{n})')

    def i_select(s, p, d):
        t = p.type(); c = s.value(p, t); p.expect(',')
        t1 = p.type(); a = s.value(p, t1); p.expect(','); t2 = p.type(); b = s.value(p, t2)
        return ('x', f'{d}={a} if {c} else {b}')

    def i_icmp(s, p, d):
        pr = p.next()
        if pr == 'samesign': pr = p.next()
        t = p.type(); a = s.value(p, t); p.expect(','); b = s.value(p, t)
        if t.k == 'p':
            if pr in ('eq', 'ne'):
                return ('x', f'{d}={"not " if pr == "ne" else ""}PEQ({a},{b})')
            return ('x', f'{d}=P2I({a}){ICMP[pr]}P2I({b})')
        if pr == 'eq': return ('x', f'{d}=IEQ({a},{b})')
        if pr == 'ne': return ('x', f'{d}=not IEQ({a},{b})')
        if pr[0] == 's': return ('x', f'{d}={a}{ICMP[pr]}{b}')
        return ('x', f'{d}=UN({a},{t.bits}){ICMP[pr]}UN({b},{t.bits})')

    def i_fcmp(s, p, d):
        while p.peek() in FMF: p.next()
        pr = p.next()
        t = p.type(); a = s.value(p, t); p.expect(','); b = s.value(p, t)
        return ('x', f'{d}=F{pr.upper()}({a},{b})')

    def _bin(s, p):
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FMF: fl.add(p.next())
        t = p.type(); a = s.value(p, t); p.expect(','); b = s.value(p, t)
        return fl, t, a, b

    def _arith(s, p, d, op):
        fl, t, a, b = s._bin(p)
        bits = t.bits
        if 'nsw' in fl:
            lim = 1 << (bits - 1)
            return ('x', f'{d}={a}{op}{b}\x00if {d}.__class__ is not int or not {-lim}<={d}<{lim}: {d}=OVF({d},{bits})')
        return ('x', f'{d}=WRAP({a}{op}{b},{bits})')
    def i_add(s, p, d): return s._arith(p, d, '+')
    def i_sub(s, p, d): return s._arith(p, d, '-')
    def i_mul(s, p, d): return s._arith(p, d, '*')
    def i_sdiv(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=SDIV({a},{b},{t.bits})')
    def i_srem(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=SREM({a},{b},{t.bits})')
    def i_udiv(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=WRAP(UDIV(UN({a},{t.bits}),UN({b},{t.bits})),{t.bits})')
    def i_urem(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=WRAP(UREM(UN({a},{t.bits}),UN({b},{t.bits})),{t.bits})')
    def i_and(s, p, d):
        fl, t, a, b = s._bin(p)
        return ('x', f'{d}=AND({a},{b})')
    def i_or(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=OR({a},{b})')
    def i_xor(s, p, d):
        fl, t, a, b = s._bin(p)
        if t.bits == 1 and b == 'True': return ('x', f'{d}=NOT({a})')
        return ('x', f'{d}=XOR({a},{b})')
    def i_shl(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=WRAP(CI({a})<<CI({b}),{t.bits})')
    def i_ashr(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=CI({a})>>CI({b})')
    def i_lshr(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=WRAP(UN(CI({a}),{t.bits})>>CI({b}),{t.bits})')
    def i_fadd(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}={a}+{b}')
    def i_fsub(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}={a}-{b}')
    def i_fmul(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}={a}*{b}')
    def i_fdiv(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=FDIV({a},{b})')
    def i_frem(s, p, d):
        fl, t, a, b = s._bin(p); return ('x', f'{d}=FREM({a},{b})')
    def i_fneg(s, p, d):
        while p.peek() in FMF: p.next()
        t = p.type(); a = s.value(p, t); return ('x', f'{d}=-({a})')

    def _cast(s, p):
        while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF: p.next()
        t = p.type(); a = s.value(p, t); p.expect('to'); t2 = p.type()
        return t, a, t2
    def i_sext(s, p, d):
        t, a, t2 = s._cast(p)
        return ('x', f'{d}=-int({a})' if t.bits == 1 else f'{d}={a}')
    def i_zext(s, p, d):
        t, a, t2 = s._cast(p)
        return ('x', f'{d}=B2I({a})' if t.bits == 1 else f'{d}=UN({a},{t.bits})')
    def i_trunc(s, p, d):
        t, a, t2 = s._cast(p)
        return ('x', f'{d}=TR1({a})' if t2.bits == 1 else f'{d}=WRAP({a},{t2.bits})')
    def i_fptosi(s, p, d):
        t, a, t2 = s._cast(p); return ('x', f'{d}=FPTOSI({a},{t2.bits})')
    def i_fptoui(s, p, d):
        t, a, t2 = s._cast(p); return ('x', f'{d}=FPTOUI({a},{t2.bits})')
    def i_sitofp(s, p, d):
        t, a, t2 = s._cast(p); return ('x', f'{d}=-int({a})' if t.bits == 1 else f'{d}={a}')
    def i_uitofp(s, p, d):
        t, a, t2 = s._cast(p); return ('x', f'{d}=int({a})' if t.bits == 1 else f'{d}=UN({a},{t.bits})')
    def i_fpext(s, p, d):
        t, a, t2 = s._cast(p); return ('x', f'{d}={a}')
    def i_fptrunc(s, p, d): raise Unsupported('float')
    def i_ptrtoint(s, p, d):
        t, a, t2 = s._cast(p); return ('x', f'{d}=P2I({a})')
    def i_inttoptr(s, p, d):
        t, a, t2 = s._cast(p); return ('x', f'{d}=I2P({a})')
    def i_bitcast(s, p, d):
        t, a, t2 = s._cast(p)
        if (t.k, t2.k) in (('d', 'i'), ('i', 'd')): return ('x', f'{d}=BITS({a},"{t2.k}")')
        return ('x', f'{d}={a}')
    def i_freeze(s, p, d):
        t = p.type(); a = s.value(p, t); return ('x', f'{d}={a}')
    def i_extractvalue(s, p, d):
        t = p.type(); a = s.value(p, t)
        e = a
        while p.accept(','):
            x = p.peek()
            if not x.isdigit(): break
            e += f'[{p.next()}]'
        return ('x', f'{d}={e}')
    def i_insertvalue(s, p, d):
        t = p.type(); a = s.value(p, t); p.expect(','); t1 = p.type(); v = s.value(p, t1); p.expect(','); k = int(p.next())
        return ('x', f'{d}=INSV({a},{v},{k})')
    def i_fence(s, p, d): return ('nop',)

    def _call(s, p):
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
        p.attrs()
        rt = p.type()
        x = p.next()
        p.expect('(')
        args = []
        meta = False
        if not p.accept(')'):
            while True:
                t = p.type()
                if t.k == 'm':
                    d = 1
                    while d:
                        y = p.next()
                        if y == '(': d += 1
                        if y == ')': d -= 1
                    meta = True
                    break
                p.attrs()
                args.append(s.value(p, t))
                if p.accept(')'): break
                p.expect(',')
        if x[0] == '@':
            n = x[1:]
            if n.startswith('llvm.'):
                base = n
                if any(base.startswith(q) for q in ('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.dbg', 'llvm.invariant.end', 'llvm.donothing')):
                    return None
                if base.startswith('llvm.invariant.start'): return '0'
                parts = base.split('.')
                bits = parts[-1][1:] if parts[-1][0] == 'i' and parts[-1][1:].isdigit() else None
                fn = 'L_' + '_'.join(q for q in parts[1:] if not re.match(r'^(p0|i\d+|f64)$', q))
                if fn not in s.ns: raise Unsupported('intrinsic ' + n)
                if fn in ('L_eh_typeid_for',): return f'{fn}({x_sym(args)})'
                if bits and fn not in ('L_memset', 'L_memcpy', 'L_memmove'): args.append(bits)
                return f'{fn}({",".join(args)})'
            return f'{s.ns["__fname__"](x)}({",".join(args)})'
        if x[0] == '%':
            return f'ICALL({s.reg(x)}{"".join("," + a for a in args)})'
        raise Unsupported('call ' + x)

    def i_call(s, p, d):
        e = s._call(p)
        if e is None: return ('nop',)
        return ('x', f'{d}={e}' if d else e)

    def i_invoke(s, p, d):
        e = s._call(p)
        while p.next() != 'to': pass
        p.expect('label'); a = p.next()
        while p.next() != 'unwind': pass
        p.expect('label'); b = p.next()
        return ('invoke', d, e, a, b)


def x_sym(args): return args[0]

META_SUFFIX = re.compile(r'(, ![\w.]+ ![\w.]+)+\s*$')
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
