"""C01-C08: harnesses over the library's entry points."""
import math, random
from fractions import Fraction as Fr
from .common import *
from . import scen
from .scen import Scn

native_call, native_new, native_run = native.cmd_call, native.cmd_new, native.cmd_run


def differ(a, b, scale, tol=1e-6):
    """native values a, b disagree"""
    if a is None or b is None: return a is not b
    if not math.isfinite(a) or not math.isfinite(b):
        return math.isfinite(a) != math.isfinite(b)
    return abs(a - b) > tol * (scale + abs(a) + abs(b))


def scale_of(*xs):
    m = 1.0
    for x in xs:
        for r in x:
            for v in r:
                if v is not None and isinstance(v, (int, float)) and math.isfinite(v): m = max(m, abs(v))
    return m


def crashed(rc): return rc != 0


def dom_of(info, ctx=None): return 'ordered'


# value pairs for comparing outputs
def compare_outputs(ex, A, B, la, lb, offset=0, eps=Fr(1, 10000)):
    for k, (x, y) in enumerate(zip(A, B)):
        for i, (a, b) in enumerate(zip(x, y)):
            if a is None or b is None:
                if a is not b: raise Violation('unwritten', f'output {k}[{i}] written by only one of {la}, {lb}')
                continue
            ex.prove_close(a, b, f'output {k}[{i + offset}]: {la} vs {lb}', eps=eps)


class C01(Check):
    prop = 'C01'
    rule = 'One evaluation is one symbolic path of one indicator variant for an option vector and bar count.'
    quick_s = 80
    assumptions = ['inputs are finite doubles; arithmetic is exact over the reals', 'option windows up to the values listed per scenario',
                   'allocation succeeds (C07 covers failure)', 'memory objects are bounds-checked at the granularity of the allocated block']

    def expand(self, ctx, sc):
        vs = ['']
        if ctx.info.has_ref: vs.append('_ref')
        if ctx.info.has_stream: vs.append('stream')
        for v in vs:
            yield Scn(sc.opts, sc.n, sc.mode, sc.seed, sc.start, {'variant': v})
        yield from self.short(ctx, sc, vs)
        r = ctx.rng.random()
        if r < 0.15 and ctx.info.options:      # unvalidated territory: any option values
            o = tuple(ctx.rng.choice([0, -1, 1, 2, 5, Fr(5, 2), Fr(7, 2), 1000, -3, Fr(1, 2), 7]) if ctx.rng.random() < .5 else x for x in sc.opts)
            for v in vs: yield Scn(o, ctx.rng.choice([0, 1, sc.n]), 'full' if sc.n < 9 else 'few', sc.seed, 0, {'variant': v, 'raw': 1})
        elif r < 0.3:
            for v in vs: yield Scn(sc.opts, ctx.rng.randint(0, sc.start + 1), sc.mode, sc.seed, sc.start, {'variant': v})

    def short(self, ctx, sc, vs):
        """once per option vector: bar counts that are too few for an output"""
        seen = ctx.__dict__.setdefault('short_seen', set())
        if sc.opts in seen or len(seen) > 12: return
        seen.add(sc.opts)
        for n in sorted({0, 1, max(0, sc.start - 1), sc.start, sc.start // 2} - {sc.n}):
            for v in vs: yield Scn(sc.opts, n, 'full' if n < 9 else 'line', sc.seed, sc.start, {'variant': v})

    def accept_kind(self, v): return v.kind in MEMKINDS

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; v = sc.extra['variant']
        n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed), 'ordered' if sc.seed % 3 == 0 else 'any')
        if v == 'stream':
            cuts = [0, 1, 2][ex.choose(3)] if n else 0
            chunks = [n] if cuts == 0 else [1] * n if cuts == 1 else [min(n, sc.start + 1), n - min(n, sc.start + 1)]
            ctx.case = dict(opts=list(sc.opts), inputs=ins, variant=v, chunks=chunks)
            code, sp = A.stream_new(name, sc.opts)
            if code != 0: return
            start = A.start(name, sc.opts)
            pos = 0
            for c in chunks:
                prev = max(0, pos - start); now = max(0, pos + c - start)
                r, outs = A.stream_run(name, sp, [x[pos:pos + c] for x in ins], now - prev)
                self.outs_ok(outs)
                pos += c
            A.stream_free(name, sp)
            self.clean_path(ex)
            return
        ctx.case = dict(opts=list(sc.opts), inputs=ins, variant=v)
        start = A.start(name, sc.opts)
        code, outs, _ = A.call(name, ins, sc.opts, v, n, max(0, n - start) if start.__class__ is int else 0)
        if code == 0:
            self.outs_ok(outs); ctx.obs = (v, ins, sc.opts, outs)
        self.clean_path(ex)

    def clean_path(self, ex):
        # no access of this path left its object, read a cell nobody wrote or left the domain of an operation: every one of them is checked
        # by the machine as it executes, for all values that follow the path
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1

    def outs_ok(self, outs):
        for k, o in enumerate(outs):
            for i, x in enumerate(o):
                if x.__class__ is T.Undef: raise Violation('uninit-output', f'output {k}[{i}] computed from uninitialised memory')

    def judge(self, c):
        n = c['indicator']
        v = c['variant']
        if v == 'stream':
            s = native_new(1, n, c['opts'])
            start = self.native_start(n, c['opts'])
            pos = 0
            for ch in c['chunks']:
                s += native_run(1, [x[pos:pos + ch] for x in c['inputs']], max(0, pos + ch - start) - max(0, pos - start)); pos += ch
            s += 'free 1\n'
        else:
            start = self.native_start(n, c['opts'])
            size = len(c['inputs'][0])
            s = native_call(n, v[1:], c['inputs'], c['opts'], max(0, size - start))
        c['script'] = s
        if c['kind'] in ('uninit', 'uninit-output'):
            # optimisation may remove the branch that depends on it: the unoptimised build decides
            for k in ('debug', 'plain'):
                rc, out, err = self.replay(k, s, valgrind=True)
                if rc == 79: break
            return rc == 79, f'valgrind exit {rc}: {err[:300]}'
        rc, out, err = self.replay('asan', s)
        if san_error(rc, err): return True, f'sanitizer build exit {rc}: {first_error(err)}'
        rc, out, err = self.replay('debug', s, valgrind=True)
        if rc == 79: return True, f'valgrind exit {rc}: {err[:300]}'
        return False, 'sanitizer and valgrind builds run clean'

    def native_start(self, name, opts):
        rc, out, err = self.replay('release', f'start {name} {len(opts)} ' + ' '.join(native.lit(o) for o in opts) + '\n')
        for l in out:
            if l.startswith('start '): return int(l.split()[1])
        return 0


def san_error(rc, err):
    return rc != 0 and (('ERROR: AddressSanitizer:' in err or 'ERROR: LeakSanitizer' in err or 'runtime error:' in err))


def first_error(err):
    for l in err.split('\n'):
        if 'Sanitizer:' in l or 'runtime error' in l: return l.strip()[:200]
    return err[:200]


class C02(C01):
    prop = 'C02'
    rule = 'One evaluation is one symbolic path of a plain or reference call at one option vector and bar count, with padded output arrays.'
    PAD = 3
    quick_s = 60

    def expand(self, ctx, sc):
        vs = [''] + (['_ref'] if ctx.info.has_ref else [])
        for v in vs: yield Scn(sc.opts, sc.n, sc.mode, sc.seed, sc.start, {'variant': v})
        yield from self.short(ctx, sc, vs)
        k = ctx.rng.choice([0, 1, sc.start, max(0, sc.start - 1), sc.start + 1, ctx.rng.randint(0, sc.start + 1)])
        for v in vs: yield Scn(sc.opts, k, sc.mode, sc.seed, sc.start, {'variant': v})
        if ctx.info.options and ctx.rng.random() < .3:
            o = tuple(ctx.rng.choice([0, -1, -3, 1, 2, 1000]) if ctx.rng.random() < .5 else x for x in sc.opts)
            for v in vs: yield Scn(o, ctx.rng.choice([0, 1, sc.n]), 'full' if sc.n < 9 else 'few', sc.seed, 0, {'variant': v})

    def accept_kind(self, v): return v.kind in ('contract', 'oob-write')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; v = sc.extra['variant']; n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed))
        ctx.case = dict(opts=list(sc.opts), inputs=ins, variant=v, size=n)
        start = A.start(name, sc.opts)
        start = start if start.__class__ is int else 0
        k = max(0, n - start)
        try:
            code, outs, _ = A.call(name, ins, sc.opts, v, n, k + self.PAD)
        except Violation as w:
            if start < 0: raise Violation('contract', f'start offset {start} for options that are not rejected')
            if w.kind == 'oob-write' and 'output' not in w.msg: raise PathEnd('memory error elsewhere')
            if w.kind == 'oob-write': raise
            raise PathEnd('other')
        except rt.CxxExc: raise PathEnd('exception')
        if code not in (0, 1): raise PathEnd('oom')
        if code == 0 and start < 0 : raise Violation('contract', f'start offset {start} for accepted options')
        want = k if code == 0 else 0
        for j, o in enumerate(outs):
            for i, x in enumerate(o):
                if i < want and x is None: raise Violation('contract', f'output {j}: element {i} of {want} not assigned')
                if i >= want and x is not None: raise Violation('contract', f'output {j}: element {i} written, only {want} expected (code {code})')
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1
        if code == 0: ctx.obs = (v, ins, sc.opts, [o[:want] for o in outs])

    def judge(self, c):
        n = c['indicator']; size = c['size']
        start = self.native_start(n, c['opts']); k = max(0, size - start)
        s = native_call(n, c['variant'][1:], c['inputs'], c['opts'], k + self.PAD, size)
        c['script'] = s
        if c['kind'] == 'oob-write':
            rc, out, err = self.replay('asan', s)
            return san_error(rc, err), f'sanitizer build exit {rc}: {first_error(err)}'
        rc, out, err = self.replay('release', s)
        if rc != 0: return False, f'native exit {rc}'
        r = native.parse(out)[0]
        if r[0] != 'ret' or r[1] not in (0, 1): return False, str(r[:2])
        if r[1] == 0 and start < 0: return True, f'start {start}, code 0'
        want = k if r[1] == 0 else 0
        for j, o in enumerate(r[2]):
            for i, x in enumerate(o):
                if (i < want) != (x is not None): return True, f'code {r[1]}, start {start}, size {size}: output {j}[{i}] is {"unwritten" if x is None else x}'
        return False, 'native run keeps the contract'


class C04(C01):
    prop = 'C04'
    rule = 'One evaluation is one symbolic path through the plain and the reference function on the same bars.'
    quick_s = 80
    assumptions = ['arithmetic is exact over the reals: rounding differences are outside the claim', 'a non-finite reference value is not compared (the references do not guard zero denominators)',
                   'bars ordered low<=open,close<=high, prices positive, volumes non-negative', 'window options are integers']

    def tasks(self): return [(n, None) for n, i in self.A.infos.items() if i.has_ref]
    def expand(self, ctx, sc): yield sc
    def accept_kind(self, v): return v.kind in ('differ', 'special', 'code', 'unwritten')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed))
        ctx.case = dict(opts=list(sc.opts), inputs=ins)
        try:
            c1, o1, _ = A.call(name, ins, sc.opts, '', n)
            c2, o2, _ = A.call(name, ins, sc.opts, '_ref', n)
        except Violation as v: raise PathEnd('memory')
        if c1 != c2: raise Violation('code', f'plain returns {c1}, reference {c2}')
        if c1: return
        ctx.obs = ('', ins, sc.opts, o1)
        o1 = [[x for x, y in zip(p, q) if y.__class__ is not float] for p, q in zip(o1, o2)]     # the reference does not guard zero denominators
        o2 = [[y for y in q if y.__class__ is not float] for q in o2]
        compare_outputs(ex, o1, o2, 'plain', 'reference')

    def judge(self, c):
        n = c['indicator']; size = len(c['inputs'][0])
        k = max(0, size - self.native_start(n, c['opts']))
        s = native_call(n, '', c['inputs'], c['opts'], k) + native_call(n, 'ref', c['inputs'], c['opts'], k)
        c['script'] = s
        rc, out, err = self.replay('release', s)
        if rc != 0: return False, f'native exit {rc}'
        a, b = native.parse(out)[:2]
        if a[1] != b[1]: return True, f'codes {a[1]} and {b[1]}'
        if a[1]: return False, 'rejected'
        sc = scale_of(c['inputs'])
        for j in range(len(a[2])):
            for i in range(k):
                if b[2][j][i] is not None and not math.isfinite(b[2][j][i]): continue
                if differ(a[2][j][i], b[2][j][i], sc): return True, f'output {j}[{i}]: plain {a[2][j][i]}, reference {b[2][j][i]}'
        return False, 'native outputs agree'


def chunkings(ex, n, start, rng):
    """a way of cutting n bars into chunks, by nondeterministic choice"""
    if n == 0: return [0]
    if n <= 5:
        m = ex.choose(2 ** (n - 1) + 1)
        if m == 2 ** (n - 1): return [0] + [1] * (n // 2) + [0, n - n // 2]
        r = [1]
        for i in range(n - 1):
            if m >> i & 1: r.append(1)
            else: r[-1] += 1
        return r
    m = ex.choose(7)
    if m == 0: return [n]
    if m == 1: return [1] * n
    s = min(max(start, 1), n - 1)
    if m == 2: return [s, n - s]
    if m == 3: return [min(s + 1, n - 1), n - min(s + 1, n - 1)]
    if m == 4: return [s, 0, 1] + ([n - s - 1] if n - s - 1 else [])
    if m == 5: return [0, n // 2, 0, n - n // 2]
    r = []
    left = n
    rr = random.Random(rng.random() if False else n * 31 + start)
    while left:
        c = min(left, rr.choice([0, 1, 1, 2, 3, 5])); r.append(c); left -= c
    return r


class C05(C01):
    prop = 'C05'
    rule = 'One evaluation is one symbolic path: a chunking of the series, the stream fed with it, and the plain function on the whole.'
    quick_s = 90
    assumptions = C04.assumptions

    def tasks(self): return [(n, None) for n, i in self.A.infos.items() if i.has_stream]
    def expand(self, ctx, sc): yield sc
    def accept_kind(self, v): return v.kind in ('differ', 'special', 'code', 'unwritten', 'oob-write')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed))
        ch = chunkings(ex, n, sc.start, ctx.rng)
        ctx.case = dict(opts=list(sc.opts), inputs=ins, chunks=ch)
        pre = None
        try:
            c1, o1, _ = A.call(name, ins, sc.opts, '', n)
        except Violation: raise PathEnd('memory')
        try:
            c2, sp = A.stream_new(name, sc.opts)
            if c1 != c2: raise Violation('code', f'plain returns {c1}, stream constructor {c2}')
            if c1: return
            got = [[] for _ in o1]
            pos = 0
            for c in ch:
                k = max(0, pos + c - sc.start) - max(0, pos - sc.start)
                r, o = A.stream_run(name, sp, [x[pos:pos + c] for x in ins], k + 2)
                if r != 0: raise Violation('code', f'stream run returns {r}')
                for j, x in enumerate(o):
                    if any(y is None for y in x[:k]) or any(y is not None for y in x[k:]):
                        raise Violation('unwritten', f'chunk of {c} bars after {pos}: output {j} has elements {[i for i, y in enumerate(x) if y is not None]} instead of the first {k}')
                    got[j] += x[:k]
                pos += c
            A.stream_free(name, sp)
        except Violation as v:
            if v.kind in MEMKINDS: raise PathEnd('memory')
            raise
        compare_outputs(ex, o1, got, 'plain', 'stream')
        ctx.obs = ('', ins, sc.opts, o1)

    def judge(self, c):
        n = c['indicator']; size = len(c['inputs'][0])
        start = self.native_start(n, c['opts'])
        k = max(0, size - start)
        s = native_call(n, '', c['inputs'], c['opts'], k) + native_new(1, n, c['opts'])
        pos = 0
        ks = []
        for ch in c['chunks']:
            kk = max(0, pos + ch - start) - max(0, pos - start)
            ks.append(kk)
            s += native_run(1, [x[pos:pos + ch] for x in c['inputs']], kk + 2); pos += ch
        s += 'free 1\n'
        c['script'] = s
        rc, out, err = self.replay('release', s)
        p = native.parse(out)
        if len(p) < 2: return False, f'native exit {rc}'
        if p[0][1] != p[1][1]: return True, f'plain returns {p[0][1]}, stream constructor {p[1][1]}'
        if rc != 0: return False, f'native exit {rc}'
        if p[0][1]: return False, 'rejected'
        got = [[] for _ in p[0][2]]
        for q, kk in zip(p[2:], ks):
            if q[0] != 'ret': return False, str(q)
            if q[1] != 0: return True, f'stream run returns {q[1]}'
            for j, x in enumerate(q[2]):
                if any(y is None for y in x[:kk]) or any(y is not None for y in x[kk:]): return True, f'chunk output {j} is {x}, {kk} values expected'
                got[j] += x[:kk]
        sc = scale_of(c['inputs'])
        for j in range(len(got)):
            for i in range(k):
                if differ(p[0][2][j][i], got[j][i], sc): return True, f'output {j}[{i}]: plain {p[0][2][j][i]}, stream {got[j][i]}'
        return False, 'native outputs agree'


class C08(C01):
    prop = 'C08'
    rule = 'One evaluation is one symbolic path through a call on a series and a call on one of its prefixes.'
    quick_s = 80
    assumptions = C04.assumptions

    def expand(self, ctx, sc):
        k = ctx.rng.choice([1, 1, 2, 3, max(1, sc.n // 2)])
        for v in [''] + (['_ref'] if ctx.info.has_ref else []):
            yield Scn(sc.opts, sc.n + k, sc.mode, sc.seed, sc.start, {'variant': v, 'prefix': sc.n})

    def accept_kind(self, v): return v.kind in ('differ', 'special', 'code', 'unwritten')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; n = sc.n; m = sc.extra['prefix']; v = sc.extra['variant']
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed))
        ctx.case = dict(opts=list(sc.opts), inputs=ins, prefix=m, variant=v)
        try:
            c1, o1, _ = A.call(name, [x[:m] for x in ins], sc.opts, v, m)
            c2, o2, _ = A.call(name, ins, sc.opts, v, n)
        except Violation: raise PathEnd('memory')
        if c1 != c2: raise Violation('code', f'{c1} on {m} bars, {c2} on {n}')
        if c1: return
        ctx.obs = (v, ins, sc.opts, o2)
        compare_outputs(ex, o1, [x[:len(y)] for x, y in zip(o2, o1)], f'{m} bars', f'{n} bars')

    def judge(self, c):
        n = c['indicator']; size = len(c['inputs'][0]); m = c['prefix']
        st = self.native_start(n, c['opts'])
        v = c['variant'][1:]
        s = native_call(n, v, [x[:m] for x in c['inputs']], c['opts'], max(0, m - st)) + native_call(n, v, c['inputs'], c['opts'], max(0, size - st))
        c['script'] = s
        rc, out, err = self.replay('release', s)
        if rc != 0: return False, f'native exit {rc}'
        a, b = native.parse(out)[:2]
        if a[1] != b[1]: return True, f'codes {a[1]} and {b[1]}'
        sc = scale_of(c['inputs'])
        for j in range(len(a[2])):
            for i in range(len(a[2][j])):
                if differ(a[2][j][i], b[2][j][i], sc): return True, f'output {j}[{i}]: {a[2][j][i]} on {m} bars, {b[2][j][i]} on {size}'
        return False, 'native outputs agree'
