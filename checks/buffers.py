"""C15: the window buffers of utils/ against a plain list of values."""
from .core import *

(NEWEST, GET, CGET, STEP, SET, MAXV, MINV, AGEMAX, AGEMIN, RESIZE, COPY, PHYS, PUSH, QPUSH, SUM, BSIZE, BAT, STEPALL, MAXGREATER) = range(19)
FLAT = (1, 2, 3, 4, 5, 7, 13)


class C15(Check):
    prop = 'C15'
    rule = 'One evaluation is one path of a sequence of buffer operations with symbolic values, every observable of the buffer compared with a list after each step.'
    quick_s = 60
    assumptions = ['arithmetic is exact over the reals', 'capacities 1..7 and 13 (fixed-size), 1..6 (run-time sized), 1..5 (summing), three local buffers of 1..3',
                   'a ring of n slots has n positions and arbitrary contents: sequences of up to 2n+1 pushes of unconstrained values visit all of them',
                   'the harness harness/buffers.cc instantiates the templates and macros as the indicators do']

    def setup(self):
        self.dir = build.scratch()
        self.src = self.dir + '/src'
        build.copy_source(self.src)
        H = f'{VERIF}/harness/buffers.cc'
        build.build_ir(self.src, self.dir + '/ir', units=['utils/buffer.c'], harness=[(H, 'vp_buffers')])
        self.prog = rt.Program(self.dir + '/ir')
        self.A = api.Api.__new__(api.Api); self.A.p = self.prog; self.A.fn_cache = {}; self.A.infos = {}
        self.native = native.Native(self.src, self.dir)
        self.native.units = ['utils/buffer.c', H, f'{VERIF}/harness/buffers_main.cc']

    def changed(self): return set()
    per_task_max = 60

    def tasks(self):
        t = []
        for k in FLAT: t.append((f'ringbuf<{k}>', ('ring', k, k)))
        for m in range(1, 7 if self.tier == 'quick' else 10): t.append((f'ringbuf<0>({m})', ('ring', 100, m)))
        for m in range(1, 6 if self.tier == 'quick' else 9):
            t.append((f'ti_buffer({m})', ('sum', 200, m)))
        for s in [(1, 1, 1), (1, 2, 3), (3, 1, 2), (2, 3, 1), (2, 2, 2), (4, 1, 5)]: t.append((f'local{s}', ('local', 300, s)))
        t.append(('step of several', ('all', 0, 0))); t.append(('min max', ('mm', 0, 0)))
        return t

    def work(self, name, params, deadline):
        res = Result(name)
        rng = random.Random(f'{self.seed}-{name}')
        ctx = Ctx(self, None, rng, res, [k for k in known_findings() if k['property'] == 'C15' and k['status'] == 'known'], deadline)
        kind, code, m = params
        L = []
        if kind == 'ring':
            L = [('push', k) for k in range(0, 2 * m + 2 if m < 6 else m + 3)] + [('seq', k) for k in range(1, 5)] + ([('resize', k) for k in range(1, 6)] if code == 100 else [])
        elif kind == 'sum': L = [('push', k) for k in range(0, 2 * m + 3)] + [('mixed', k) for k in range(1, 5)]
        elif kind == 'local': L = [('seq', k) for k in range(1, 2 * max(m) + 2)]
        else: L = [('one', 0)]
        done = set()
        rnd = 0
        while L and not ctx.over() and not res.cands:
            for what, k in L:
                if ctx.over() or res.cands: break
                if (what, k) in done: continue
                sc = Scn((), k, what, rnd, 0, {'kind': kind, 'code': code, 'm': m})
                ex = ctx.new_ex(sc, max(.5, (deadline - time.time()) / 3))
                ctx.reached = 0
                def h(ex):
                    api.begin(ex)
                    ctx.script = []
                    ctx.case = dict(script=ctx.script, want=None)
                    getattr(self, 'h_' + kind)(ctx, ex, sc)
                    ctx.reached += 1
                if ctx.explore(ex, h, sc): done.add((what, k))
            L = [x for x in L if x not in done]
            rnd += 1
            if rnd > 6: break
        res.fns = sorted(set(self.prog.compiled)); res.ninstr = self.prog.ninstr
        return res

    def accept_kind(self, v): return True

    # -- driving the real code
    def new(self, ctx, id, code, a, b=1, c=1):
        ctx.script.append(('new', id, code, a, b, c))
        h = self.A.fn('vp_new')(code, a, b, c)
        self.hs = getattr(self, 'hs', {}); self.hs[id] = h
        return id

    def op(self, ctx, id, op, i=0, x=0):
        ctx.script.append(('op', id, op, i, x))
        try: return self.A.fn('vp_op')(self.hs[id], op, i, x)
        except Violation as v:
            ctx.case = dict(script=list(ctx.script), want=None)
            raise

    def expect(self, ctx, ex, id, op, i, x, want, what, rel='eq'):
        """want: the value, or the list it has to dominate (max/min)"""
        got = self.op(ctx, id, op, i, x)
        ctx.case = dict(script=list(ctx.script), want=want, rel=rel)
        try:
            if rel == 'eq': ex.prove_close(got, want, what, eps=Fr(1, 10**9))
            elif rel in ('max', 'min'):
                for w in want: ex.prove(got - w if rel == 'max' else w - got, POS | ZERO, what)
                prod = 1
                for w in want:
                    if ex.branch(got - w, ZERO): break
                else: raise Violation('value', what)
            else: raise ValueError(rel)
        except Violation as v:
            raise Violation('value', f'{what} after {self.show(ctx)}')
        finally: pass
        ctx.script.pop()
        ctx.case = dict(script=ctx.script, want=None)
        return got

    def show(self, ctx):
        n = ['newest', 'get', 'get', 'step', 'set', 'max', 'min', 'age of max', 'age of min', 'resize', 'copy', 'physical', 'push', 'qpush', 'sum', 'size', 'at', 'stepall', 'max<greater>']
        return ', '.join(f'{n[s[2]]} {s[3]}' if s[0] == 'op' else f'{s[0]}' for s in ctx.script if s[0] == 'op' and s[2] in (STEP, SET, RESIZE, PUSH, QPUSH))[-200:]

    def check_ring(self, ctx, ex, id, code, w, sel):
        m = len(w)
        self.expect(ctx, ex, id, NEWEST, 0, 0, w[0], 'newest value')
        for i in range(m):
            self.expect(ctx, ex, id, GET, i, 0, w[i], f'[{i}] of {m}')
            self.expect(ctx, ex, id, CGET, i, 0, w[i], f'const [{i}] of {m}')
        s = 0
        for x in w: s = s + x
        self.expect(ctx, ex, id, PHYS, 0, 0, s, f'sum over the physical range')
        if code != 100:
            x = ex.real(f'y{len(ctx.script)}', -50, 50)
            c = [x] + w[:-1]
            for i in range(m): self.expect(ctx, ex, id, COPY, i, x, c[i], f'[{i}] of a copy that was pushed to')
            for i in range(m): self.expect(ctx, ex, id, GET, i, 0, w[i], f'[{i}] after the copy was changed')
        # maxima: one period per path, all of them over the paths
        if not sel: return
        k = ex.choose(m) + 1
        if ex.choose(2):
            self.expect(ctx, ex, id, MAXV, k, 0, w[:k], f'maximum of the last {k} of {m}', 'max')
            self.age(ctx, ex, id, AGEMAX, k, w, 'max')
        else:
            self.expect(ctx, ex, id, MINV, k, 0, w[:k], f'minimum of the last {k} of {m}', 'min')
            self.expect(ctx, ex, id, MAXGREATER, k, 0, w[:k], f'maximum by > of the last {k} of {m}', 'min')
            self.age(ctx, ex, id, AGEMIN, k, w, 'min')

    def age(self, ctx, ex, id, op, k, w, rel):
        a = self.op(ctx, id, op, k)
        a = ex.concretize(a) if a.__class__ is T.Poly else a
        ctx.case = dict(script=list(ctx.script), want=w[:k], rel='age' + rel)
        ok = a == int(a) and 0 <= a < k
        if ok:
            g = w[int(a)]
            try:
                for x in w[:k]: ex.prove(g - x if rel == 'max' else x - g, POS | ZERO, '')
            except Violation: ok = False
        if not ok: raise Violation('value', f'age {a} of the {rel}imum of the last {k} after {self.show(ctx)}')
        ctx.script.pop(); ctx.case = dict(script=ctx.script, want=None)

    def h_ring(self, ctx, ex, sc):
        code, m = sc.extra['code'], sc.extra['m']
        id = self.new(ctx, 0, code, m)
        w = [0] * m
        n = 0
        def val():
            nonlocal n
            n += 1
            return ex.real(f'x{n}', -50, 50)
        if sc.mode == 'push':
            for i in range(sc.n):
                self.op(ctx, id, STEP); w = [w[-1]] + w[:-1]
                x = val()
                self.op(ctx, id, SET, 0, x); w[0] = x
            self.check_ring(ctx, ex, id, code, w, True)
        else:
            for i in range(sc.n):
                o = ex.choose(4 if code == 100 and sc.mode == 'resize' else 3)
                if o == 0 or o == 1: self.op(ctx, id, STEP); w = [w[-1]] + w[:-1]
                if o == 0 or o == 2: x = val(); self.op(ctx, id, SET, 0, x); w[0] = x
                if o == 3: k = 1 + ex.choose(3); self.op(ctx, id, RESIZE, k); w = [0] * k
                if i < sc.n - 1: self.expect(ctx, ex, id, NEWEST, 0, 0, w[0], 'newest value')
            self.check_ring(ctx, ex, id, code, w, False)
        self.done(ex, [id])

    def done(self, ex, ids):
        for i in ids: self.A.fn('vp_free')(self.hs[i])
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1
        if rt.live_heap(): raise Violation('leak', 'blocks left after release')

    def h_sum(self, ctx, ex, sc):
        m = sc.extra['m']
        id = self.new(ctx, 0, 200, m)
        hist = []
        mixed = sc.mode == 'mixed'
        q = ex.choose(2) if not mixed else 0       # one kind of push per buffer, as the macros ask for
        self.expect(ctx, ex, id, BSIZE, 0, 0, m, 'capacity')
        self.expect(ctx, ex, id, SUM, 0, 0, 0, 'sum of nothing')
        for i in range(sc.n if not mixed else 3 * m + sc.n):
            x = ex.real(f'x{i}', -50, 50)
            self.op(ctx, id, QPUSH if q else PUSH, 0, x); hist.append(x)
            h = hist[-m:]
            if not q:
                s = 0
                for y in h: s = s + y
                self.expect(ctx, ex, id, SUM, 0, 0, s, f'sum of the last {len(h)}')
            for j in range(len(h)): self.expect(ctx, ex, id, GET, -j, 0, h[-1 - j], f'value {j} back of {m}')
        self.done(ex, [id])

    def h_local(self, ctx, ex, sc):
        s = sc.extra['m']
        id = self.new(ctx, 0, 300, *s)
        self.expect(ctx, ex, id, BSIZE, 0, 0, sum(s), 'total size')
        h = [[], [], []]
        for i in range(sc.n):
            w = ex.choose(3) if sc.n <= 5 else (i * 7 + i // 3) % 3
            x = ex.real(f'x{i}', -50, 50)
            self.op(ctx, id, PUSH, w * 64, x); h[w].append(x)
            for b in range(3):
                k = min(len(h[b]), s[b])
                for j in range(k):
                    self.expect(ctx, ex, id, GET, b * 64 + 32 - j, 0, h[b][-1 - j], f'buffer {b}: {j} back of {s[b]}')
                    self.expect(ctx, ex, id, BAT, b * 64 + 32 - j, 0, h[b][-1 - j], f'buffer {b}: at {-j} of {s[b]}')
                if k == s[b]: self.expect(ctx, ex, id, GET, b * 64 + 33, 0, h[b][-k], f'buffer {b}: the oldest of {s[b]}')
        self.done(ex, [id])

    def h_all(self, ctx, ex, sc):
        ids = [self.new(ctx, 0, 3, 3), self.new(ctx, 1, 100, 4), self.new(ctx, 2, 2, 2)]
        w = [[0] * 3, [0] * 4, [0] * 2]
        for r in range(6):
            ctx.script.append(('all', 0, 1, 2))
            self.A.fn('vp_stepall')(self.hs[0], self.hs[1], self.hs[2])
            for k in range(3):
                w[k] = [w[k][-1]] + w[k][:-1]
                x = ex.real(f'x{r}_{k}', -50, 50)
                self.op(ctx, k, SET, 0, x); w[k][0] = x
            for k in range(3):
                for i in range(len(w[k])): self.expect(ctx, ex, k, GET, i, 0, w[k][i], f'[{i}] of ring {k}')
        self.done(ex, ids)

    def h_mm(self, ctx, ex, sc):
        a, b = ex.real('a', -50, 50), ex.real('b', -50, 50)
        for nm in ('max', 'min'):
            ctx.script[:] = [(nm, a, b)]
            ctx.case = dict(script=list(ctx.script), want=[a, b], rel=nm)
            r = self.A.fn('vp_' + nm)(a, b)
            for x in (a, b):
                ex.prove(r - x if nm == 'max' else x - r, POS | ZERO, nm)
            if not ex.branch(r - a, ZERO) and not ex.branch(r - b, ZERO): raise Violation('value', nm)

    # -- replay
    def confirm(self, c): return self.judge(c)
    def judge(self, c):
        s = ''
        for x in c['script']:
            s += ' '.join(native.lit(y) if isinstance(y, (int, float)) else str(y) for y in x) + '\n'
        c['text'] = s
        rc, out, err = self.replay('asan', s)
        if san_error(rc, err) and not (c['kind'] != 'leak' and 'LeakSanitizer' in err and 'AddressSanitizer:' not in err.replace('LeakSanitizer', '').replace('SUMMARY: AddressSanitizer:', '')): return True, first_error(err)
        if c['want'] is None: return False, f'sanitizer build exit {rc}'
        rc, out, err = self.replay('release', s)
        if not [l for l in out if l.startswith('v ')]: return False, f'exit {rc}'
        got = float([l for l in out if l.startswith('v ')][-1].split()[1])
        w = c['want']; r = c['rel']
        if r == 'eq': return differ(got, float(w), 100), f'{got} instead of {w}'
        if r in ('max', 'min'): return got != (max if r == 'max' else min)(w), f'{r} of {w} is {got}'
        e = (max if r == 'agemax' else min)(w)
        return not (0 <= got < len(w) and got == int(got) and w[int(got)] == e), f'age {got} of the {r[3:]} of {w}'
