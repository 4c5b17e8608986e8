"""C03, C06, C07, C16: acceptance of options, streams as objects, failing allocations, hidden state."""
from .core import *


def outs_equal(ex, A, B, la, lb, eps=Fr(1, 10**9)):
    compare_outputs(ex, A, B, la, lb, eps=eps)


ZERO_OK = {'lag'}

class C03(C01):
    prop = 'C03'
    rule = 'One evaluation is one path of the acceptance decision of the plain function, the reference and the stream constructor over symbolic option values.'
    quick_s = 60
    assumptions = ['window options range over -4..12 (whole numbers, or reals in a second pass), other options over -4..8; single values up to 65540 and other options over -10^6..10^6 in a third', 'allocation succeeds']

    def scenarios(self, ctx):
        names = ctx.info.option_names[:ctx.info.options]
        if not names:
            yield Scn((), 0, 'conc', 1, 0, {'size': 0, 'frac': 0}); return
        k = 0
        hi = 12 if len(names) < 4 else 6
        yield Scn((), 0, 'conc', 1, 0, {'size': 0, 'frac': 0, 'hi': hi})
        yield Scn((), 0, 'conc', 1, 0, {'size': 0, 'frac': 1, 'hi': min(hi, 8)})
        for size in (1, 3, 8): yield Scn((), size, 'conc', 2, 0, {'size': size, 'frac': 0, 'hi': 4})
        O = scen.Options(self.A, ctx.info, ctx.rng)
        new = [x for c in ctx.consts.new for x in (c, c + 1, c - 1)]
        far = new + [100, 127, 128, 255, 256, 1000, 4097, 10001, 65537]
        while True:
            k += 1
            if k % 6 == 2 or k < 12 and new:
                # windows beyond the symbolic range, the other options symbolic over a wide one
                w = [i for i, o in enumerate(names) if scen.is_window(o)]
                big = ctx.rng.choice(new or far) if k < 12 else ctx.rng.choice(far)
                v = tuple((big + (j if ctx.rng.random() < .7 else 0) if ctx.rng.random() < .7 else ctx.rng.choice([1, 2, 5])) for j, o in enumerate(names))
                yield Scn(v, 0, 'conc', k, 0, {'size': ctx.rng.choice([0, 0, 1, 5]), 'frac': 0, 'hi': 0, 'free': [i for i in range(len(names)) if i not in w], 'far': 1})
                continue
            # all but one or two options fixed at a random vector, the rest symbolic; larger ranges
            with ctx.quiet(): v = O.random(60)
            if v is None: v = tuple(ctx.rng.choice([1, 2, 5, 9]) for _ in names)
            free = sorted(ctx.rng.sample(range(len(names)), min(len(names), ctx.rng.choice([1, 1, 2]))))
            yield Scn(v, 0, 'conc', k, 0, {'size': ctx.rng.choice([0, 0, 1, 2, 5, 20]), 'frac': k % 2, 'hi': ctx.rng.choice([8, 30, 70]), 'free': free})
            if k > 400: return

    def slice(self, ctx, sc): return max(0.3, (ctx.deadline - ctx.t0) / 5)

    def opts(self, ctx, ex, sc):
        names = ctx.info.option_names[:ctx.info.options]
        free = sc.extra.get('free')
        r = []
        for i, o in enumerate(names):
            if free is not None and i not in free: r.append(sc.opts[i]); continue
            if scen.is_window(o) and not sc.extra['frac']: r.append(ex.int(f'o{i}', -4, sc.extra['hi']))
            elif scen.is_window(o): r.append(ex.real(f'o{i}', -4, sc.extra['hi']))
            else: r.append(ex.real(f'o{i}', -10**6, 10**6) if sc.extra.get('far') else ex.real(f'o{i}', -4, 8))
        return r, names

    def accept_kind(self, v): return v.kind in ('code', 'zero', 'handed')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name
        n = sc.extra['size']
        o, names = self.opts(ctx, ex, sc)
        ins = scen.concrete(ctx.info.input_names[:ctx.info.inputs], n, random.Random(sc.seed))
        case = dict(opts=o, inputs=ins, size=n)
        ctx.case = case
        codes = {}
        try:
            for v in [''] + (['_ref'] if ctx.info.has_ref else []):
                codes[v] = self.code(A, ctx.info, ins, o, v, n)
            if ctx.info.has_stream:
                codes['stream'], sp = A.stream_new(name, o)
                if codes['stream'] == 0: A.stream_free(name, sp)
                elif codes['stream'] == 1 and not (sp.__class__ is int and sp == 0): raise Violation('handed', 'the rejecting constructor hands out a stream')
        except Violation as w:
            if w.kind in MEMKINDS: raise PathEnd('memory')
            raise
        except rt.CxxExc: raise PathEnd('exception')
        if any(c == 2 for c in codes.values()): raise PathEnd('oom')
        st = ex.stats
        st.obligations += 1; st.by_simplifier += 1
        if len(set(codes.values())) > 1: raise Violation('code', f'the same options are {" ".join(f"{k or chr(112)+chr(108)+chr(97)+chr(105)+chr(110)}:{v}" for k, v in codes.items())}')
        if codes[''] == 0:
            for x, nm in zip(o, names):
                if scen.is_window(nm) and x.__class__ is T.Poly:
                    z = name in ZERO_OK
                    try: ex.prove(x + 1 if z else x, POS, f'{nm} <= 0 accepted')
                    except Violation as w: raise Violation('zero', f'{nm} <{"" if z else "="} 0 is accepted')
        if n:
            try: c0 = self.code(A, ctx.info, [[] for _ in ins], o, '', 0)
            except Violation: raise PathEnd('memory')
            st.obligations += 1; st.by_simplifier += 1
            if c0 != codes['']: raise Violation('code', f'code {codes[""]} on {n} bars, {c0} on none')

    def code(self, A, info, ins, o, v, n):
        """call with outputs as large as any start offset needs"""
        return A.call(info.name, ins, o, v, n, max(n, 0) + 2)[0]

    def judge(self, c):
        n = c['indicator']; size = c['size']; o = c['opts']
        inf = self.A.infos[n]
        def one(ins, k):
            s = native_call(n, '', ins, o, k + 8, k)
            if inf.has_ref: s += native_call(n, 'ref', ins, o, k + 8, k)
            if inf.has_stream: s += native_new(1, n, o)
            return s
        r = []
        if c['kind'] == 'handed':
            rc, out, err = self.replay('release', native_new(1, n, o))
            return any(l.startswith('handed') for l in out), str(out)
        for ins, k in ((c['inputs'], size), ([[] for _ in c['inputs']], 0)):
            s = one(ins, k); c['script'] = s
            rc, out, err = self.replay('release', s)
            r.append([x[1] for x in native.parse(out)])
            if size == 0: break
        c['codes'] = r
        if c['kind'] == 'zero': 
            w = [x for x, nm in zip(o, inf.option_names) if scen.is_window(nm)]
            return (r[0][0] == 0 and any(x <= (-1 if n in ZERO_OK else 0) for x in w)), f'codes {r} for options {o}'
        al = [x for y in r for x in y]
        return len(set(al)) > 1 and not 2 in al and not None in al, f'codes {r} for options {o} on {size} bars'


class C06(C01):
    prop = 'C06'
    rule = 'One evaluation is one path of an interleaving of two streams, each compared with a stream of its own, with progress, info and heap checked.'
    quick_s = 80
    assumptions = C04.assumptions + ['interleavings of up to three chunks per stream']

    def tasks(self): return [(n, None) for n, i in self.A.infos.items() if i.has_stream]

    def expand(self, ctx, sc):
        names = [n for n, i in self.A.infos.items() if i.has_stream]
        k = ctx.rng.random()
        other = ctx.info.name if k < .5 else ctx.rng.choice(names)
        oi = self.A.infos[other]
        if other == ctx.info.name and ctx.rng.random() < .6: ov = sc.opts
        else:
            with ctx.quiet():
                O = scen.Options(self.A, oi, ctx.rng)
                sm = ctx.__dict__.setdefault('small_of', {})
                if other not in sm: sm[other] = O.small(limit=4, maxw=3)
                ov = ctx.rng.choice(sm[other]) if sm[other] else None
                if ov is not None:
                    st = self.A.start(other, ov)
        if ov is None: return
        st = sc.start if ov == sc.opts and other == ctx.info.name else max(0, st)
        yield Scn(sc.opts, sc.n, sc.mode, sc.seed, sc.start, {'other': other, 'oopts': ov, 'ostart': st, 'on': st + ctx.rng.choice([1, 2, 3])})

    def accept_kind(self, v): return v.kind in ('differ', 'special', 'code', 'unwritten', 'leak', 'progress', 'info', 'alloc-mismatch', 'double-free', 'bad-free', 'uaf')

    def feed(self, name, sp, ins, pos, c, start, generic, sz=2):
        k = max(0, pos + c - start) - max(0, pos - start)
        r, o = self.A.stream_run(name, sp, [x[pos:pos + c] for x in ins], k + sz, generic)
        if r != 0: raise Violation('code', f'stream run returns {r}')
        return [[('w', y) if y is not None else None for y in x] for x in o]

    def harness(self, ctx, ex, sc):
        A = self.A; na = ctx.info.name; nb = sc.extra['other']
        ia = scen.series(ex, ctx.info, sc.n, sc.mode, random.Random(sc.seed))
        ib = scen.series(ex, A.infos[nb], sc.extra['on'], 'full' if sc.mode == 'full' and sc.extra['on'] < 7 else 'conc', random.Random(sc.seed + 1), pre='b')
        oa, ob = sc.opts, sc.extra['oopts']; sa, sb = sc.start, sc.extra['ostart']
        n, m = sc.n, sc.extra['on']
        cutA = [[n], [1, n - 1], [n // 2, n - n // 2]][ex.choose(3)] if n > 1 else [n]
        cutB = [[m], [1, m - 1]][ex.choose(2)] if m > 1 else [m]
        order = ex.choose(3)
        seq = {0: 'AB' * 3, 1: 'BA' * 3, 2: 'ABBA' * 2}[order]
        stop = ex.choose(4)         # 0: run to the end; 1: free A before its first chunk; 2: after the first; 3: free B early
        gen = ex.choose(2)
        plan = []
        qa = list(cutA); qb = list(cutB)
        if stop == 1: qa = []
        if stop == 2: qa = qa[:1]
        if stop == 3: qb = qb[:1]
        for ch in seq:
            if ch == 'A' and qa: plan.append(('A', qa.pop(0)))
            if ch == 'B' and qb: plan.append(('B', qb.pop(0)))
        fa = stop != 3            # which stream is freed first
        ctx.case = dict(opts=list(oa), inputs=ia, other=nb, oopts=list(ob), inputs2=ib, plan=plan, starts=[sa, sb], first='A' if fa else 'B', generic=gen)
        solo = {'A': [], 'B': []}
        mine = {'A': [], 'B': []}
        par = {'A': (na, oa, ia, sa), 'B': (nb, ob, ib, sb)}
        try:
            for w in 'AB':
                nm, o, i, s = par[w]
                h0 = len(rt.live_heap())
                c, sp = A.stream_new(nm, o)
                if c != 0: raise PathEnd('rejected')
                pos = 0
                for ww, c in plan:
                    if ww != w: continue
                    solo[w].append(self.feed(nm, sp, i, pos, c, s, False)); pos += c
                A.stream_free(nm, sp)
                ex.stats.obligations += 1; ex.stats.by_simplifier += 1
                if len(rt.live_heap()) != h0: raise Violation('leak', f'{nm}: {len(rt.live_heap()) - h0} blocks left after the stream was freed, first {rt.live_heap()[-1].name}')
            h0 = len(rt.live_heap())
            sp = {}; pos = {'A': 0, 'B': 0}
            for w in 'AB':
                c, sp[w] = A.stream_new(par[w][0], par[w][1])
                if c != 0: raise PathEnd('rejected')
            for w in 'AB': self.state(ex, par[w], sp[w], 0)
            for w, c in plan:
                nm, o, i, s = par[w]
                mine[w].append(self.feed(nm, sp[w], i, pos[w], c, s, bool(gen) and w == 'A')); pos[w] += c
                for x in 'AB': self.state(ex, par[x], sp[x], pos[x])
            for w in ('AB' if fa else 'BA'):
                A.stream_free(par[w][0], sp[w], generic=bool(gen) and w == 'A')
                if w == ('A' if fa else 'B'):
                    v = 'B' if fa else 'A'
                    # the other one goes on living
                    if pos[v] < len(par[v][2][0]):
                        nm, o, i, s = par[v]
                        k = len(i[0]) - pos[v]
                        self.feed(nm, sp[v], i, pos[v], k, s, False); pos[v] += k
                        self.state(ex, par[v], sp[v], pos[v])
            ex.stats.obligations += 1; ex.stats.by_simplifier += 1
            if len(rt.live_heap()) != h0: raise Violation('leak', f'{len(rt.live_heap()) - h0} blocks left after both streams were freed')
        except Violation as v:
            if v.kind in MEMKINDS and not self.accept_kind(v): raise PathEnd('memory')
            raise
        for w in 'AB':
            for k, (x, y) in enumerate(zip(solo[w], mine[w])):
                for j, (p, q) in enumerate(zip(x, y)):
                    for i, (a, b) in enumerate(zip(p, q)):
                        if (a is None) != (b is None): raise Violation('unwritten', f'{par[w][0]} chunk {k} output {j}[{i}] written only by the {"interleaved" if a is None else "lone"} stream')
                        if a is not None: ex.prove_close(b[1], a[1], f'{par[w][0]} chunk {k} output {j}[{i}]: interleaved vs alone', eps=Fr(1, 10**6))

    def state(self, ex, par, sp, pos):
        A = self.A
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1
        p = A.stream_progress(sp)
        if p.__class__ is not int or p != pos - par[3]: raise Violation('progress', f'{par[0]}: progress {p} after {pos} bars, start {par[3]}')
        i = A.fn('ti_stream_get_info')(sp)
        if i.__class__ is not rt.Ptr: raise Violation('info', f'{par[0]}: no info record')
        want = A.infos[par[0]].name
        if A.name_at(i) != want: raise Violation('info', f'{par[0]}: info record of {A.name_at(i)}')

    def judge(self, c):
        na, nb = c['indicator'], c['other']
        sa, sb = c['starts']
        par = {'A': (na, c['opts'], c['inputs'], sa), 'B': (nb, c['oopts'], c['inputs2'], sb)}
        exp = []
        s = ''
        for w, id in (('A', 1), ('B', 2)):
            nm, o, i, st = par[w]
            s += 'mark\n' + native_new(id, nm, o); exp.append(('new', w))
            pos = 0
            for ww, k in c['plan']:
                if ww != w: continue
                s += native_run(id, [x[pos:pos + k] for x in i], max(0, pos + k - st) - max(0, pos - st) + 2); exp.append(('solo', w, pos, k)); pos += k
            s += f'free {id}\nlive\n'; exp += [('freed',), ('live', w)]
        s += 'mark\n' + native_new(3, na, c['opts']) + native_new(4, nb, c['oopts']); exp += [('new', 'A'), ('new', 'B')]
        pos = {'A': 0, 'B': 0}
        id = {'A': 3, 'B': 4}
        def stat():
            nonlocal s
            for w in 'AB':
                if w in id:
                    s += f'progress {id[w]}\ninfo {id[w]}\n'
                    exp.extend([('progress', w, pos[w]), ('info', w)])
        stat()
        for w, k in c['plan']:
            nm, o, i, st = par[w]
            s += native.cmd_run(id[w], [x[pos[w]:pos[w] + k] for x in i], max(0, pos[w] + k - st) - max(0, pos[w] - st) + 2, generic=bool(c['generic']) and w == 'A')
            exp.append(('mine', w, pos[w], k)); pos[w] += k
            stat()
        f, g = c['first'], 'B' if c['first'] == 'A' else 'A'
        gf = lambda w: 'gfree' if c['generic'] and w == 'A' else 'free'
        s += f'{gf(f)} {id[f]}\n'; exp.append(('freed',)); 
        if pos[g] < len(par[g][2][0]):
            nm, o, i, st = par[g]; k = len(i[0]) - pos[g]
            s += native_run(id[g], [x[pos[g]:pos[g] + k] for x in i], max(0, pos[g] + k - st) - max(0, pos[g] - st) + 2); exp.append(('more', g, pos[g], k)); pos[g] += k
            s += f'progress {id[g]}\n'; exp.append(('progress', g, pos[g]))
        s += f'{gf(g)} {id[g]}\nlive\n'; exp += [('freed',), ('live', 'AB')]
        c['script'] = s
        if c['kind'] in ('alloc-mismatch', 'double-free', 'bad-free', 'uaf'):
            rc, out, err = self.replay('asan', s.replace('mark\n', '').replace('live\n', ''))
            return san_error(rc, err), first_error(err)
        rc, out, err = self.replay('release', s)
        got = native.parse(out)
        if rc != 0 and rc != 'timeout' and len(got) < len(exp): return True, f'exit {rc} while running the interleaving'
        solo = {}
        sc = scale_of(c['inputs'], c['inputs2'])
        for e, g in zip(exp, got):
            if e[0] == 'live' and int(g[1]) > 0: return True, f'{g[1]} blocks live after free ({e[1]})'
            if e[0] == 'progress' and int(g[1]) != e[2] - par[e[1]][3]: return True, f'progress {g[1]} after {e[2]} bars with start {par[e[1]][3]}'
            if e[0] == 'info' and g[1] != par[e[1]][0]: return True, f'info {g[1]} for {par[e[1]][0]}'
            if e[0] == 'solo': solo[e[1], e[2]] = g
            if e[0] in ('mine', 'solo', 'more') and g[1] != 0: return True, f'run returns {g[1]}'
            if e[0] == 'mine':
                h = solo[e[1], e[2]]
                for j, (x, y) in enumerate(zip(h[2], g[2])):
                    for a, b in zip(x, y):
                        if differ(a, b, sc): return True, f'{par[e[1]][0]} bars {e[2]}..: alone {a}, interleaved {b}'
        return False, 'native run isolates the streams'


class C07(C01):
    prop = 'C07'
    level = 'model_checking'
    rule = 'One evaluation is one path of a call in which one (symbolically chosen) allocation fails, or none.'
    quick_s = 70
    assumptions = ['exactly one allocation fails', 'bars ordered, prices positive', 'at most ten positions of the failing request per call: the first eight, the middle and the last']

    def expand(self, ctx, sc):
        vs = ['']
        if ctx.info.has_ref: vs.append('_ref')
        if ctx.info.has_stream: vs += ['stream', 'run']
        for v in vs: yield Scn(sc.opts, sc.n, 'conc' if sc.n > 12 or sc.mode != 'full' else sc.mode, sc.seed, sc.start, {'variant': v})
        if sc.n > sc.start > 0 and ctx.rng.random() < .3:
            for v in vs: yield Scn(sc.opts, ctx.rng.randint(0, sc.start), 'conc', sc.seed, sc.start, {'variant': v})

    def accept_kind(self, v): return v.kind in ('oom', 'escape', 'leak', 'null', 'alloc-mismatch', 'double-free', 'bad-free', 'uaf', 'uninit', 'oob-read', 'oob-write')

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; v = sc.extra['variant']; n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed))
        case = dict(opts=list(sc.opts), inputs=ins, variant=v)
        # first run: no failure; count the requests
        ctx.case = dict(case, fail=-1)
        h0 = len(rt.live_heap())
        try:
            r, N = self.go(A, ctx.info, sc, ins, v)
        except rt.CxxExc: 
            raise PathEnd('exception without failure')
        except Violation as w:
            raise PathEnd('memory')
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1
        if r == 2: raise Violation('oom', 'out of memory although no request failed')
        if r != 0 or N == 0: return
        if len(rt.live_heap()) != h0: raise Violation('leak', f'{len(rt.live_heap()) - h0} blocks left after a successful call')
        key = ctx.__dict__.setdefault('allocs', {}); key[v] = max(key.get(v, 0), N)
        idx = list(range(min(N, 8))) + sorted({N - 1, N // 2} - set(range(8)))
        idx = [i for i in idx if i < N]
        f = idx[ex.choose(len(idx))]
        h0 = len(rt.live_heap())
        cnt = [0]
        def hook(sz):
            cnt[0] += 1
            return cnt[0] == f + 1
        ctx.case = dict(case, fail=f)
        try:
            r, _ = self.go(A, ctx.info, sc, ins, v, hook)
        except rt.CxxExc: raise Violation('escape', f'allocation {f} of {N} fails: a C++ exception leaves the {v or "plain"} call')
        except Violation as w:
            raise Violation(w.kind, f'allocation {f} of {N} fails in the {v or "plain"} call: {w.msg}')
        finally: rt.M.alloc_hook = None
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1
        if r != 2: raise Violation('oom', f'allocation {f} of {N} fails but the {v or "plain"} call returns {r}')
        if len(rt.live_heap()) != h0: raise Violation('leak', f'allocation {f} of {N} fails: {len(rt.live_heap()) - h0} blocks left by the {v or "plain"} call')

    def go(self, A, info, sc, ins, v, hook=None):
        """-> (code, requests made by the call in question)"""
        def arm(): rt.M.alloc_hook = hook; return rt.M.allocs
        def off(n0): rt.M.alloc_hook = None; return rt.M.allocs - n0
        if v in ('stream', 'run'):
            if v == 'stream': n0 = arm()
            c, sp = A.stream_new(info.name, sc.opts)
            if v == 'stream': k = off(n0)
            if c != 0: return c, 0 if v == 'run' else k
            if v == 'run':
                start = A.start(info.name, sc.opts)
                n0 = arm()
                c, _ = A.stream_run(info.name, sp, ins, max(0, len(ins[0]) - start))
                k = off(n0)
            A.stream_free(info.name, sp)
            return c, k
        start = A.start(info.name, sc.opts)
        n0 = arm()
        c = A.call(info.name, ins, sc.opts, v, sc.n, start=start)[0]
        return c, off(n0)

    def judge(self, c):
        n = c['indicator']; v = c['variant']; f = c['fail']
        start = self.native_start(n, c['opts'])
        if v == 'run':
            s = 'mark\n' + native_new(1, n, c['opts']) + f'failat {f + 1}\n' + native_run(1, c['inputs'], max(0, len(c['inputs'][0]) - start)) + 'failat 0\nfree 1\nlive\n'
        else:
            body = native_new(1, n, c['opts']) if v == 'stream' else native_call(n, v[1:], c['inputs'], c['opts'], max(0, len(c['inputs'][0]) - start))
            s = f'failat {f + 1}\nmark\n' + body + 'failat 0\nlive\n'
            if f < 0 and v == 'stream': s = f'mark\n' + body + 'free 1\nlive\n'
        c['script'] = s
        rc, out, err = self.replay('release', s)
        got = native.parse(out)
        if not got: return rc not in (0, 'timeout'), f'native exit {rc}'
        r = [g for g in got if g[0] in ('ret', 'escaped')]
        if v == 'run' and len(r) < 2: return rc not in (0, 'timeout'), f'native exit {rc}'
        r = r[1 if v == 'run' else 0]
        if r[0] == 'escaped': return True, 'a C++ exception escapes'
        if rc != 0: return True, f'native exit {rc}'
        if f < 0: 
            live = [g for g in got if g[0] == 'live']
            return r[1] == 2 or (live and int(live[0][1]) > 0), f'code {r[1]}, {live}'
        if r[1] != 2: return True, f'request {f} fails, code {r[1]}'
        live = int([g for g in got if g[0] == 'live'][-1][1])
        return live > 0, f'code {r[1]}, {live} blocks left'


class C16(C01):
    prop = 'C16'
    rule = 'One evaluation is one path of a call, another call (another indicator or variant), and the first call again.'
    quick_s = 70
    assumptions = C04.assumptions + ['any write to a global object outside static initialisation is a violation']

    def expand(self, ctx, sc):
        vs = ['']
        if ctx.info.has_ref: vs.append('_ref')
        if ctx.info.has_stream: vs.append('stream')
        names = list(self.A.infos)
        for v in vs:
            oth = ctx.info.name if ctx.rng.random() < .4 else ctx.rng.choice(names)
            yield Scn(sc.opts, sc.n, sc.mode, sc.seed, sc.start, {'variant': v, 'other': oth})

    def accept_kind(self, v): return v.kind in ('state', 'ro-write', 'differ', 'special', 'code', 'unwritten')

    def once(self, name, ins, o, v, start):
        A = self.A
        if v == 'stream':
            c, sp = A.stream_new(name, o)
            if c: return c, []
            n = len(ins[0])
            r, outs = A.stream_run(name, sp, ins, max(0, n - start))
            A.stream_free(name, sp)
            return r, outs
        c, outs, _ = A.call(name, ins, o, v, len(ins[0]), max(0, len(ins[0]) - start))
        return c, outs

    def harness(self, ctx, ex, sc):
        A = self.A; name = ctx.info.name; v = sc.extra['variant']; n = sc.n
        ins = scen.series(ex, ctx.info, n, sc.mode, random.Random(sc.seed))
        oth = A.infos[sc.extra['other']]
        if oth.name == name: o2 = sc.opts
        else:
            o2 = tuple(3 if scen.is_window(x) else 1 for x in oth.option_names[:oth.options])
        rr = random.Random(sc.seed + 5)
        in2 = scen.concrete(oth.input_names[:oth.inputs], 12, rr)
        mid = [None, '', '_ref'][ex.choose(3)] if oth.has_ref else [None, ''][ex.choose(2)]
        ctx.case = dict(opts=list(sc.opts), inputs=ins, variant=v, mid=mid, other=oth.name, oopts=list(o2), inputs2=in2, start=sc.start)
        def onw(o, off): raise Violation('state', f'write to {o.kind} {o.name} at offset {off}')
        rt.M.on_global_write = onw
        try:
            c1, o1 = self.once(name, ins, sc.opts, v, sc.start)
            if mid is not None:
                try: self.once(oth.name, in2, o2, mid, A.start(oth.name, o2) if oth.options == 0 or True else 0)
                except Violation as w:
                    if w.kind in MEMKINDS and w.kind != 'ro-write': raise PathEnd('memory in the other call')
                    raise
            c2, r2 = self.once(name, ins, sc.opts, v, sc.start)
        except Violation as w:
            if w.kind in MEMKINDS and w.kind != 'ro-write': raise PathEnd('memory')
            raise
        finally: rt.M.on_global_write = None
        ex.stats.obligations += 1; ex.stats.by_simplifier += 1
        if c1 != c2: raise Violation('code', f'{c1} first, {c2} again')
        if c1 == 0: outs_equal(ex, o1, r2, 'first', 'again')

    def judge(self, c):
        n = c['indicator']; v = c['variant']; size = len(c['inputs'][0])
        def body(nm, o, i, v, start, id):
            if v == 'stream': return native_new(id, nm, o) + native_run(id, i, max(0, len(i[0]) - start)) + f'free {id}\n'
            return native_call(nm, v[1:], i, o, max(0, len(i[0]) - start))
        b = body(n, c['opts'], c['inputs'], v, c['start'], 1)
        mid = body(c['other'], c['oopts'], c['inputs2'], c['mid'], self.native_start(c['other'], c['oopts']), 2) if c['mid'] is not None else ''
        s = 'snap\n' + b + 'snapdiff\n' + mid + b + 'snapdiff\n'
        c['script'] = s
        if c['kind'] == 'ro-write':
            rc, out, err = self.replay('release', s.replace('snap\n', '').replace('snapdiff\n', ''))
            i = [l for l in out if l.startswith('input-modified')]
            return bool(i), str(i[:1] or 'inputs and options unchanged')
        rc, out, err = self.replay('release', s)
        got = native.parse(out)
        if c['kind'] == 'state':
            d = [int(g[1]) for g in got if g[0] == 'snapdiff']
            return any(d), f'{d} bytes of static data changed'
        rets = [g for g in got if g[0] == 'ret']
        k = 2 if v == 'stream' else 1
        a, z = rets[k - 1], rets[-1]
        if a[1] != z[1]: return True, f'codes {a[1]}, then {z[1]}'
        sc = scale_of(c['inputs'])
        for x, y in zip(a[2], z[2]):
            for p, q in zip(x, y):
                if differ(p, q, sc): return True, f'{p} first, {q} again'
        return False, 'same result'
