"""C13, C14: lookup by name, truthfulness of the registry."""
import yaml
from .core import *
from . import defs
from engine.rt import Obj, Ptr, UNDEF

FIELDS = ('start', 'indicator', 'indicator_ref', 'stream_new', 'stream_run', 'stream_free')
SUFFIX = ('_start', '', '_ref', '_stream_new', '_stream_run', '_stream_free')
TYPES = {'overlay': 1, 'indicator': 2, 'math': 3, 'simple': 4, 'comparative': 5}


class C13(C01):
    prop = 'C13'
    rule = 'One evaluation is one path of the lookup over a string of symbolic characters of one length, or one pair of neighbouring records.'
    quick_s = 45
    assumptions = ['strings of up to 24 characters, each any byte but NUL, in a block that ends with their NUL']

    def setup(self):
        super().setup()
        self.names = [x.name for x in api.read_infos(self.prog)]

    def tasks(self):
        m = max(len(n) for n in self.names if n)
        top = m + 2 if self.tier == 'quick' else max(24, m + 8)
        return [('table', None)] + [(f'length {k}', k) for k in range(0, top + 1)] + [(f'history {k}', k) for k in range(0, top + 1)]

    def changed(self): return set()

    def work(self, name, params, deadline):
        res = Result(name)
        rng = random.Random(f'{self.seed}-{name}')
        ctx = Ctx(self, None, rng, res, [k for k in known_findings() if k['property'] == 'C13' and k['status'] == 'known'], deadline)
        self.run_scenario(ctx, Scn((), params or 0, 'table' if params is None else 'history' if name.startswith('hist') else 'chars', 1, 0))
        res.fns = sorted(set(self.prog.compiled)); res.ninstr = self.prog.ninstr
        return res

    def slice(self, ctx, sc): return ctx.deadline - time.time()
    def accept_kind(self, v): return True

    def harness(self, ctx, ex, sc):
        A = self.A
        n = sc.n
        if sc.mode == 'table':
            ctx.case = dict(table=1)
            c = A.fn('ti_indicator_count')()
            st = ex.stats
            recs = self.names
            st.obligations += 1; st.by_simplifier += 1
            if c.__class__ is not int or len(recs) != c + 1 or recs[-1] is not None or any(r is None for r in recs[:-1]):
                raise Violation('table', f'{len(recs)} records, count {c}, the last is {recs[-1]}')
            # any two neighbours are in strictly ascending order (so names are unique): the index is the universally quantified variable
            i = ex.choose(c - 1)
            st.obligations += 1; st.by_simplifier += 1
            if not recs[i].encode() < recs[i + 1].encode(): raise Violation('table', f'{recs[i]} before {recs[i + 1]}')
            return
        chars = [ex.int(f'c{i}', -128, 127) for i in range(n)]
        ctx.case = dict(chars=chars)
        for c in chars: ex.assume(c, NEG | POS)
        if sc.mode == 'history':
            # other names were looked up before
            rng = random.Random(f'{self.seed}-{n}')
            known = [x for x in self.names if x]
            same = [x for x in known if len(x) == n]
            before = [[rng.choice(same or known)], [known[0]], [known[-1]], [rng.choice(known), rng.choice(known)], [rng.choice(known) + 'x'], ['']][ex.choose(6)]
            ctx.case['before'] = before
            for x in before:
                b = Obj(len(x) + 1, UNDEF, 'string', 'earlier name')
                for i, c in enumerate(x): b.cells[i] = (1, ord(c))
                b.cells[len(x)] = (1, 0); b.ro = 'input'
                A.fn('ti_find_indicator')(Ptr(b, 0))
        o = Obj(n + 1, UNDEF, 'string', 'name')
        for i, c in enumerate(chars): o.cells[i] = (1, c)
        o.cells[n] = (1, 0); o.ro = 'input'
        r = A.fn('ti_find_indicator')(Ptr(o, 0))
        if r.__class__ is int:
            if r != 0: raise Violation('lookup', 'the result is no pointer')
            for nm in self.names:
                if nm is not None and len(nm) == n:
                    try: ex.refute([(c - ord(x), ZERO) for c, x in zip(chars, nm)], f'{nm} is not found')
                    except Violation as w: raise Violation('lookup', w.msg)
            return
        if r.__class__ is not Ptr or r.obj.name != 'ti_indicators' or r.off % 320: raise Violation('lookup', f'the result {r!r} is no record')
        nm = A.name_at(r)
        if nm is None: raise Violation('lookup', 'the terminator is returned')
        if len(nm) != n: raise Violation('lookup', f'{nm} is returned for a string of {n} characters')
        for c, x in zip(chars, nm):
            try: ex.prove(c - ord(x), ZERO, f'{nm} is returned for another string')
            except Violation as w: raise Violation('lookup', w.msg)

    def judge(self, c):
        if c.get('table'):
            rc, out, err = self.replay('release', 'table\n')
            w = out[0].split()[1:]
            k = int(w[0]); nm = w[1:]
            bad = len(nm) != k + 1 or nm[-1] != '(null)' or '(null)' in nm[:-1] or any(not a.encode() < b.encode() for a, b in zip(nm[:-2], nm[1:-1])) or len(nm) != len(self.names)
            c['kind'] = 'table'
            return bad, f'count {k}; ' + str([(a, b) for a, b in zip(nm[:-2], nm[1:-1]) if not a.encode() < b.encode()][:2])
        ch = [int(x) for x in c['chars']]
        s = ''
        for x in c.get('before') or []: s += f'find {len(x)} ' + ' '.join(str(ord(k)) for k in x) + '\n'
        s += f'find {len(ch)} ' + ' '.join(map(str, ch)) + '\n'
        c['script'] = s
        b = bytes(x & 255 for x in ch)
        rc, out, err = self.replay('asan', s)
        if san_error(rc, err): return True, first_error(err)
        fl = [l for l in out if l.startswith('find ')]
        got = fl[-1].split(None, 1)[1] if fl else '?'
        rc, o2, err = self.replay('release', 'table\n')
        table = o2[0].split()[2:]
        want = b.decode('latin1') if b.decode('latin1') in table else '(none)'
        return got != want, f'looking up {b!r} gives {got}, expected {want}'


def yaml_info(src):
    r = {}
    for k, v in yaml.safe_load(open(f'{src}/indicators.yaml', encoding='utf8')).items():
        full, typ, ins, opts, outs, feat = v[:6]
        r[str(k)] = dict(full=str(full), type=TYPES.get(typ), inputs=[str(x) for x in ins], options=[str(x) for x in opts], outputs=[str(x) for x in outs], features=feat)
    return r


class C14(C01):
    prop = 'C14'
    rule = 'One evaluation is one path of a call with the read and write footprint of every argument array recorded.'
    quick_s = 70
    max_scn = 40
    assumptions = C04.assumptions + ['reading an input or option means a load the compiler cannot drop; options are read by start, the plain function or the stream constructor']

    def setup(self):
        super().setup()
        self.yaml = yaml_info(self.src)
        self.gen()

    def changed(self): return set()

    def gen(self):
        """C source that compares each record with the symbols of the objects and the declaration in indicators.yaml"""
        s = ['#include "indicators.h"', '#include <string.h>']
        body = []
        q = lambda x: '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
        self.exp = {}
        for n in self.A.infos:
            y = self.yaml.get(n)
            e = [f'ti_{n}{suf}' if self.prog.has(f'ti_{n}{suf}') else None for suf in SUFFIX]
            self.exp[n] = e
            b = [f'  if (!strcmp(n, {q(n)})) {{ ']
            for f, x in zip(FIELDS, e):
                if x:
                    s.append(f'extern char vp_{x} __asm__("{x}");')
                    b.append(f'if ((const void*)r->{f} != (const void*)&vp_{x}) return "{f}"; ')
                else: b.append(f'if (r->{f}) return "{f}"; ')
            if y is None: b.append('return "undeclared"; ')
            else:
                b.append(f'if (!r->full_name || strcmp(r->full_name, {q(y["full"])})) return "full_name"; if (r->type != {y["type"]}) return "type"; ')
                for k in ('inputs', 'options', 'outputs'):
                    b.append(f'if (r->{k} != {len(y[k])}) return "{k}"; ')
                    kk = k[:-1] + '_names'
                    for i, x in enumerate(y[k]): b.append(f'if (!r->{kk}[{i}] || strcmp(r->{kk}[{i}], {q(x)})) return "{kk}"; ')
                    if len(y[k]) < 10: b.append(f'if (r->{kk}[{len(y[k])}]) return "{kk}"; ')
            b.append('return "ok"; }')
            body.append(''.join(b))
        s.append('const char *vp_regcheck(const char *n) { const struct ti_indicator_info *r; for (r = ti_indicators; r->name; ++r) if (!strcmp(r->name, n)) break; if (!r->name) return "missing";')
        s += body
        s.append('return "unknown"; }')
        p = f'{self.dir}/vpreg.c'
        open(p, 'w').write('\n'.join(s) + '\n')
        self.native.extra = [p]

    def tasks(self):
        return [(n, None) for n in self.A.infos] + [('(declarations)', None)]

    def work(self, name, params, deadline):
        if name == '(declarations)':
            res = Result(name)
            for n in self.yaml:
                if n not in self.A.infos: self.add(res, dict(indicator=n, kind='record', msg=f'{n} is declared in indicators.yaml and absent from the registry'))
            res.reached = 1
            return res
        self.foot = {}
        self.record_checked = False
        res = super().work(name, params, deadline)
        if res.cands: return res
        info = self.A.infos[name]
        for v, f in self.foot.items():
            if f['paths'] < 3 or f['accepted'] < 1: continue
            what = [('input', i, info.input_names[i]) for i in range(info.inputs) if i not in f['in']] + [('option', i, info.option_names[i]) for i in range(info.options) if i not in f['opt']]
            for w, i, nm in what:
                res.stats.obligations += 1
                self.add(res, dict(indicator=name, kind='unread', what=w, index=i, variant=v, msg=f'{v or "plain"}: {w} {i} ({nm}) is never read on {f["paths"]} paths', sample=f['sample']))
        return res

    def add(self, res, c):
        c['property'] = 'C14'
        res.replays += 1
        try: ok, why = self.judge(c)
        except Exception as e: ok, why = False, f'judge: {type(e).__name__} {e}'
        c['confirmed' if ok else 'why'] = why
        (res.cands if ok else res.unconfirmed).append(c)

    def expand(self, ctx, sc):
        vs = ['']
        if ctx.info.has_ref: vs.append('_ref')
        if ctx.info.has_stream: vs.append('stream')
        if ctx.info.name in defs.D.d and any(defs.roles(ctx.info)): vs.append('names')
        for v in vs: yield Scn(sc.opts, sc.n, sc.mode, sc.seed, sc.start, {'variant': v})

    def accept_kind(self, v): return v.kind in ('record', 'arity', 'unfilled', 'names')

    def run_scenario(self, ctx, sc):
        r = super().run_scenario(ctx, sc)
        inf = ctx.info
        need = lambda f: set(range(inf.inputs)) <= f['in'] and set(range(inf.options)) <= f['opt']
        # nothing left to find once everything was read and a handful of shapes were run
        if ctx.res.nscn >= 9 and all(need(f) for f in self.foot.values()) and not (inf.name in defs.D.d and any(defs.roles(inf))): return False
        return r

    def harness(self, ctx, ex, sc):
        A = self.A; info = ctx.info; name = info.name; v = sc.extra['variant']; n = sc.n
        st = ex.stats
        if v == 'names':
            # the record names its arguments in another order than the published definition: does the code, too?
            try: return defs.C09.harness(self, ctx, ex, sc)
            except Violation as w: raise Violation('names', f'arguments taken by the names in the record: {w}')
        ctx.case = dict(opts=list(sc.opts), inputs=None, variant=v)
        if not self.record_checked:
            self.record_checked = True
            for f, e, p in zip(FIELDS, self.exp[name], (info.start_p, info.plain_p, info.ref_p, info.snew_p, info.srun_p, info.sfree_p)):
                st.obligations += 1; st.by_simplifier += 1
                got = p.obj.name if p.__class__ is Ptr else None
                if got != e: raise Violation('record', f'the record of {name} has {f} = {got}, the library defines {e}')
            y = self.yaml.get(name)
            if y is None: raise Violation('record', f'{name} is registered without being declared')
            for k, d in (('inputs', info.input_names), ('options', info.option_names), ('outputs', info.output_names)):
                st.obligations += 1; st.by_simplifier += 1
                if getattr(info, k) != len(y[k]) or [x for x in d if x is not None] != y[k]: raise Violation('record', f'{k} of {name}: {getattr(info, k)} {d}, declared {y[k]}')
            if info.type != y['type'] or info.full_name != y['full']: raise Violation('record', f'{name}: type {info.type}, full name {info.full_name}')
        ins = scen.series(ex, info, n, sc.mode, random.Random(sc.seed))
        ctx.case['inputs'] = ins
        f = self.foot.setdefault(v, {'in': set(), 'opt': set(), 'paths': 0, 'accepted': 0, 'sample': None})
        op = A.darray(list(sc.opts), 'options', 'options'); op.reads = set()
        iobj = [A.darray(x, f'input {k}', 'input') for k, x in enumerate(ins)]
        for o in iobj: o.reads = set()
        ia = A.parray([Ptr(o, 0) for o in iobj], 'inputs'); ia.reads = set()
        start = A.fn(f'ti_{name}_start')(Ptr(op, 0))
        k = max(0, n - rt.CI(start))
        outs = [Obj(8 * k, UNDEF, 'array', f'output {j}') for j in range(info.outputs)]
        oa = A.parray([Ptr(o, 0) for o in outs], 'outputs')
        try:
            if v == 'stream':
                s = Obj(8, UNDEF, 'stack', 'stream pointer'); s.cells[0] = (8, 0)
                c = A.fn(f'ti_{name}_stream_new')(Ptr(op, 0), Ptr(s, 0))
                if c == 0:
                    c = A.fn(f'ti_{name}_stream_run')(s.cells[0][1], n, Ptr(ia, 0), Ptr(oa, 0))
                    A.stream_free(name, s.cells[0][1])
            else: c = A.fn(f'ti_{name}{v}')(n, Ptr(ia, 0), Ptr(op, 0), Ptr(oa, 0))
        except Violation as w:
            if w.kind in ('oob-read', 'oob-write') and re.search(r'of (pointer array (inputs|outputs)|array options) ', w.msg): raise Violation('arity', w.msg)
            if w.kind == 'uninit' : raise PathEnd('memory')
            raise PathEnd('memory')
        f['opt'] |= {x // 8 for x in op.reads}
        f['in'] |= {i for i, o in enumerate(iobj) if o.reads}
        f['paths'] += 1
        if c == 0 and k:
            f['accepted'] += 1
            if f['sample'] is None: f['sample'] = ([float(x) for x in sc.opts], n)
            for j, o in enumerate(outs):
                st.obligations += 1; st.by_simplifier += 1
                if not o.cells: raise Violation('unfilled', f'output {j} ({info.output_names[j]}) is not filled although {k} values are due')

    def judge(self, c):
        n = c['indicator']
        if c['kind'] == 'names':
            ok, why = defs.C09.judge(self, c)
            return ok, 'with the arguments in the order the record names them: ' + why
        if c['kind'] == 'record':
            rc, out, err = self.replay('release', f'reg {n}\n')
            return out[0].split()[-1] != 'ok', out[0]
        info = self.A.infos[n]
        v = c['variant']
        def body(o, i, start):
            k = max(0, len(i[0]) - start)
            return native_new(1, n, o) + native_run(1, i, k) + 'free 1\n' if v == 'stream' else native_call(n, v[1:], i, o, k)
        if c['kind'] in ('arity', 'unfilled'):
            s = body(c['opts'], c['inputs'], self.native_start(n, c['opts']))
            c['script'] = s
            if c['kind'] == 'arity':
                rc, out, err = self.replay('asan', s)
                return san_error(rc, err), f'sanitizer build exit {rc}: {first_error(err)}'
            rc, out, err = self.replay('release', s)
            r = [g for g in native.parse(out) if g[0] == 'ret'][-1]
            return r[1] == 0 and any(x and all(y is None for y in x) for x in r[2]), f'outputs {r[2]}'
        # unread: no change of the argument changes anything
        o, size = c['sample']
        size += 24
        rng = random.Random(3)
        base = [[float(x) for x in r] for r in scen.concrete(info.input_names[:info.inputs], size, rng)]
        ref = None
        i = c['index']
        def result(o, ins):
            st = self.native_start(n, o)
            rc, out, err = self.replay('release', body(o, ins, st) if 0 <= st < 10000 else 'mark\n')
            return rc, st, out
        ref = result(o, base)
        for t in range(6):
            ins = [list(r) for r in base]; oo = list(o)
            if c['what'] == 'input': ins[i] = [x + rng.choice([-1, 1, 5, 1000, -3000]) * rng.random() for x in ins[i]] if t < 5 else [math.nan] * size
            else: oo[i] = [o[i] + 1, o[i] + 3, o[i] - 1, -5, o[i] + .5, 0][t]
            if result(oo, ins) != ref: return False, f'changing {c["what"]} {i} changes the result'
        return True, f'no change of {c["what"]} {i} changes the result of the {v or "plain"} function'
