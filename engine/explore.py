"""Path exploration: re-execution with decision prefixes, z3 for feasibility and for final assertions."""
import time, random, math
from fractions import Fraction
import z3
from . import terms as T
from .terms import Poly, NEG, ZERO, POS, ALL, ATOMS, UNDEF

REL = {'<': NEG, '<=': NEG | ZERO, '==': ZERO, '!=': NEG | POS, '>': POS, '>=': POS | ZERO}


class PathEnd(Exception):
    """this path is outside the claim (assumption violated or cut)"""


class Budget(Exception):
    pass


class EngineError(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg, info=None):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind; self.msg = msg; self.info = info


class Entry:
    __slots__ = ('kind', 'key', 'r', 'mask', 'taken', 'z', 'n')
    def __init__(s, kind, key, r, mask, taken):
        s.kind = kind; s.key = key; s.r = r; s.mask = mask; s.taken = taken; s.z = None; s.n = None


_ctx = z3.main_ctx()
_rv = {}
def _num(n):
    v = _rv.get(n)
    if v is None:
        v = _rv[n] = z3.RealVal(n)
        if len(_rv) > 200000: _rv.clear(); _rv[n] = v
    return v


def zatom(a):
    at = ATOMS[a]
    z = at.z
    if z is None:
        if at.isint:
            z = z3.ToReal(z3.Int(f'i{a}'))
        else:
            z = z3.Real(f'r{a}')
        at.z = z
    return z


class Stats:
    def __init__(s):
        s.paths = 0; s.queries = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.solver_s = 0.0
        s.obligations = 0; s.by_solver = 0; s.by_simplifier = 0; s.undecided = 0; s.unsupported = 0
        s.branches = 0
    def add(s, o):
        for k, v in vars(o).items(): setattr(s, k, getattr(s, k) + v)
    def dict(s): return dict(vars(s))


class Ex:
    def __init__(self, seed=1, timeout_ms=300, assert_timeout_ms=2000, max_paths=10**9, deadline=None, stats=None):
        T.reset()
        self.rng = random.Random(seed)
        self.stats = stats or Stats()
        self.timeout = timeout_ms
        self.assert_timeout = assert_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline or time.time() + 3600
        self.solver = z3.SimpleSolver() if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.frames = []        # entries pushed
        self.marks = []         # per frame: number of declared atoms before
        self.declared = []      # atoms whose definition/bounds are asserted (stack)
        self.decl_set = set()
        self.pending = []
        self.violations = []
        self.exhausted = False
        self.abandoned = 0      # alternatives dropped because the solver could not decide them (unknown)
        self.pick_random = False
        self.init_model = None
        self.max_violations = 4
        self.nonlinear = 0
        self.div_policy = 'fork'   # fork | assume
        self.fork_specials = True

    # ------------------------------------------------------------ symbols
    def real(self, name, lo=None, hi=None):
        p = T.var(name, False, lo, hi)
        (m, _), = p.t.items()
        a = m[0][0]
        if a not in self.model: self.model[a] = self._rand(lo, hi)
        return p

    def int(self, name, lo, hi):
        p = T.var(name, True, lo, hi)
        (m, _), = p.t.items()
        a = m[0][0]
        if a not in self.model: self.model[a] = self.rng.randint(lo, hi)
        return p

    def _rand(self, lo, hi):
        lo = -20 if lo is None else max(lo, -20) if (hi is None or hi > -20) else lo
        hi = 20 if hi is None else min(hi, max(20, lo + 20))
        l = math.ceil(lo * 4); h = math.floor(hi * 4)
        if h <= l: return Fraction(lo + hi) / 2
        return Fraction(self.rng.randint(l, h), 4)

    # ------------------------------------------------------------ z3 translation
    def zpoly(self, p, need):
        """numerator polynomial (denominator of p ignored must be handled by the caller)"""
        args = []
        for m, c in p.t.items():
            f = []
            if c != 1 or not m: f.append(_num(c))
            for a, e in m:
                need.add(a)
                if e > 0:
                    z = zatom(a)
                    for _ in range(e): f.append(z)
                else:
                    z = self.zinv(a, need)
                    for _ in range(-e): f.append(z)
            args.append(f[0] if len(f) == 1 else z3.Product(*f))
        return args[0] if len(args) == 1 else z3.Sum(*args)

    def zinv(self, a, need):
        need.add(('inv', a))
        return z3.Real(f'v{a}')

    def zfull(self, p, need):
        if p.__class__ is not Poly:
            f = Fraction(p)
            return z3.RealVal(f'{f.numerator}/{f.denominator}')
        z = self.zpoly(p, need)
        if p.den != 1: z = z / _num(p.den)
        return z

    def declare(self, need):
        todo = [a for a in need if a not in self.decl_set]
        while todo:
            a = todo.pop()
            if a in self.decl_set: continue
            self.decl_set.add(a); self.declared.append(a)
            cs = []
            n2 = set()
            if isinstance(a, tuple):
                cs.append(zatom(a[1]) * z3.Real(f'v{a[1]}') == 1)
                self.nonlinear += 1
                n2.add(a[1])
            else:
                at = ATOMS[a]
                z = zatom(a)
                if at.kind in ('var', 'ivar'):
                    if at.lo is not None: cs.append(z >= self.zfull(at.lo, n2))
                    if at.hi is not None: cs.append(z <= self.zfull(at.hi, n2))
                elif at.kind == 'def':
                    cs.append(z == self.zfull(at.poly, n2))
                elif at.kind == 'sqrt':
                    cs.append(z >= 0)
                    cs.append(z * z == self.zfull(at.poly, n2))
                elif at.kind == 'floor':
                    f = self.zfull(at.poly, n2)
                    cs.append(z <= f); cs.append(f < z + 1)
                elif at.kind == 'uf':
                    if at.sign != ALL: cs.append(_zmask(z, at.sign))
                    if at.name in ('sin', 'cos'): cs.append(z <= 1); cs.append(z >= -1)
                    if at.name == 'tanh': cs.append(z < 1); cs.append(z > -1)
                    if at.name == 'atan': cs.append(z < _num(2)); cs.append(z > _num(-2))
            for c in cs:
                if c is True or c is False: continue
                self.solver.add(c)
            for x in n2:
                if x not in self.decl_set: todo.append(x)

    def zentry(self, e, need):
        m = e.mask if e.taken else (ALL & ~e.mask)
        return _zmask(self.zpoly(e.r, need), m)

    def _push(self, e):
        self.solver.push()
        self.marks.append(len(self.declared))
        self.frames.append(e)
        if e is not None and e.kind == 'c':
            need = set()
            z = self.zentry(e, need)
            self.declare(need)
            self.solver.add(z)

    def _pop(self):
        self.solver.pop()
        n = self.marks.pop()
        for a in self.declared[n:]: self.decl_set.discard(a)
        del self.declared[n:]
        self.frames.pop()

    def sync(self, entries):
        es = [e for e in entries if e.kind == 'c']
        fr = self.frames
        i = 0
        n = min(len(fr), len(es))
        while i < n and fr[i] is es[i]: i += 1
        while len(fr) > i: self._pop()
        for e in es[i:]: self._push(e)

    def check(self, timeout=None):
        t0 = time.time()
        if timeout is not None and timeout != self.timeout: self.solver.set('timeout', timeout)
        try:
            r = self.solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        if timeout is not None and timeout != self.timeout: self.solver.set('timeout', self.timeout)
        s = self.stats
        s.queries += 1
        s.solver_s += time.time() - t0
        if r == z3.sat: s.sat += 1
        elif r == z3.unsat: s.unsat += 1
        else: s.unknown += 1
        return r

    def get_model(self):
        m = self.solver.model()
        new = dict(self.model)
        for d in m.decls():
            n = d.name()
            if n[0] not in 'ri' or not n[1:].isdigit(): continue
            a = int(n[1:])
            if ATOMS[a].kind not in ('var', 'ivar'): continue
            v = m[d]
            if z3.is_rational_value(v): new[a] = T.const_norm(v.as_fraction())
            elif z3.is_int_value(v): new[a] = v.as_long()
            elif z3.is_algebraic_value(v):
                new[a] = v.approx(15).as_fraction()
        return new

    # ------------------------------------------------------------ knowledge
    def know(self, a):
        at = ATOMS[a]
        if at.kind == 'def':
            return self.K.get(at.poly.key(), ALL)
        return self.asign.get(a, ALL)

    def canon(self, p):
        """-> (primitive Poly or const, sign)"""
        q, s = T.clear(p, self.know)
        if q.__class__ is not Poly: return q, s
        r, n, d = q.prim()
        if n < 0: s = -s
        if len(r.t) == 1:
            # single monomial: reduce to odd part
            (m, c), = r.t.items()
            if len(m) == 1 and m[0][1] > 1:
                a, e = m[0]
                if e % 2: r = Poly({((a, 1),): 1}, 1)
        # a lone def atom stands for its polynomial
        if len(r.t) == 1:
            (m, c), = r.t.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1 and ATOMS[m[0][0]].kind == 'def':
                r2, s2 = self.canon(ATOMS[m[0][0]].poly)
                return r2, s * s2
        return r, s

    def mask_of(self, r):
        k = self.K.get(r.key(), ALL)
        if k & (k - 1) == 0: return k
        k &= T.quick_sign(r, self.Kd)
        return k

    def learn(self, r, allowed):
        self.K[r.key()] = allowed
        if len(r.t) == 1:
            (m, c), = r.t.items()
            if len(m) == 1 and m[0][1] == 1:
                self.asign[m[0][0]] = allowed

    def eval_mask(self, r):
        v = self.ev(r)
        if v.__class__ is float:
            if v != v: return 0
            if abs(v) < 1e-9: return 0
            return POS if v > 0 else NEG
        return POS if v > 0 else NEG if v < 0 else ZERO

    # ------------------------------------------------------------ decisions
    def branch(self, p, mask, note=None):
        """fork on sign(p) in mask"""
        if p.__class__ is not Poly:
            if p.__class__ is float:
                if p != p: return mask == (NEG | POS)
            return bool((POS if p > 0 else NEG if p < 0 else ZERO) & mask)
        r, s = self.canon(p)
        if r.__class__ is not Poly:
            v = r * s
            return bool((POS if v > 0 else NEG if v < 0 else ZERO) & mask)
        if s < 0: mask = T._flip[mask]
        k = self.mask_of(r)
        if not k & mask: return False
        if not k & ~mask: return True
        i = self.pos
        key = r.key()
        if i < len(self.prefix):
            e = self.prefix[i]
            if e.kind != 'c' or e.key != key or e.mask != mask:
                raise EngineError(f'nondeterministic re-execution at {i}')
            self.pos = i + 1
            self.trace.append(e)
            self.learn(r, k & (mask if e.taken else ALL & ~mask))
            return e.taken
        self.stats.branches += 1
        if time.time() > self.deadline: raise Budget()
        m = self.eval_mask(r)
        if m == 0:
            taken = self._solve_side(r, key, mask)
        else:
            taken = bool(m & mask)
        e = Entry('c', key, r, mask, taken)
        o = Entry('c', key, r, mask, not taken)
        e.n = o.n = note
        self.pending.append((self.trace + [o], self.model))
        self.trace.append(e)
        self.pos = i + 1
        self.learn(r, k & (mask if taken else ALL & ~mask))
        return taken

    def _solve_side(self, r, key, mask):
        self.sync(self.trace)
        for side in (True, False):
            self._push(Entry('c', key, r, mask, side))
            res = self.check()
            if res == z3.sat:
                self.model = self.get_model(); self.ev = T.Evaluator(self.model)
                self._pop()
                return side
            self._pop()
        return True

    def choose(self, n, label='choice'):
        """nondeterministic choice 0..n-1"""
        if n <= 1: return 0
        i = self.pos
        if i < len(self.prefix):
            e = self.prefix[i]
            if e.kind != 'n': raise EngineError('nondeterministic re-execution (choice)')
            self.pos = i + 1
            self.trace.append(e)
            return e.taken
        for v in range(n - 1, 0, -1):
            self.pending.append((self.trace + [Entry('n', label, None, n, v)], self.model))
        self.trace.append(Entry('n', label, None, n, 0))
        self.pos = i + 1
        return 0

    def assume(self, p, mask):
        if isinstance(mask, str): mask = REL[mask]
        if p.__class__ is not Poly:
            if not self.branch(p, mask): raise PathEnd('assume')
            return
        r, s = self.canon(p)
        if r.__class__ is not Poly:
            if not self.branch(p, mask): raise PathEnd('assume')
            return
        if s < 0: mask = T._flip[mask]
        k = self.mask_of(r)
        if not k & mask: raise PathEnd('assume')
        if not k & ~mask: return
        i = self.pos
        if i < len(self.prefix):
            e = self.prefix[i]
            if e.kind != 'c': raise EngineError('nondeterministic re-execution (assume)')
            self.pos = i + 1
            self.trace.append(e)
        else:
            e = Entry('c', r.key(), r, mask, True)
            m = self.eval_mask(r)
            self.trace.append(e)
            self.pos = i + 1
            if not m & mask:
                self.sync(self.trace)
                res = self.check(self.assert_timeout)
                if res == z3.sat:
                    self.model = self.get_model(); self.ev = T.Evaluator(self.model)
                else:
                    raise PathEnd('assume-' + str(res))
        self.learn(r, k & mask)

    def concretize(self, p, what='int'):
        """fork until integer-valued p is a constant"""
        for _ in range(200):
            if p.__class__ is not Poly: return p
            i = self.pos
            if i < len(self.prefix) and self.prefix[i].n is not None:
                v = self.prefix[i].n
            else:
                v = self.ev(p)
                if v != v or abs(v) == T.INF: raise T.Unsupported('concretize nan')
                v = math.floor(v)
            if self.branch(p - v, ZERO, v): return v
        raise T.Unsupported('concretize loop')

    def trunc(self, p):
        """C truncation of a symbolic real: forks on the integer part"""
        for _ in range(200):
            i = self.pos
            if i < len(self.prefix) and self.prefix[i].n is not None:
                v = self.prefix[i].n[0]
            else:
                v = self.ev(p)
                if v != v or abs(v) == T.INF: raise T.Unsupported('trunc nan')
                if v.__class__ is float and abs(v - round(v)) < 1e-9: v = round(v)
                v = math.trunc(v)
            if v > 0:
                a = self.branch(p - v, POS | ZERO, (v, 0)) and self.branch(p - (v + 1), NEG, (v, 1))
            elif v < 0:
                a = self.branch(p - v, NEG | ZERO, (v, 0)) and self.branch(p - (v - 1), POS, (v, 1))
            else:
                a = self.branch(p - 1, NEG, (v, 0)) and self.branch(p + 1, POS, (v, 1))
            if a: return v
        raise T.Unsupported('trunc loop')

    # ------------------------------------------------------------ assertions
    def prove(self, p, mask, label='', timeout=None):
        """sign(p) in mask for every value on this path -> True/None(undecided); raises Violation"""
        if isinstance(mask, str): mask = REL[mask]
        st = self.stats
        st.obligations += 1
        if p.__class__ is not Poly:
            if p.__class__ is Undef_: raise Violation('undef', label)
            ok = self.branch(p, mask)
            if ok: st.by_simplifier += 1; return True
            raise Violation('assert', label, p)
        r, s = self.canon(p)
        if r.__class__ is not Poly:
            if self.branch(r * s, mask): st.by_simplifier += 1; return True
            raise Violation('assert', label)
        if s < 0: mask = T._flip[mask]
        k = self.mask_of(r)
        if not k & ~mask: st.by_simplifier += 1; return True
        m = self.eval_mask(r)
        if m and not m & mask:
            raise Violation('assert', label)
        if len(r.t) < 400 and any(ATOMS[a].kind == 'def' for a in r.atoms()):
            pass
        self.sync(self.trace)
        self._push(Entry('c', r.key(), r, mask, False))
        try:
            res = self.check(timeout or self.assert_timeout)
            if res == z3.unsat:
                st.by_solver += 1; return True
            if res == z3.sat:
                self.model = self.get_model(); self.ev = T.Evaluator(self.model)
                m = self.eval_mask(r)
                if m == 0 or not m & mask:
                    raise Violation('assert', label)
            st.undecided += 1
            return None
        finally:
            self._pop()

    def prove_close(self, a, b, label='', eps=Fraction(1, 10000), rel=True):
        """|a-b| <= eps * (1+|a|) on this path"""
        st = self.stats
        ka, kb = a.__class__, b.__class__
        if ka is T.Undef or kb is T.Undef:
            st.obligations += 1
            raise Violation('undef', label)
        if ka is float or kb is float:
            st.obligations += 1
            if ka is float and kb is float:
                if (a != a and b != b) or a == b: st.by_simplifier += 1; return True
                if a == -b or (a != a) != (b != b):
                    # x/0: sign of zero / of inf not defined over the reals
                    pass
                if abs(a) == abs(b): st.by_simplifier += 1; return True
            raise Violation('special', f'{label}: {a} vs {b}', (a, b))
        d = a - b
        if d.__class__ is not Poly:
            st.obligations += 1
            if d == 0 or abs(d) <= eps * (1 + (abs(b) if kb is not Poly else 0)): st.by_simplifier += 1; return True
            raise Violation('differ', f'{label}: by constant {float(d)}', (a, b))
        st.obligations += 1
        try:
            e = T.expand(d)
            if e.__class__ is not Poly and e == 0: st.by_simplifier += 1; return True
        except T.TooBig:
            e = None
        bd = T.bound(d)
        if bd is not None and bd <= eps: st.by_simplifier += 1; return True
        # concrete evaluation under the path's model first
        v = self.ev(d)
        if v == v and abs(v) > eps * 10 * (1 + abs(self.ev(b))):
            raise Violation('differ', label, (a, b))
        # solver: |d| > eps  (on the non-denominator form when small)
        self.sync(self.trace)
        self.solver.push()
        self.marks.append(len(self.declared)); self.frames.append(None)
        try:
            need = set()
            z = self.zfull(d, need)
            self.declare(need)
            ez = self.zfull(eps, need)
            self.solver.add(z3.Or(z > ez, z < -ez))
            res = self.check(self.assert_timeout)
            if res == z3.unsat:
                st.by_solver += 1; return True
            if res == z3.sat:
                old = self.model, self.ev
                self.model = self.get_model(); self.ev = T.Evaluator(self.model)
                v = self.ev(d)
                if v == v and abs(v) > eps / 2:
                    raise Violation('differ', label, (a, b))
                self.model, self.ev = old
            st.undecided += 1
            return None
        finally:
            self._pop()

    def refute(self, cs, label=''):
        """the conjunction of cs = [(p, mask)] is impossible on this path"""
        st = self.stats
        st.obligations += 1
        es = []
        for p, mask in cs:
            r, s = self.canon(p) if p.__class__ is Poly else (p, 1)
            if r.__class__ is not Poly:
                v = r * s
                if not (POS if v > 0 else NEG if v < 0 else ZERO) & mask: st.by_simplifier += 1; return True
                continue
            if s < 0: mask = T._flip[mask]
            k = self.mask_of(r)
            if not k & mask: st.by_simplifier += 1; return True
            if not k & ~mask: continue
            es.append(Entry('c', r.key(), r, mask, True))
        if not es: raise Violation('assert', label)
        self.sync(self.trace)
        n = 0
        try:
            for e in es: self._push(e); n += 1
            res = self.check(self.assert_timeout)
            if res == z3.unsat: st.by_solver += 1; return True
            if res == z3.sat:
                self.model = self.get_model(); self.ev = T.Evaluator(self.model)
                raise Violation('assert', label)
            st.undecided += 1
            return None
        finally:
            for _ in range(n): self._pop()

    # ------------------------------------------------------------ driver
    def begin(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.K = {}
        self.asign = {}
        self.Kd = self.asign
        self.model = model if model is not None else {}
        self.ev = T.Evaluator(self.model)

    def run(self, harness):
        """explore; harness(ex) is called once per path"""
        self.pending = [([], dict(self.init_model) if self.init_model else None)]
        first = True
        while self.pending:
            if time.time() > self.deadline or self.stats_paths_exceeded(): return False
            if self.pick_random and len(self.pending) > 1 and self.rng.random() < 0.5:
                i = self.rng.randrange(len(self.pending))
                self.pending[i], self.pending[-1] = self.pending[-1], self.pending[i]
            prefix, model = self.pending.pop()
            self.begin(prefix, model)
            if prefix and prefix[-1].kind == 'c':
                # is this side feasible?
                self.sync(prefix)
                res = self.check()
                if res == z3.unsat: continue
                if res == z3.sat:
                    self.model = self.get_model()
                else:
                    self.abandoned += 1
                    continue
                self.ev = T.Evaluator(self.model)
            self.stats.paths += 1
            self.npaths = getattr(self, 'npaths', 0) + 1
            try:
                harness(self)
            except PathEnd:
                pass
            except Budget:
                return False
            except T.Unsupported as e:
                self.stats.unsupported += 1
                self.last_unsupported = str(e)
            except Violation as v:
                self.on_violation(v)
                if len(self.violations) >= self.max_violations: return False
        self.exhausted = self.abandoned == 0
        return self.exhausted

    def stats_paths_exceeded(self):
        return getattr(self, 'npaths', 0) >= self.max_paths

    def on_violation(self, v):
        self.violations.append((v, dict(self.model), list(self.trace)))

    def value(self, p, model=None):
        ev = self.ev if model is None else T.Evaluator(model)
        return ev(p)


Undef_ = T.Undef


def _zmask(z, m):
    if m == NEG: return z < 0
    if m == ZERO: return z == 0
    if m == POS: return z > 0
    if m == NEG | ZERO: return z <= 0
    if m == POS | ZERO: return z >= 0
    if m == NEG | POS: return z != 0
    if m == 0: return z3.BoolVal(False)
    return z3.BoolVal(True)
