"""Translation to z3 and the portfolio used to decide queries."""
import math
import sys
import time
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3                                                   # noqa: E402

from . import core                                          # noqa: E402
from .core import Sym, SymBool, T                           # noqa: E402

STATS = {'queries': 0, 'solver_s': 0., 'sat': 0, 'unsat': 0, 'unknown': 0,
         'linear_unsat': 0}


def rat(f):
    return z3.RealVal(str(Fraction(f)))


class Enc(object):
    """One encoder per query; ``linear`` makes products opaque."""

    def __init__(self, linear=False):
        self.linear = linear
        self.v = {}
        self.side = []
        self.todo = []
        self.mono = {}
        self.inv = {}
        self.funs = {}

    def atom(self, i):
        x = self.v.get(i)
        if x is None:
            a = T.atoms[i]
            x = z3.Real('a%d' % i)
            self.v[i] = x
            self.todo.append(a)
        return x

    def invatom(self, i):
        x = self.inv.get(i)
        if x is None:
            a = T.atoms[i]
            b = self.atom(i)
            x = z3.Real('i%d' % i)
            self.inv[i] = x
            if a.pos:
                self.side.append(x > 0)
            elif a.nonneg:
                self.side.append(x >= 0)
            if not self.linear:
                if a.pos:
                    self.side.append(x * b == 1)
                else:
                    self.side.append(z3.Implies(b != 0, x * b == 1))
        return x

    def monomial(self, m):
        if not m:
            return None
        if self.linear:
            if len(m) == 1 and m[0][1] == 1:
                return self.atom(m[0][0])
            x = self.mono.get(m)
            if x is None:
                x = z3.Real('m%d' % len(self.mono))
                self.mono[m] = x
                s = core._mono_sign(m)
                if s == 2:
                    self.side.append(x > 0)
                elif s == 1:
                    self.side.append(x >= 0)
                elif s == -2:
                    self.side.append(x < 0)
                elif s == -1:
                    self.side.append(x <= 0)
                lo, hi = core._mono_bounds(m)
                if lo is not None:
                    self.side.append(x >= rat(lo))
                if hi is not None:
                    self.side.append(x <= rat(hi))
            return x
        r = None
        for i, e in m:
            b = self.atom(i) if e > 0 else self.invatom(i)
            for _ in range(abs(e)):
                r = b if r is None else r * b
        return r

    def poly(self, p):
        terms = []
        for m, c in p.t.items():
            if not m:
                terms.append(rat(c))
            elif c == 1:
                terms.append(self.monomial(m))
            else:
                terms.append(rat(c) * self.monomial(m))
        if not terms:
            return rat(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def bool(self, b):
        if b.op == 'const':
            return z3.BoolVal(b.val)
        if b.op in ('>', '>=', '=='):
            p = self.poly(b.args[0])
            if b.op == '>':
                return p > 0
            if b.op == '>=':
                return p >= 0
            return p == 0
        if b.op == 'not':
            return z3.Not(self.bool(b.args[0]))
        if b.op == 'and':
            return z3.And(*[self.bool(x) for x in b.args])
        if b.op == 'or':
            return z3.Or(*[self.bool(x) for x in b.args])
        raise core.SymError(b.op)

    def finish(self):
        """side constraints of all atoms reached"""
        while self.todo:
            a = self.todo.pop()
            self._side(a)
        # congruence of uninterpreted functions
        for name, apps in self.funs.items():
            for i in range(len(apps)):
                for j in range(i + 1, len(apps)):
                    x, ax = apps[i]
                    y, ay = apps[j]
                    eqs = [self.poly(p - q) == 0 for p, q in zip(ax, ay)]
                    self.side.append(z3.Implies(z3.And(*eqs), x == y))
        while self.todo:
            a = self.todo.pop()
            self._side(a)
        return self.side

    def _side(self, a):
        x = self.v[a.id]
        S = self.side
        if a.lo is not None:
            S.append(x > rat(a.lo) if a.strict or (a.pos and a.lo == 0)
                     else x >= rat(a.lo))
        elif a.pos:
            S.append(x > 0)
        elif a.nonneg:
            S.append(x >= 0)
        if a.hi is not None:
            S.append(x < rat(a.hi) if a.strict else x <= rat(a.hi))
        k = a.kind
        if k == 'int':
            n = z3.Int('n%d' % a.id)
            S.append(x == z3.ToReal(n))
        elif k == 'floor':
            n = z3.Int('n%d' % a.id)
            S.append(x == z3.ToReal(n))
            p = self.poly(a.args[0])
            S.append(x <= p)
            S.append(p < x + 1)
        elif k in ('cos', 'sin'):
            ang = a.args[0]
            cid = ang.extra[0].key[0][0][0][0]
            sid = ang.extra[1].key[0][0][0][0]
            mark = ('trig', ang.id)
            if mark not in self.mono:
                self.mono[mark] = True
                c, s = self.atom(cid), self.atom(sid)
                if not self.linear:
                    S.append(c * c + s * s == 1)
                if ang.kind == 'ang' and not ang.args:
                    self._angle_bounds(ang, c, s)
        elif k == 'sqrt':
            S.append(x >= 0)
            if not self.linear:
                S.append(x * x == self.poly(a.args[0]))
        elif k == 'inv':
            q = a.args[0]
            if not self.linear:
                p = self.poly(q)
                sg = q.sign()
                if sg in (2, -2):
                    S.append(x * p == 1)
                else:
                    S.append(z3.Implies(p != 0, x * p == 1))
        elif k == 'ite':
            c, u, w = a.args
            cz = self.bool(c)
            S.append(z3.Implies(cz, x == self.poly(u)))
            S.append(z3.Implies(z3.Not(cz), x == self.poly(w)))
        elif k == 'fun':
            f = a.args[0]
            self.funs.setdefault((f[0], len(f)), []).append((x, f[1:]))

    def _angle_bounds(self, ang, c, s):
        """bounds of cos/sin from tight bounds of the input angle"""
        lo, hi = float(ang.lo), float(ang.hi)
        if hi - lo >= 180:
            return
        eps = Fraction(1, 10**9)
        S = self.side

        def fr(v):
            return Fraction(v).limit_denominator(10**9)
        pts_c = [math.cos(math.radians(t)) for t in (lo, hi)]
        pts_s = [math.sin(math.radians(t)) for t in (lo, hi)]
        for t in range(-720, 721, 90):
            if lo <= t <= hi:
                pts_c.append(round(math.cos(math.radians(t)), 12))
                pts_s.append(round(math.sin(math.radians(t)), 12))
        S.append(c >= rat(max(-1, fr(min(pts_c)) - eps)))
        S.append(c <= rat(min(1, fr(max(pts_c)) + eps)))
        S.append(s >= rat(max(-1, fr(min(pts_s)) - eps)))
        S.append(s <= rat(min(1, fr(max(pts_s)) + eps)))


def _float(v):
    if v is None:
        return 0.
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    return float(str(v))


def extract(model, enc):
    """z3 model -> {base atom name: float}"""
    out = {}
    for i, x in enc.v.items():
        a = T.atoms[i]
        if a.kind in ('var', 'int'):
            out[a.name] = _float(model.eval(x, model_completion=True))
        elif a.kind == 'fun' and a.args[0][0] != 'exp':
            out[a.name] = _float(model.eval(x, model_completion=True))
        elif a.kind in ('cos', 'sin'):
            ang = a.args[0]
            if ang.kind == 'ang' and ang.name not in out and not ang.args:
                cid = ang.extra[0].key[0][0][0][0]
                sid = ang.extra[1].key[0][0][0][0]
                c = _float(model.eval(enc.atom(cid), model_completion=True))
                s = _float(model.eval(enc.atom(sid), model_completion=True))
                t = math.degrees(math.atan2(s, c))
                lo, hi = float(ang.lo), float(ang.hi)
                best = min((max(lo - v, v - hi, 0.), v) for v in
                           (t, t + 360., t - 360., t + 720., t - 720.))[1]
                out[ang.name] = min(max(best, lo), hi)
        elif a.kind == 'ang' and not a.args:
            # raw use of the degree variable without trigonometry
            cid = T.by_key.get(('cos', a.id))
            if cid is None or cid.id not in enc.v:
                out[a.name] = _float(model.eval(x, model_completion=True))
    return out


def is_linear(assertions):
    """True when no product of atoms and no nonlinear atom is reachable"""
    seen = set()
    stack = list(assertions)
    while stack:
        b = stack.pop()
        if isinstance(b, SymBool):
            stack.extend(b.args)
            continue
        for m in b.t:
            if sum(abs(e) for _, e in m) > 1 or any(e < 0 for _, e in m):
                return False
            for i, _ in m:
                if i in seen:
                    continue
                seen.add(i)
                a = T.atoms[i]
                if a.kind in ('sqrt', 'inv', 'cos', 'sin'):
                    return False
                if a.kind == 'ite':
                    stack.extend(a.args)
                if a.kind == 'floor':
                    stack.append(a.args[0])
                if a.kind == 'fun':
                    stack.extend(a.args[0][1:])
    return True


class Result(object):
    __slots__ = ('status', 'model', 'how', 'time')

    def __init__(self, status, model=None, how='', time_=0.):
        self.status = status
        self.model = model
        self.how = how
        self.time = time_


def _known_sign(q, facts):
    s = q.sign()
    if s in (2, -2):
        return 1 if s == 2 else -1
    if facts is None:
        return None
    g = core.gt0(q)
    if g.op == 'const':
        return 1 if g.val else None
    if g.key in facts:
        return 1
    l = core.gt0(-q)
    if l.op == 'const':
        return -1 if l.val else None
    if l.key in facts:
        return -1
    # facts q >= 0 / <= 0 are not enough: q may vanish
    return None


def clear_poly(p, facts=None, force=False):
    """multiply p by powers of the denominators of its inv atoms whose sign is
    known (or all when force): returns (p', sign) with p' = p * |stuff| * sign.
    """
    sign = 1
    for _ in range(40):
        invs = {}
        for m in p.t:
            for i, e in m:
                if T.atoms[i].kind == 'inv' and e > 0:
                    invs[i] = max(invs.get(i, 0), e)
        done = True
        for i in sorted(invs, reverse=True):
            q = T.atoms[i].args[0]
            s = _known_sign(q, facts)
            k = invs[i]
            if s is None:
                if not force:
                    continue
                s = 1
            out = core.ZERO
            groups = {}
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(i, 0)
                groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
            qp = [core.ONE]
            for _k in range(k + max(0, -min(groups))):
                qp.append(qp[-1] * q)
            for e, t in groups.items():
                out = out + Sym(t) * qp[k - e]
            if s < 0 and k % 2:
                sign = -sign
            p = out
            done = False
            break
        if done:
            break
    return p, sign


def clear_bool(b, facts):
    if b.op in ('>', '>=', '=='):
        p, s = clear_poly(b.args[0], facts)
        if p is b.args[0]:
            return b
        if s < 0 and b.op != '==':
            p = -p
        return core._mk(b.op, p)
    if b.op == 'not':
        return ~clear_bool(b.args[0], facts)
    if b.op == 'and':
        r = core.TRUE
        for x in b.args:
            r = r & clear_bool(x, facts)
        return r
    if b.op == 'or':
        r = core.FALSE
        for x in b.args:
            r = r | clear_bool(x, facts)
        return r
    return b


def literals(bs):
    out = []
    st = list(bs)
    while st:
        b = st.pop()
        if b.op == 'and':
            st.extend(b.args)
        else:
            out.append(b)
    return out


def check(assertions, timeout=5., want_model=True, linear_only=False,
          lemmas=(), try_linear=True):
    """decide satisfiability of a conjunction of SymBools"""
    t0 = time.time()
    STATS['queries'] += 1
    lits = literals(assertions)
    facts = set(b.key for b in lits)
    bs = []
    for b in lits:
        bb = clear_bool(b, facts)
        if bb.op == 'const':
            if not bb.val:
                STATS['unsat'] += 1
                return Result('unsat', how='syntactic')
            continue
        bs.append(bb)
        if ('not' if b.op != 'not' else '') and (~b).key in facts:
            STATS['unsat'] += 1
            return Result('unsat', how='syntactic')
    lem = [clear_bool(b, facts) for b in lemmas]
    res = None
    lin = is_linear(bs + lem)
    if lin or try_linear or linear_only:
        e = Enc(linear=not lin)
        s = z3.Solver()
        s.set('timeout', int(1000 * timeout))
        for b in bs + lem:
            s.add(e.bool(b))
        for c in e.finish():
            s.add(c)
        r = s.check()
        if r == z3.unsat:
            STATS['linear_unsat'] += 1
            res = Result('unsat', how='linear')
        elif lin and r == z3.sat:
            res = Result('sat', extract(s.model(), e) if want_model else None,
                         how='linear')
        elif lin or linear_only:
            res = Result('unknown', how='linear')
    if res is None and try_linear:
        e = Enc(linear=True)
        s = z3.Solver()
        s.set('timeout', int(300 * timeout))
        for b in bs + lem:
            s.add(e.bool(b))
        for b in products(bs + lem):
            s.add(e.bool(b))
        for c in e.finish():
            s.add(c)
        if s.check() == z3.unsat:
            STATS['linear_unsat'] += 1
            res = Result('unsat', how='products')
    if res is None:
        res = _nra(bs + lem, timeout, want_model)
    res.time = time.time() - t0
    STATS['solver_s'] += res.time
    STATS[res.status] += 1
    return res


def implied(pc, b, rlimit=300000, prods=True):
    """does the conjunction pc imply b?  Linear reasoning only, with a
    deterministic resource limit."""
    t0 = time.time()
    STATS['queries'] += 1
    lits = literals(list(pc) + [~b])
    facts = set(x.key for x in lits)
    bs = []
    for x in lits:
        xx = clear_bool(x, facts)
        if xx.op == 'const':
            if not xx.val:
                return True
            continue
        bs.append(xx)
    e = Enc(linear=True)
    s = z3.Solver()
    s.set('rlimit', rlimit)
    for x in bs:
        s.add(e.bool(x))
    if prods:
        for x in products(bs):
            s.add(e.bool(x))
    for c in e.finish():
        s.add(c)
    r = s.check() == z3.unsat
    if r:
        STATS['linear_unsat'] += 1
        STATS['unsat'] += 1
    else:
        STATS['unknown'] += 1
    STATS['solver_s'] += time.time() - t0
    return r


def confirm(pairs, rlimit=20000000):
    """the solver's verdict on equations whose two sides have the same normal
    form: is there an assignment of the atoms for which some differ?"""
    t0 = time.time()
    STATS['queries'] += 1
    mark = core.var('__side__')
    mid = list(mark.t)[0][0][0]
    e = Enc()
    diff = []
    for a, b in pairs:
        if a.key == b.key:
            diff.append(e.poly(a) != e.poly(b))
            continue
        z, _ = clear_poly(a + mark * b, force=True)
        pa, pb = {}, {}
        for m, c in z.t.items():
            r = tuple(x for x in m if x[0] != mid)
            (pb if len(r) != len(m) else pa)[r] = c
        diff.append(e.poly(Sym(pa)) != e.poly(Sym(pb)))
    s = z3.Solver()
    s.set('rlimit', rlimit)
    s.add(z3.Or(*diff))
    r = s.check()
    STATS['solver_s'] += time.time() - t0
    STATS[str(r)] += 1
    return r == z3.unsat


def reachable(bs):
    """atoms of the assertions"""
    seen = set()
    st = list(bs)
    while st:
        b = st.pop()
        if isinstance(b, SymBool):
            st.extend(b.args)
            continue
        for m in b.t:
            for i, _ in m:
                if i not in seen:
                    seen.add(i)
                    a = T.atoms[i]
                    if a.kind == 'ite':
                        st.extend(a.args)
    return seen


def products(bs, cap=400):
    """valid product constraints (literal x positive atom, bound x bound) that
    help the linear abstraction"""
    atoms = [T.atoms[i] for i in sorted(reachable(bs))]
    pos = [core.atom_sym(a) for a in atoms
           if a.nonneg and a.kind in ('var', 'cos', 'sin', 'sqrt', 'ite')][:8]
    lits = [b for b in bs if b.op in ('>', '>=', '==')
            and len(b.args[0].t) <= 12]
    bnd = []
    for a in atoms:
        if a.kind not in ('var', 'cos', 'sin', 'ite'):
            continue
        x = core.atom_sym(a)
        if a.lo is not None and not (a.lo == 0 and a.nonneg):
            bnd.append(x - core.lift(a.lo))
        if a.hi is not None:
            bnd.append(core.lift(a.hi) - x)
    out = []
    for y in pos:
        for b in lits:
            if b.op == '==':
                out.append(SymBool('==', (b.args[0] * y,)))
            else:
                out.append(SymBool('>=', (b.args[0] * y,)))
            if len(out) > cap:
                return out
        for q in bnd:
            out.append(SymBool('>=', (q * y,)))
            if len(out) > cap:
                return out
    return out


def _nra(bs, timeout, want_model):
    e = Enc(linear=False)
    zs = [e.bool(b) for b in bs]
    zs += e.finish()
    has_int = any(T.atoms[i].kind in ('int', 'floor') for i in e.v)
    budget = timeout
    t0 = time.time()
    strategies = [('nlsat', 0.35), ('smt', 0.3), ('nlsat', 1.0)] \
        if not has_int else [('smt', 1.0)]
    last = 'unknown'
    for name, share in strategies:
        left = budget - (time.time() - t0)
        if left < 0.05:
            break
        ms = max(50, int(1000 * min(left, budget * share)))
        if name == 'nlsat':
            s = z3.Tactic('qfnra-nlsat').solver()
        else:
            s = z3.SolverFor('QF_NRA') if not has_int else z3.Solver()
        s.set('timeout', ms)
        for c in zs:
            s.add(c)
        try:
            r = s.check()
        except z3.Z3Exception as ex:
            last = 'exception %s' % ex
            continue
        if r == z3.unsat:
            return Result('unsat', how=name)
        if r == z3.sat:
            m = None
            if want_model:
                try:
                    m = extract(s.model(), e)
                except Exception:
                    m = None
            return Result('sat', m, how=name)
    return Result('unknown', how=last)
