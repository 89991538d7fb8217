"""Harness contexts (symbolic and concrete) and the path explorer."""
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, SymBool, lift, lift_bool, CTX, PathAbort, SymError

TOL = 1e-6


def default_value(kind, lo, hi):
    a = None if lo is None else float(lo)
    b = None if hi is None else float(hi)
    v = 0.37
    if a is not None and b is not None:
        v = a + 0.37 * (b - a)
    elif a is not None:
        v = a + 0.37
    elif b is not None:
        v = b - 0.37
    if kind == 'int':
        v = float(math.ceil(v))
    return v


class Skip(BaseException):
    """assumption violated in a concrete run"""


class HBase(object):
    tol = TOL

    def __init__(self):
        self.notes = {}

    # comparison helpers ----------------------------------------------------
    def between(self, name, lo, x, hi, tol=None):
        self.le(name + '>=', lo, x, tol)
        self.le(name + '<=', x, hi, tol)


class SymH(HBase):
    symbolic = True

    def __init__(self, explorer):
        super().__init__()
        self.ex = explorer

    # inputs
    def real(self, name, lo=None, hi=None, strict=False):
        self.ex.inputs[name] = ('real', lo, hi, strict)
        return core.var(name, lo, hi, strict)

    def int(self, name, lo=None, hi=None):
        self.ex.inputs[name] = ('int', lo, hi, False)
        return core.intvar(name, lo, hi)

    def angle(self, name, lo=-180, hi=180, strict=False):
        self.ex.inputs[name] = ('angle', lo, hi, strict)
        return core.angle(name, lo, hi, strict)

    def boolean(self, name):
        v = self.real(name, 0, 1)
        return v > Fraction(1, 2)

    def fun(self, name, *args, **kw):
        impl = kw.pop('impl', None)
        if impl is not None:
            core.FUN_IMPL[name] = impl
        return core.fun(name, *args, **kw)

    # construction
    def arr(self, vals):
        from .npshim import SymArray
        a = np.empty(np.shape(np.array(vals, dtype=object)), dtype=object)
        b = np.array(vals, dtype=object)
        a[...] = b
        return a.view(SymArray)

    # math
    def sqrt(self, x):
        return core.sqrt(lift(x)) if isinstance(x, (Sym, SymBool)) \
            else math.sqrt(x)

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return core.smax(a, b)

    def min(self, a, b):
        return core.smin(a, b)

    def where(self, c, a, b):
        if isinstance(c, SymBool):
            return core.ite(c, a, b)
        return a if c else b

    def cosd(self, x):
        return core.trig(lift(x).deg2rad())[0]

    def sind(self, x):
        return core.trig(lift(x).deg2rad())[1]

    def acosd(self, x):
        return core.arccos(lift(x)).rad2deg()

    def dist(self, x1, y1, x2, y2):
        return self.sqrt(lift(x1 - x2) ** 2 + lift(y1 - y2) ** 2)

    def pick(self, c):
        """python bool of a condition (forks the path)"""
        if isinstance(c, SymBool):
            return core.decide(c)
        return bool(c)

    def force(self, x):
        return core.force(x)

    def and_(self, *cs):
        return core.conj([lift_bool(c) for c in cs])

    def or_(self, *cs):
        return core.disj([lift_bool(c) for c in cs])

    def not_(self, c):
        return ~lift_bool(c)

    # statements
    def assume(self, c):
        self.ex.assume(lift_bool(c))

    def lemma(self, c):
        self.ex.lemma(lift_bool(c))

    def set_lemmas(self, cs):
        """replace the lemmas (facts justified outside the path condition)"""
        self.ex.lemmas = []
        for c in cs:
            self.lemma(c)

    def le(self, name, a, b, tol=None):
        tol = self.tol if tol is None else tol
        self.ex.check(name, 'le', a, b, tol)

    def ge(self, name, a, b, tol=None):
        self.le(name, b, a, tol)

    def eq(self, name, a, b, tol=None):
        tol = self.tol if tol is None else tol
        self.ex.check(name, 'eq', a, b, tol)

    def true(self, name, c):
        """exact boolean; must be insensitive to round-off"""
        self.ex.check(name, 'true', c, None, 0)

    def implies_le(self, name, cond, a, b, tol=None):
        tol = self.tol if tol is None else tol
        self.ex.check(name, 'le', a, b, tol, guard=lift_bool(cond))

    def implies_eq(self, name, cond, a, b, tol=None):
        tol = self.tol if tol is None else tol
        self.ex.check(name, 'eq', a, b, tol, guard=lift_bool(cond))


class ConcH(HBase):
    symbolic = False

    def __init__(self, model, rng=None):
        super().__init__()
        self.model = model
        self.results = []      # (name, ok, a, b)
        self.inputs = {}
        self.rng = rng
        self.funs = {}

    def _get(self, name, lo, hi, kind='real'):
        if name not in self.model:
            v = None
            if self.rng is not None:
                a = -5. if lo is None else float(lo)
                b = 5. if hi is None else float(hi)
                v = a + (b - a) * self.rng.random()
                if kind == 'int':
                    v = float(round(v))
            else:
                v = default_value(kind, lo, hi)
            self.model[name] = v
        v = float(self.model[name])
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def real(self, name, lo=None, hi=None, strict=False):
        return self._get(name, lo, hi)

    def int(self, name, lo=None, hi=None):
        return int(round(self._get(name, lo, hi, 'int')))

    def angle(self, name, lo=-180, hi=180, strict=False):
        return self._get(name, lo, hi)

    def boolean(self, name):
        return self._get(name, 0, 1) > .5

    def fun(self, name, *args, **kw):
        impl = kw.pop('impl', None)
        return impl(*args)

    def arr(self, vals):
        return np.array(vals, dtype=float)

    def sqrt(self, x):
        return math.sqrt(x) if x > 0 else 0.

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def where(self, c, a, b):
        return a if c else b

    def cosd(self, x):
        return math.cos(math.radians(x))

    def sind(self, x):
        return math.sin(math.radians(x))

    def acosd(self, x):
        return math.degrees(math.acos(min(1., max(-1., x))))

    def dist(self, x1, y1, x2, y2):
        return math.hypot(x1 - x2, y1 - y2)

    def pick(self, c):
        return bool(c)

    def force(self, x):
        return x

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def lemma(self, c):
        if not bool(c):
            self.results.append(('lemma', True, None, None))
            self.notes['lemma_failed'] = self.notes.get('lemma_failed', 0) + 1

    def set_lemmas(self, cs):
        pass

    def le(self, name, a, b, tol=None):
        tol = self.tol if tol is None else tol
        try:
            ok = bool(float(a) - float(b) <= tol / 2)
        except (TypeError, ValueError):
            ok = False
        if not ok and float(a) == float(b):
            ok = True
        self.results.append((name, ok, float(a), float(b)))

    def ge(self, name, a, b, tol=None):
        self.le(name, b, a, tol)

    def eq(self, name, a, b, tol=None):
        tol = self.tol if tol is None else tol
        a, b = float(a), float(b)
        ok = bool(abs(a - b) <= tol / 2) or a == b
        self.results.append((name, ok, a, b))

    def true(self, name, c):
        self.results.append((name, bool(c), 1. if c else 0., 1.))

    def implies_le(self, name, cond, a, b, tol=None):
        if bool(cond):
            self.le(name, a, b, tol)

    def implies_eq(self, name, cond, a, b, tol=None):
        if bool(cond):
            self.eq(name, a, b, tol)


class Budget(Exception):
    pass


class Explorer(object):
    def __init__(self, fn, mode='fork', max_paths=400, deadline=120.,
                 feas_timeout=2., check_timeout=10., seed=1, replay_cap=12,
                 rand_models=1, try_linear=True, ite_probe=0):
        from . import solve
        self.solve = solve
        self.fn = fn
        self.mode = mode
        self.max_paths = max_paths
        self.deadline = deadline
        self.feas_timeout = feas_timeout
        self.check_timeout = check_timeout
        self.rng = random.Random(seed)
        self.replay_cap = replay_cap
        self.inputs = {}
        self.paths = 0
        self.aborted = 0
        self.cands = []           # counterexample candidates
        self.undecided = []
        self.exceptions = []
        self.path_models = []     # for encoding validation
        self.checks = {}          # name -> [proved, exact, total]
        self.queries = 0
        self.funcs = set()
        self.complete = True
        self.sat_paths = 0
        self.denoms = 0
        self.try_linear = try_linear
        self.ite_probe = ite_probe
        self.slice_queries = 0
        self.identities_confirmed = 0
        self.identities_open = 0
        self.stop_on_cand = 6

    # ---------------------------------------------------------------- engine
    def explore(self):
        t0 = time.time()
        self.t_end = t0 + self.deadline
        stack = [([], None)]
        self.stack = stack
        while stack:
            if self.paths >= self.max_paths or time.time() > self.t_end \
                    or len(self.cands) >= self.stop_on_cand:
                self.complete = False
                break
            prefix, model = stack.pop()
            self.run_path(prefix, model)
        self.wall = time.time() - t0
        return self

    def run_path(self, prefix, model):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.known = {}
        self.probed = set()
        self.lemmas = []
        self.ev = core.Evaluator(model) if model is not None else None
        self.path_checks = []
        self.identities = []
        self.pool, self.dir_seen = [], set()
        self.dir_time = 0.
        self.dead = False
        CTX.explorer = self
        CTX.mode = self.mode
        from . import npshim
        npshim.LINALG['records'] = []
        npshim.LINALG['counter'] = 0
        npshim.LINALG['memo'] = {}
        h = SymH(self)
        self.h = h
        prof = self.paths == 0
        if prof:
            sys.setprofile(self._profile)
        failed = None
        try:
            self.fn(h)
        except PathAbort:
            self.aborted += 1
            return
        except SymError as e:
            sys.setprofile(None)
            failed = ('symerror', repr(e), traceback.format_exc(limit=-6))
        except Exception as e:
            sys.setprofile(None)
            failed = ('exception', type(e).__name__ + ': ' + str(e)[:300],
                      traceback.format_exc(limit=-6))
        finally:
            sys.setprofile(None)
            CTX.explorer = None
        self.paths += 1
        self._finish_path(failed)

    def _profile(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if 'pvfactors' in fn and '/verif/' not in fn:
                self.funcs.add('%s:%s' % (
                    fn.split('pvfactors/', 1)[-1],
                    getattr(frame.f_code, 'co_qualname',
                            frame.f_code.co_name)))

    def _finish_path(self, failed):
        model = self._path_model()
        if model is not None:
            self.sat_paths += 1
        if failed is not None:
            self.exceptions.append(
                {'kind': failed[0], 'error': failed[1], 'tb': failed[2],
                 'model': model})
            return
        if model is not None and len(self.path_models) < self.replay_cap:
            full = dict(model)
            from . import npshim
            npshim.complete_model(full)
            ev = core.Evaluator(full)
            vals = []
            slack = math.inf
            try:
                for b in self.pc:
                    slack = min(slack, ev.slack(b))
                    if not ev.bool(b):
                        slack = 0.
                for (name, a, b) in self.path_checks:
                    vals.append((name,
                                 None if a is None else ev.poly(a),
                                 None if b is None else ev.poly(b)))
            except (KeyError, SymError, ZeroDivisionError, ValueError,
                    OverflowError):
                vals = None
            self.path_models.append({'model': model, 'vals': vals,
                                     'slack': slack})

        seen = set()
        batch = []
        for a, b in self.identities:
            if (a.key, b.key) not in seen:
                seen.add((a.key, b.key))
                batch.append((a, b))
        for k in range(0, len(batch), 64):
            n = len(batch[k:k + 64])
            if self.solve.confirm(batch[k:k + 64]):
                self.identities_confirmed += n
            else:
                self.identities_open += n

    def _path_model(self, robust=True):
        if robust:
            for slack in (Fraction(1, 50), Fraction(1, 10000)):
                extra = [core.ge0(b.args[0] - slack) for b in self.pc
                         if b.op in ('>', '>=')]
                r = self.query(extra, 2., try_linear=False)
                if r.status == 'sat' and r.model is not None:
                    return self._complete(r.model)
        if self.ev is not None and self._model_ok():
            return self._complete(dict(self.ev.model))
        r = self.query([], self.check_timeout)
        if r.status == 'sat' and r.model is not None:
            return self._complete(r.model)
        return None

    def _complete(self, model):
        for n, (kind, lo, hi, _) in self.inputs.items():
            if n not in model:
                model[n] = default_value(kind, lo, hi)
        return model

    def _model_ok(self):
        try:
            return all(self.ev.bool(b) for b in self.pc)
        except (KeyError, SymError, ValueError, ZeroDivisionError,
                OverflowError):
            return False

    def query(self, extra, timeout, lemmas=False, try_linear=None,
              want_model=True):
        self.queries += 1
        return self.solve.check(self.pc + list(extra), timeout=timeout,
                                lemmas=self.lemmas if lemmas else (),
                                try_linear=self.try_linear
                                if try_linear is None else try_linear,
                                want_model=want_model)

    def note_denominator(self, p):
        self.denoms += 1

    # ------------------------------------------------------------ statements
    def assume(self, b):
        for l in self.solve.literals([b]):
            if l.op == 'const':
                if not l.val:
                    raise PathAbort()
                continue
            self.pc.append(l)
            self._know(l, True)
        if self.ev is not None and not self._model_ok():
            self.ev = None

    def lemma(self, b):
        if b.op != 'const':
            self.lemmas.append(b)

    def _know(self, b, val):
        if not val:
            b = ~b
        self.known[b.key] = True
        n = ~b
        self.known[n.key] = False
        if b.op == '==':
            self.known[core.ge0(b.args[0]).key] = True
            self.known[core.ge0(-b.args[0]).key] = True
            self.known[core.gt0(b.args[0]).key] = False
            self.known[core.gt0(-b.args[0]).key] = False
        elif b.op == '>':
            p = b.args[0]
            self.known[core.ge0(p).key] = True
            self.known[core.eq0(p).key] = False
            self.known[core.ge0(-p).key] = False
            self.known[core.gt0(-p).key] = False
        elif b.op == '>=':
            self.known[core.gt0(-b.args[0]).key] = False

    def probe(self, b):
        """truth value of b when the path condition implies it by linear
        reasoning, None otherwise (if-then-else execution)"""
        k = self.known.get(b.key)
        if k is not None or not self.ite_probe:
            return k
        if b.op == 'not':
            k = self.probe(b.args[0])
            return None if k is None else not k
        if b.op not in ('>', '>=', '==') \
                or len(b.args[0].t) > self.ite_probe:
            return None
        ck = (len(self.pc), b.key)
        if ck in self.probed:
            return None
        want = (True, False)
        if self.ev is not None:
            try:
                v = self.ev.bool(b)
                if self.ev.slack(b) > 1e-9:
                    want = (v,)
            except (KeyError, SymError, ValueError, ZeroDivisionError,
                    OverflowError):
                pass
        for v in want:
            if self.solve.implied(self.pc, b if v else ~b):
                self._know(b, v)
                return v
        self.probed.add(ck)
        return None

    def decide(self, b):
        if b.op == 'const':
            return b.val
        if b.op == 'not':
            return not self.decide(b.args[0])
        k = self.known.get(b.key)
        if k is not None:
            return k
        if b.op == 'and':
            return all(self.decide(x) for x in b.args)
        if b.op == 'or':
            return any(self.decide(x) for x in b.args)
        # normalise through known denominators' signs
        facts = set(x for x, v in self.known.items() if v)
        bb = self.solve.clear_bool(b, facts)
        if bb.op == 'const':
            return bb.val
        if bb.key != b.key:
            b0 = b
            v = self.decide(bb)
            self._know(b0, v)
            return v
        i = len(self.trace)
        if i < len(self.prefix):
            val, implied = self.prefix[i]
            self._take(b, val, implied)
            return val
        if time.time() > self.t_end:
            self.complete = False
            raise PathAbort()
        # feasibility of both sides
        t_ok = f_ok = None
        tm = fm = None
        if self.ev is not None:
            try:
                v = self.ev.bool(b)
                if self.ev.slack(b) > 1e-9:
                    if v:
                        t_ok, tm = True, self.ev.model
                    else:
                        f_ok, fm = True, self.ev.model
            except (KeyError, SymError, ValueError, ZeroDivisionError,
                    OverflowError):
                pass
        if t_ok is None:
            r = self.query([b], self.feas_timeout)
            t_ok = r.status != 'unsat'
            tm = r.model if r.status == 'sat' else None
            if r.status == 'unknown':
                self.unknown_feas = getattr(self, 'unknown_feas', 0) + 1
        if f_ok is None:
            r = self.query([~b], self.feas_timeout)
            f_ok = r.status != 'unsat'
            fm = r.model if r.status == 'sat' else None
            if r.status == 'unknown':
                self.unknown_feas = getattr(self, 'unknown_feas', 0) + 1
        if t_ok and f_ok:
            # prefer the side with a model; equalities: prefer false
            val = True
            if b.op == '==' or tm is None and fm is not None:
                val = False
            other = self.trace + [(not val, False)]
            self.stack.append((other, fm if val else tm))
            mod = tm if val else fm
            self._take(b, val, False)
            self._set_model(mod)
            return val
        if not t_ok and not f_ok:
            raise PathAbort()
        val = bool(t_ok)
        self._take(b, val, True)
        return val

    def _set_model(self, m):
        if m is None:
            self.ev = None
        elif self.ev is None or m is not self.ev.model:
            self.ev = core.Evaluator(dict(m))

    def _take(self, b, val, implied):
        self.trace.append((val, implied))
        self._know(b, val)
        if not implied:
            self.pc.append(b if val else ~b)

    # ---------------------------------------------------------------- checks
    def check(self, name, kind, a, b, tol, guard=None):
        rec = self.checks.setdefault(name, [0, 0, 0])
        rec[2] += 1
        tolq = Fraction(repr(float(tol))) if tol else Fraction(0)

        def fail_concrete():
            self._candidate(name, None, guard)
        if kind == 'true':
            if isinstance(a, np.ndarray):
                a = a.item()
            goal = lift_bool(a)
            weak = goal
            d = None
            self.path_checks.append((name, None, None))
        else:
            a = a.item() if isinstance(a, np.ndarray) else a
            b = b.item() if isinstance(b, np.ndarray) else b
            bad = [x for x in (a, b) if core.is_num(x)
                   and core.is_nonfinite(x)]
            if bad:
                ok = (core.is_num(a) and core.is_num(b) and
                      (a == b or (kind == 'le' and a <= b)))
                if kind == 'le' and not ok and not any(
                        math.isnan(x) for x in bad):
                    ok = (core.is_num(b) and b == math.inf) or \
                        (core.is_num(a) and a == -math.inf)
                self.path_checks.append((name, None, None))
                if ok:
                    rec[0] += 1
                    rec[1] += 1
                else:
                    self._candidate(name, None, guard)
                return
            a, b = lift(a), lift(b)
            if guard is None:
                self.path_checks.append((name, a, b))
            else:
                self.path_checks.append((name, None, None))
            d = a - b
            if kind == 'eq':
                z, _ = self.solve.clear_poly(d, force=True)
                if not z.t:
                    rec[0] += 1
                    rec[1] += 1
                    if not (a.is_const() and b.is_const()):
                        self.identities.append((a, b))
                    return
                goal = core.eq0(d)
                weak = core.ge0(tolq - d) & core.ge0(tolq + d)
            else:
                goal = core.ge0(-d)
                weak = core.ge0(tolq - d)
        g = [] if guard is None else [guard]
        if guard is not None and guard.op == 'const' and not guard.val:
            rec[0] += 1
            rec[1] += 1
            return
        if goal.op == 'const' and goal.val or \
                self.known.get(goal.key) is True:
            rec[0] += 1
            rec[1] += 1
            return
        # the current path model may already refute the goal
        if self.ev is not None:
            try:
                bad_now = not self.ev.bool(weak) and all(
                    self.ev.bool(x) for x in g)
                if bad_now and self._model_ok():
                    self._candidate(name, weak, guard, dict(self.ev.model))
                    return
            except (KeyError, SymError, ValueError, ZeroDivisionError,
                    OverflowError):
                pass
        left = max(1., self.t_end - time.time())
        to = min(self.check_timeout, left)
        m = self._directed(weak, g, d, tolq if kind == 'eq' else None)
        if m is not None:
            self._candidate(name, weak, guard, m)
            return
        # 1. exact goal, 2. goal within tolerance
        if kind == 'le':
            r = self.query(g + [~goal], to, lemmas=True, want_model=False)
            if r.status == 'unsat':
                rec[0] += 1
                rec[1] += 1
                return
        if kind == 'eq':
            st = []
            for side in (core.gt0(d - tolq), core.gt0(-d - tolq)):
                r = self.query(g + [side], to, lemmas=True)
                st.append(r)
                if r.status == 'sat':
                    break
            if all(r.status == 'unsat' for r in st):
                rec[0] += 1
                return
            r = st[-1] if st[-1].status == 'sat' else \
                [x for x in st if x.status != 'unsat'][0]
        else:
            r = self.query(g + [~weak], to, lemmas=True)
            if r.status == 'unsat':
                rec[0] += 1
                if kind == 'true':
                    rec[1] += 1
                return
        if r.status == 'sat':
            self._candidate(name, weak, guard, r.model)
            return
        self._slices(name, weak, g, guard)

    def _directed(self, weak, g, d, tolq):
        """a model refuting the goal among models of the path for either
        outcome of the conditions the goal depends on"""
        if d is None:
            return None
        for c in core.ite_conditions(d, 8):
            if c.key in self.dir_seen or self.known.get(c.key) is not None \
                    or self.dir_time > 20.:
                continue
            self.dir_seen.add(c.key)
            for v in (c, ~c):
                t0 = time.time()
                r = self.query([v], 2.)
                self.dir_time += time.time() - t0
                if r.status == 'sat' and r.model is not None:
                    self.pool.append(core.Evaluator(dict(r.model)))
        for ev in self.pool[-24:]:
            try:
                if ev.bool(weak) or not all(ev.bool(x) for x in g):
                    continue
                if tolq is not None and not (
                        3 * tolq < abs(ev.poly(d)) < 1e9
                        or math.isinf(ev.poly(d))):
                    continue
                if all(ev.bool(b) for b in self.pc):
                    return dict(ev.model)
            except (KeyError, SymError, ValueError, ZeroDivisionError,
                    OverflowError):
                pass
        return None

    def _candidate(self, name, weak, guard, model=None):
        models = []
        if model is not None:
            models.append(model)
        g = [] if guard is None else [guard]
        neg = [] if weak is None else [~weak]
        if model is None:
            r = self.query(g + neg, self.check_timeout)
            if r.status == 'unsat':
                return
            if r.model is not None:
                models.append(r.model)
        # more robust variants: keep away from branch boundaries
        for slack in (Fraction(1, 20), Fraction(1, 1000)):
            extra = []
            for b in self.pc:
                if b.op == '>' or b.op == '>=':
                    extra.append(core.ge0(b.args[0] - slack))
            try:
                r = self.query(g + neg + extra, 3., try_linear=False)
            except Exception:
                break
            if r.status == 'sat' and r.model is not None:
                models.append(r.model)
                break
        self.cands.append({'name': name,
                           'models': [self._complete(m) for m in models]})

    def _slices(self, name, weak, g, guard):
        """undecided obligation: let the solver decide it on slices on which
        some inputs are fixed"""
        base = self._path_model(False)
        n_ok = n_unk = 0
        if base is not None:
            bases = [base]
            for m in self._corners(base):
                bases.append(m)
                ev = core.Evaluator(dict(m))
                try:
                    if not ev.bool(weak) and all(ev.bool(x) for x in g):
                        self._candidate(name, weak, guard, m)
                        return
                except (KeyError, SymError, ValueError, ZeroDivisionError,
                        OverflowError):
                    pass
            names = [n for n in base if n in self.inputs]
            for k in range(6):
                if time.time() > self.t_end:
                    break
                base = bases[k % len(bases)]
                self.rng.shuffle(names)
                keep = names[:1 + k % 3]
                fix = []
                m2 = dict(base)
                for n in names:
                    if n in keep:
                        continue
                    kind = self.inputs[n][0]
                    if kind == 'angle':
                        a = core.T.by_key[('ang', n)]
                        t = math.tan(math.radians(base[n]) / 2)
                        t = Fraction(t).limit_denominator(
                            self.rng.choice([20, 50, 200]))
                        cv = (1 - t * t) / (1 + t * t)
                        sv = 2 * t / (1 + t * t)
                        fix.append(core.eq0(a.extra[0] - lift(cv)))
                        fix.append(core.eq0(a.extra[1] - lift(sv)))
                    elif kind in ('real',):
                        v = Fraction(base[n]).limit_denominator(
                            self.rng.choice([10, 50, 1000]))
                        fix.append(core.eq0(core.atom_sym(
                            core.T.by_key[('var', n)]) - lift(v)))
                fix = [f for f in fix if f.op != 'const']
                self.slice_queries += 1
                r = self.query(g + fix + [~weak], 3., lemmas=True,
                               try_linear=False)
                if r.status == 'sat':
                    self._candidate(name, weak, guard, r.model)
                    return
                if r.status == 'unsat':
                    n_ok += 1
                else:
                    n_unk += 1
        self.undecided.append({'name': name, 'slices_unsat': n_ok,
                               'slices_unknown': n_unk})

    def _corners(self, base):
        """models of the path with the real inputs close to their bounds"""
        from . import npshim
        reals = [(n, float(d[1]), float(d[2]))
                 for n, d in self.inputs.items() if d[0] == 'real'
                 and d[1] is not None and d[2] is not None and n in base]

        def ok(m):
            try:
                npshim.complete_model(m)
                ev = core.Evaluator(m)
                return all(ev.bool(b) for b in self.pc)
            except (KeyError, SymError, ValueError, ZeroDivisionError,
                    OverflowError):
                return False
        for pick in (lambda n: 1, lambda n: 0, lambda n: self.rng.random() < .5,
                     lambda n: self.rng.random() < .5):
            want = {n: lo + (hi - lo) * (.999 if pick(n) else .001)
                    for n, lo, hi in reals}
            m = dict(base, **want)
            if ok(m):
                yield m
                continue
            m = dict(base)
            t_end = time.time() + 1.
            for n in self.rng.sample(sorted(want), len(want)):
                if time.time() > t_end:
                    break
                m2 = dict(m, **{n: want[n]})
                if ok(m2):
                    m = m2
            if ok(m):
                yield m

    def summary(self):
        return {
            'paths': self.paths, 'aborted': self.aborted,
            'sat_paths': self.sat_paths,
            'identities': (self.identities_confirmed,
                           self.identities_open), 'complete': self.complete,
            'checks': self.checks, 'cands': self.cands,
            'undecided': self.undecided, 'exceptions': self.exceptions,
            'path_models': self.path_models, 'queries': self.queries,
            'funcs': sorted(self.funcs), 'wall': self.wall,
            'stats': dict(self.solve.STATS),
            'slice_queries': self.slice_queries,
            'inputs': {k: [str(x) for x in v]
                       for k, v in self.inputs.items()},
            'unknown_feas': getattr(self, 'unknown_feas', 0),
        }
