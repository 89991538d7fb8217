"""Symbolic values.

``Sym``     a multivariate Laurent polynomial with rational coefficients over
            hash-consed *atoms* (input variables, cos/sin of input angles,
            square roots, inverses, if-then-else values, uninterpreted
            function values ...).
``SymBool`` a boolean combination of polynomial comparisons.

Floating point numbers of the executed code are lifted to the rational number
printed by ``repr`` (0.1 is 1/10): the encoding is over the reals, not over
IEEE-754 doubles.
"""
import math
from fractions import Fraction

UFUNC = None        # set by npshim

F0 = Fraction(0)
F1 = Fraction(1)


class SymError(Exception):
    """Something the symbolic executor cannot encode."""


class PathAbort(BaseException):
    """Current path is infeasible / to be dropped."""


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------

class Atom(object):
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'pos', 'nonneg',
                 'extra', 'strict')

    def __init__(self, id_, kind, name, args, lo=None, hi=None, pos=False,
                 nonneg=False, strict=False):
        self.id = id_
        self.kind = kind
        self.name = name
        self.args = args
        self.lo = lo
        self.hi = hi
        self.pos = pos          # known > 0
        self.nonneg = nonneg or pos
        self.strict = strict    # bounds are strict
        self.extra = None

    def __repr__(self):
        return self.name


class Table(object):
    """Hash-consing table of atoms (one per process)."""

    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.cosparts = {}
        self.squares = {}     # poly key -> Sym whose square it is

    def get(self, kind, key, name, args=(), **kw):
        k = (kind, key)
        a = self.by_key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, name, args, **kw)
            self.atoms.append(a)
            self.by_key[k] = a
            return a
        return a


T = Table()


def reset():
    T.__init__()
    _init_consts()


class Ctx(object):
    """Execution context; replaced by the explorer.  ``decide`` maps a
    non-constant SymBool to a python bool (path forking)."""
    mode = 'fork'       # or 'ite'
    explorer = None


CTX = Ctx()


def decide(b):
    if b.op == 'const':
        return b.val
    if CTX.explorer is None:
        raise SymError('truth value of a symbolic condition: %s' % (b,))
    return CTX.explorer.decide(b)


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------

_PI_FLOATS = {}


def _init_consts():
    global PI_ATOM
    PI_ATOM = T.get('pi', 'pi', 'PI', pos=True, lo=Fraction(31415926535, 10**10),
                    hi=Fraction(31415926536, 10**10))


_SPECIAL = {
    math.pi: (1, 1), 2 * math.pi: (1, 2), math.pi / 2: (1, Fraction(1, 2)),
    math.pi / 4: (1, Fraction(1, 4)), math.pi / 180: (1, Fraction(1, 180)),
    180 / math.pi: (-1, 180),
}
for _k in list(_SPECIAL):
    _SPECIAL[-_k] = (_SPECIAL[_k][0], -_SPECIAL[_k][1])


def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    v = float(v)
    return Fraction(repr(v))


def is_num(v):
    import numpy as np
    return isinstance(v, (int, float, Fraction, np.integer, np.floating,
                          np.bool_, bool))


def is_nonfinite(v):
    return (not isinstance(v, (Sym, SymBool, Fraction))
            and not math.isfinite(v))


def lift(v):
    """python number / SymBool / Sym -> Sym"""
    if isinstance(v, Sym):
        return v
    if isinstance(v, SymBool):
        return ite(v, ONE, ZERO)
    if isinstance(v, Fraction):
        return Sym({(): v} if v else {})
    if is_num(v):
        if isinstance(v, float) or not isinstance(v, (int, bool)):
            fv = float(v)
            if not math.isfinite(fv):
                raise SymError('non-finite constant in symbolic expression')
            sp = _SPECIAL.get(fv)
            if sp is not None:
                return Sym({((PI_ATOM.id, sp[0]),): Fraction(sp[1])})
            # round-off of cos / sin of multiples of 90 deg
            f = Fraction(repr(fv)) if abs(fv) > 1e-15 else F0
        else:
            f = Fraction(int(v))
        return Sym({(): f} if f else {})
    raise SymError('cannot lift %r' % (type(v),))


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        ne = d.get(i, 0) + e
        if ne:
            d[i] = ne
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    for i, e in m:
        if e >= 2 or e <= -2:
            k = T.atoms[i].kind
            if (k == 'sin' or k == 'sqrt') and (e >= 2 or (k == 'sqrt')):
                return True
    return False


def _reduce_mono(m, c, out):
    """add c*m to dict out after reducing sin**2 and sqrt**2"""
    for pos, (i, e) in enumerate(m):
        a = T.atoms[i]
        if e >= 2 and a.kind == 'sin':
            rest = m[:pos] + (((i, e - 2),) if e > 2 else ()) + m[pos + 1:]
            cosid = a.extra
            _reduce_mono(rest, c, out)
            _reduce_mono(_mono_mul(rest, ((cosid, 2),)), -c, out)
            return
        if e >= 2 and a.kind == 'sqrt':
            k = e // 2
            rest = m[:pos] + (((i, e - 2 * k),) if e > 2 * k else ()) \
                + m[pos + 1:]
            rad = a.args[0]
            p = Sym({rest: c})
            for _ in range(k):
                p = p * rad
            for mm, cc in p.t.items():
                _acc(out, mm, cc)
            return
        if e <= -2 and a.kind == 'sqrt':
            k = (-e) // 2
            rest = m[:pos] + (((i, e + 2 * k),) if e + 2 * k else ()) \
                + m[pos + 1:]
            rad = a.args[0]
            p = Sym({rest: c})
            ir = inverse(rad)
            for _ in range(k):
                p = p * ir
            for mm, cc in p.t.items():
                _acc(out, mm, cc)
            return
    _acc(out, m, c)


def _acc(out, m, c):
    v = out.get(m)
    if v is None:
        out[m] = c
    else:
        v = v + c
        if v:
            out[m] = v
        else:
            del out[m]


def _num_binop(name):
    """Handle inf / nan operands of arithmetic with a symbolic operand."""


class Sym(object):
    __slots__ = ('t', '_key', '_sign')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return UFUNC(self, ufunc, method, *inputs, **kw)

    def __init__(self, terms):
        self.t = terms
        self._key = None
        self._sign = None

    # -- structure ---------------------------------------------------------
    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), F0)

    def __hash__(self):
        return hash(self.key)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return show(self)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if all(i == PI_ATOM.id for i, _ in m):
                return float(c) * math.pi ** m[0][1]
        raise SymError('float() of symbolic value %s' % self)

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise SymError('int() of symbolic value')

    def __round__(self, n=None):
        k = 10 ** (n or 0)
        return floor(self * k + Fraction(1, 2)) / k

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise SymError('index() of symbolic value')

    def __bool__(self):
        return bool(self != 0)

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return o                 # inf / nan absorb
        if len(o.t) > len(self.t):
            self, o = o, self
        out = dict(self.t)
        for m, c in o.t.items():
            _acc(out, m, c)
        return Sym(out)
    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return o
        return (-self) + o

    def __mul__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return _inf_mul(self, o)
        if len(o.t) == 1 and () in o.t:
            c0 = o.t[()]
            return Sym({m: c * c0 for m, c in self.t.items()})
        out = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                c = c1 * c2
                if _needs_reduce(m):
                    _reduce_mono(m, c, out)
                else:
                    _acc(out, m, c)
        return Sym(out)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, float) and o == 0 and math.copysign(1., o) < 0:
            return -_div_zero(self)
        o = _operand(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return math.nan if math.isnan(o) else ZERO
        if o.is_const():
            c = o.const()
            if c == 0:
                return _div_zero(self)
            return Sym({m: v / c for m, v in self.t.items()})
        if not self.t:
            return self
        if self.key == o.key:
            note_denominator(o)
            return ONE
        if len(o.t) > 1 and len(self.t) == len(o.t):
            m0 = next(iter(o.t))
            if m0 in self.t:
                c = self.t[m0] / o.t[m0]
                if all(self.t.get(m) == v * c for m, v in o.t.items()):
                    note_denominator(o)
                    return lift(c)
        if CTX.explorer is not None and len(o.t) == 1:
            # a denominator that is zero in one case: fork
            (m, c), = o.t.items()
            for i, e in m:
                a = T.atoms[i]
                if a.kind == 'ite' and e > 0 and any(
                        isinstance(z, Sym) and not z.t for z in a.args[1:]):
                    z = a.args[1] if decide(a.args[0]) else a.args[2]
                    return self / (lift(z) ** e * Sym(
                        {tuple(u for u in m if u[0] != i): c}))
        return self * inverse(o)

    def __rtruediv__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return o
        if not isinstance(o, Sym):
            return _inf_mul(self, o)
        return o / self

    def __floordiv__(self, o):
        return floor(self / o)

    def __mod__(self, o):
        o = _operand(o)
        if not isinstance(o, Sym) or not o.is_const() or o.const() <= 0:
            raise SymError('symbolic modulus')
        return self - o * floor(self / o)

    def __rmod__(self, o):
        raise SymError('symbolic modulus')

    def __pow__(self, n):
        if isinstance(n, Sym) and n.is_const():
            n = n.const()
        if not is_num(n):
            raise SymError('symbolic exponent')
        n = frac(n)
        if n == Fraction(1, 2):
            return self.sqrt()
        if n.denominator != 1:
            raise SymError('fractional exponent')
        n = int(n)
        if n < 0:
            return ONE / (self ** (-n))
        r = ONE
        for _ in range(n):
            r = r * self
        if n == 2:
            T.squares.setdefault(r.key, self)
        return r

    def __abs__(self):
        s = self.sign()
        if s is not None:
            return self if s >= 0 else -self
        if CTX.mode == 'fork':
            return self if decide(ge0(self)) else -self
        # canonical orientation
        lead = self.key[-1][1]
        p = self if lead > 0 else -self
        return ite(ge0(p), p, -p)

    # -- comparisons -------------------------------------------------------
    def __eq__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Sym):
            return FALSE
        return eq0(self - o)

    def __ne__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Sym):
            return TRUE
        return ~eq0(self - o)

    def __gt__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Sym):
            return TRUE if o == -math.inf else FALSE
        return gt0(self - o)

    def __ge__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Sym):
            return TRUE if o == -math.inf else FALSE
        return ge0(self - o)

    def __lt__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Sym):
            return TRUE if o == math.inf else FALSE
        return gt0(o - self)

    def __le__(self, o):
        o = _operand(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Sym):
            return TRUE if o == math.inf else FALSE
        return ge0(o - self)

    # -- functions (method protocol of numpy object loops) -----------------
    def sqrt(self):
        return sqrt(self)

    def deg2rad(self):
        return self * Sym({((PI_ATOM.id, 1),): Fraction(1, 180)})
    radians = deg2rad

    def rad2deg(self):
        return self * Sym({((PI_ATOM.id, -1),): Fraction(180)})
    degrees = rad2deg

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        return tangent(self)

    def arctan2(self, x):
        return arctan2(self, x)

    def arctan(self):
        return arctan(self)

    def arccos(self):
        return arccos(self)

    def arcsin(self):
        return lift(math.pi / 2) - arccos(self)

    def exp(self):
        return exp(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def square(self):
        return self ** 2

    # -- sign --------------------------------------------------------------
    def sign(self):
        """+1 (>0), 0 (>=0), -1 (<0 ...), None.  Purely syntactic:
        returns 2 if >0, 1 if >=0, -2 if <0, -1 if <=0, None unknown."""
        if self._sign is None:
            self._sign = (_syntactic_sign(self),)
        return self._sign[0]


def _operand(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return lift(o)
    if is_num(o):
        if is_nonfinite(o):
            return float(o)
        return lift(o)
    return NotImplemented


def _inf_mul(s, o):
    if math.isnan(o):
        return math.nan
    if decide_cond(gt0(s)):
        return o
    if decide_cond(gt0(-s)):
        return -o
    return math.nan


def _div_zero(s):
    if decide_cond(gt0(s)):
        return math.inf
    if decide_cond(gt0(-s)):
        return -math.inf
    return math.nan


def decide_cond(b):
    return decide(b) if b.op != 'const' else b.val


def _syntactic_sign(p):
    if not p.t:
        return 1
    pos = neg = True
    strict_pos = strict_neg = False
    for m, c in p.t.items():
        sm = _mono_sign(m)
        if sm is None:
            return _interval_sign(p)
        if sm == 0:
            continue
        strict = abs(sm) == 2
        s = (1 if c > 0 else -1) * (1 if sm > 0 else -1)
        if s > 0:
            neg = False
            strict_pos = strict_pos or strict
        else:
            pos = False
            strict_neg = strict_neg or strict
        if not pos and not neg:
            return _interval_sign(p)
    if pos:
        return 2 if strict_pos else 1
    if neg:
        return -2 if strict_neg else -1
    return None


def _interval_sign(p):
    lo, hi = bounds(p)
    if lo is not None:
        if lo > 0:
            return 2
        if lo == 0:
            return 1
    if hi is not None:
        if hi < 0:
            return -2
        if hi == 0:
            return -1
    return None


def _mono_sign(m):
    """2: >0, 1: >=0, -2/-1 analog, None unknown"""
    s = 1
    strict = True
    for i, e in m:
        a = T.atoms[i]
        if a.pos:
            continue
        if e % 2 == 0:
            strict = False
            continue
        if a.nonneg:
            strict = False
            continue
        if a.hi is not None and a.hi < 0 or \
                (a.hi == 0 and a.strict):
            s = -s
            continue
        if a.hi is not None and a.hi <= 0:
            s = -s
            strict = False
            continue
        return None
    return s * (2 if strict else 1)


def atom_bounds(a):
    return a.lo, a.hi


def bounds(p):
    """crude interval of a polynomial: (lo, hi), None = unbounded"""
    lo = hi = F0
    for m, c in p.t.items():
        mlo, mhi = _mono_bounds(m)
        if c < 0:
            mlo, mhi = mhi, mlo
        if lo is not None:
            lo = None if mlo is None else lo + c * mlo
        if hi is not None:
            hi = None if mhi is None else hi + c * mhi
        if lo is None and hi is None:
            break
    return lo, hi


def _mono_bounds(m):
    lo = hi = F1
    for i, e in m:
        a = T.atoms[i]
        alo, ahi = a.lo, a.hi
        if alo is None and a.nonneg:
            alo = F0
        if e < 0:
            if alo is not None and alo > 0:
                alo, ahi = ((F0 if ahi is None else 1 / ahi), 1 / alo)
            elif a.pos:
                alo, ahi = (F0 if ahi is None else 1 / ahi), None
            else:
                return None, None
            e = -e
        for _ in range(e // 2):
            lo, hi = _imul((lo, hi), _isq((alo, ahi)))
        if e % 2:
            lo, hi = _imul((lo, hi), (alo, ahi))
        if lo is None and hi is None:
            return None, None
    return lo, hi


def _isq(i):
    lo, hi = i
    if lo is not None and lo >= 0:
        return lo * lo, None if hi is None else hi * hi
    if hi is not None and hi <= 0:
        return hi * hi, None if lo is None else lo * lo
    if lo is None or hi is None:
        return F0, None
    return F0, max(lo * lo, hi * hi)


def _imul(a, b):
    if None in a or None in b:
        # only handle nonneg half lines
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            hi = None if (a[1] is None or b[1] is None) else a[1] * b[1]
            return a[0] * b[0], hi
        return None, None
    v = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return min(v), max(v)


# --------------------------------------------------------------------------
# atom constructors
# --------------------------------------------------------------------------

def atom_sym(a, e=1):
    return Sym({((a.id, e),): F1})


def var(name, lo=None, hi=None, strict=False):
    lo = None if lo is None else frac(lo)
    hi = None if hi is None else frac(hi)
    pos = lo is not None and (lo > 0 or (lo == 0 and strict))
    nonneg = lo is not None and lo >= 0
    a = T.get('var', name, name, (), lo=lo, hi=hi, pos=pos, nonneg=nonneg,
              strict=strict)
    return atom_sym(a)


def intvar(name, lo=None, hi=None):
    a = T.get('int', name, name, (), lo=None if lo is None else frac(lo),
              hi=None if hi is None else frac(hi))
    return atom_sym(a)


_DENOMS = []


def note_denominator(p):
    ex = CTX.explorer
    if ex is not None:
        ex.note_denominator(p)


def content(p):
    """p = c * mono * q with c>0 rational content, mono the monomial gcd, q
    primitive integer polynomial"""
    num = 0
    den = 1
    first = True
    mins = None
    for m, c in p.t.items():
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for i in list(mins):
                mins[i] = min(mins[i], d.get(i, 0))
            for i in d:
                if i not in mins:
                    mins[i] = min(0, d[i])
    c = Fraction(num, den)
    mono = tuple(sorted((i, e) for i, e in mins.items() if e))
    inv = tuple((i, -e) for i, e in mono)
    q = Sym({_mono_mul(m, inv): v / c for m, v in p.t.items()})
    return c, mono, q


def inverse(p):
    if p.is_const():
        return lift(1 / p.const())
    note_denominator(p)
    c, mono, q = content(p)
    r = Sym({tuple((i, -e) for i, e in mono): 1 / c})
    (m0, c0), = [max(q.t.items())] if len(q.t) > 1 else [next(iter(q.t.items()))]
    if q.is_const():
        r2 = Sym({m: v / q.const() for m, v in r.t.items()})
        return _renorm(r2)
    # canonical sign: leading coefficient positive
    if c0 < 0:
        q = -q
        r = -r
    s = q.sign()
    a = T.get('inv', q.key, 'inv(%s)' % show(q), (q,),
              pos=(s == 2), nonneg=(s in (1, 2)))
    return _renorm(r) * atom_sym(a)


def _renorm(p):
    """re-apply monomial reductions"""
    out = {}
    for m, c in p.t.items():
        if _needs_reduce(m):
            _reduce_mono(m, c, out)
        else:
            _acc(out, m, c)
    return Sym(out)


def _isqrt_frac(f):
    if f < 0:
        return None
    a = math.isqrt(f.numerator)
    b = math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def poly_sqrt(p):
    """exact polynomial square root or None"""
    s = T.squares.get(p.key)
    if s is not None:
        return s
    # graded lex leading term
    order = _order
    try:
        rest = p
        root = ZERO
        lead = None
        for _ in range(12):
            if not rest.t:
                return root
            m = max(rest.t, key=order)
            c = rest.t[m]
            if lead is None:
                r = _isqrt_frac(c)
                if r is None or any(e % 2 for _, e in m):
                    return None
                lead = Sym({tuple((i, e // 2) for i, e in m): r})
                if _needs_reduce(next(iter(lead.t))):
                    return None
                root = lead
            else:
                (lm, lc), = lead.t.items()
                tm = _mono_mul(m, tuple((i, -e) for i, e in lm))
                if any(e < 0 and not T.atoms[i].pos for i, e in tm):
                    return None
                q = c / (2 * lc)
                if q.denominator.bit_length() > 4000:
                    return None
                root = root + Sym({tm: q})
            rest = p - root * root
        return None
    except RecursionError:
        return None


def _order(m):
    """graded lexicographic order"""
    return (sum(e for _, e in m), tuple((-i, e) for i, e in m))


def poly_div(p, d):
    """exact quotient of two polynomials or None"""
    if not d.t:
        return None
    lm = max(d.t, key=_order)
    lc = d.t[lm]
    inv = tuple((i, -e) for i, e in lm)
    out = ZERO
    for _ in range(200):
        if not p.t:
            return out
        m = max(p.t, key=_order)
        tm = _mono_mul(m, inv)
        if any(e < 0 and not T.atoms[i].pos for i, e in tm):
            return None
        q = Sym({tm: p.t[m] / lc})
        out = out + q
        p = p - q * d
    return None


def poly_sqrt_trig(p):
    """square root of p = (A + B sin)^2 where sin^2 was rewritten"""
    s = poly_sqrt(p)
    if s is not None:
        return s
    sins = sorted(set(i for m in p.t for i, e in m
                      if T.atoms[i].kind == 'sin'))
    if not sins:
        cos = set(i for m in p.t for i, e in m if T.atoms[i].kind == 'cos')
        sins = [a.id for a in T.atoms if a.kind == 'sin' and a.extra in cos]
    if len(sins) != 1:
        return None
    i = sins[0]
    p0, p1 = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        if i in d:
            if d.pop(i) != 1:
                return None
            p1[tuple(sorted(d.items()))] = c
        else:
            p0[m] = c
    p0, p1 = Sym(p0), Sym(p1)
    cs = Sym({((T.atoms[i].extra, 1),): F1})
    s2 = ONE - cs * cs
    sn = Sym({((i, 1),): F1})
    if not p1.t:
        b2 = poly_div(p0, s2)
        b = None if b2 is None else poly_sqrt(b2)
        return None if b is None else b * sn
    r = poly_sqrt(p0 * p0 - p1 * p1 * s2)
    if r is None:
        return None
    for sg in (1, -1):
        a = poly_sqrt((p0 + r * sg) * Fraction(1, 2))
        if a is None or not a.t:
            continue
        b = poly_div(p1 * Fraction(1, 2), a)
        if b is None:
            continue
        root = a + b * sn
        if (root * root - p).t:
            continue
        return root
    return None


def cos_parts(z):
    """(N, S, D) with z = N / D, D > 0 and N^2 + S^2 = D^2, or None; N = +-D
    when z is plus or minus one"""
    if not isinstance(z, Sym) or z.is_const():
        return None
    k = z.key
    if k in T.cosparts:
        return T.cosparts[k]
    cache = True
    r = None
    D = ONE
    mins = {}
    for m in z.t:
        for i, e in m:
            a = T.atoms[i]
            if a.kind == 'inv':
                mins[i] = max(mins.get(i, 0), e)
            elif e < 0:
                # a root in a denominator is not zero
                if not a.pos and a.kind != 'sqrt':
                    T.cosparts[k] = None
                    return None
                mins[i] = min(mins.get(i, 0), e)
    N = z
    neg = 0
    for i, e in mins.items():
        a = T.atoms[i]
        if a.kind == 'inv':
            D = D * a.args[0] ** e
            N = N * Sym({((i, -e),): F1})
            if not a.pos and e % 2:
                q = None
                if CTX.explorer is not None:
                    q = CTX.explorer.probe(_mk('>', a.args[0]))
                    cache = False
                if q is None:
                    neg = None
                elif not q and neg is not None:
                    neg += 1
        else:
            f = Sym({((i, -e),): F1})
            D = D * f
            N = N * f
    if mins and not any(T.atoms[i].kind == 'inv' or e < 0
                        for m in N.t for i, e in m):
        q = poly_div(N, D)
        if q is not None and q.is_const() and abs(q.const()) == 1:
            r = (q, ZERO, ONE)
        elif neg is not None:
            if neg % 2:
                N, D = -N, -D
            S = poly_sqrt_trig(D * D - N * N)
            if S is not None:
                r = (N, S, D)
    if cache:
        T.cosparts[k] = r
    return r


def clip(z, lo, hi):
    """maximum(minimum) with cosines of angles kept as they are"""
    if lo is not None and hi is not None and lo <= -1 and hi >= 1 \
            and isinstance(z, Sym):
        cp = cos_parts(z)
        if cp is not None:
            return cp[0] if cp[2] is ONE else z
    if lo is not None:
        z = smax(z, lo)
    if hi is not None:
        z = smin(z, hi)
    return z


def sqrt(p):
    if isinstance(p, (int, float)):
        p = lift(p)
    if p.is_const():
        c = p.const()
        if c < 0:
            return math.nan
        r = _isqrt_frac(c)
        if r is not None:
            return lift(r)
    s = poly_sqrt(p)
    if s is not None:
        return abs(s)
    c, mono, q = content(p)
    # pull even powers of the monomial content out of the root
    out_m, in_m = [], []
    for i, e in mono:
        h = e // 2                   # floor
        if h:
            out_m.append((i, h))
        if e - 2 * h:
            in_m.append((i, e - 2 * h))
    # rational content: split c = r^2 * k with k squarefree-ish
    num, den = c.numerator * c.denominator, c.denominator
    k, r = _squarefree(num)
    rc = Fraction(r, den)
    outer = Sym({tuple(out_m): rc})
    for i, h in out_m:
        if h % 2 and not T.atoms[i].nonneg:
            outer = None
            break
    if outer is None:
        rad = p
        outer = ONE
        # try again to pull out only rational content
        rad = Sym({m: v / (rc * rc) for m, v in p.t.items()})
        outer = lift(rc)
    else:
        rad = Sym({_mono_mul(m, tuple(in_m)): v * k for m, v in q.t.items()})
        rad = _renorm(rad)
    if rad.is_const() and rad.const() == 1:
        return outer
    s = poly_sqrt(rad)
    if s is not None:
        return abs(s) * outer
    sg = rad.sign()
    lo, hi = bounds(rad)
    a = T.get('sqrt', rad.key, 'sqrt(%s)' % show(rad), (rad,), nonneg=True,
              pos=(sg == 2), lo=F0)
    return outer * atom_sym(a)


def _squarefree(n):
    """n = k * r^2 (trial division by small primes)"""
    r = 1
    k = n
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        while k % (p * p) == 0:
            k //= p * p
            r *= p
    s = math.isqrt(k)
    if s * s == k:
        r *= s
        k = 1
    return k, r


def floor(p):
    if p.is_const():
        return lift(math.floor(p.const()))
    a = T.get('floor', p.key, 'floor(%s)' % show(p), (p,))
    return atom_sym(a)


def exp(p):
    if p.is_const():
        return lift(math.exp(p.const()))
    a = T.get('fun', ('exp', p.key), 'exp(%s)' % show(p), (('exp', p),),
              pos=True, lo=F0)
    return atom_sym(a)


def fun(name, *args, **kw):
    """uninterpreted function application (hash-consed => congruent for
    syntactically equal arguments; the solver adds congruence for others)"""
    args = tuple(lift(a) for a in args)
    a = T.get('fun', (name,) + tuple(x.key for x in args),
              '%s(%s)' % (name, ','.join(show(x) for x in args)),
              ((name,) + args,),
              lo=kw.get('lo'), hi=kw.get('hi'), pos=kw.get('pos', False),
              nonneg=kw.get('nonneg', kw.get('lo') is not None
                            and kw.get('lo') >= 0))
    return atom_sym(a)


def ite(c, a, b):
    """if-then-else value"""
    if isinstance(c, (bool,)):
        return a if c else b
    if c.op == 'const':
        return a if c.val else b
    if CTX.explorer is not None:
        if CTX.mode == 'fork':
            return a if decide(c) else b
        k = CTX.explorer.probe(c)
        if k is not None:
            return a if k else b
    if isinstance(a, SymBool) or isinstance(b, SymBool) \
            or (isinstance(a, bool) and isinstance(b, bool)):
        a, b = lift_bool(a), lift_bool(b)
        return (c & a) | (~c & b)
    if is_num(a) and is_num(b) and (a == b):
        return a
    if (is_num(a) and is_nonfinite(a)) or (is_num(b) and is_nonfinite(b)):
        return a if decide(c) else b
    a, b = lift(a), lift(b)
    if a.key == b.key:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    sa, sb = a.sign(), b.sign()
    pos = sa == 2 and sb == 2
    nn = sa in (1, 2) and sb in (1, 2)
    at = T.get('ite', (c.key, a.key, b.key),
               'ite(%s,%s,%s)' % (c, show(a), show(b)), (c, a, b),
               lo=lo, hi=hi, pos=pos, nonneg=nn)
    return atom_sym(at)


def force(x, memo=None):
    """resolve the if-then-else values a value depends on by forking the path
    on their conditions (lazy forking)"""
    memo = {} if memo is None else memo
    if isinstance(x, SymBool):
        if x.op == 'const':
            return x
        if x.op in ('>', '>=', '=='):
            p = force(x.args[0], memo)
            return x if p is x.args[0] else _mk(x.op, p)
        if x.op == 'not':
            return ~force(x.args[0], memo)
        args = [force(a, memo) for a in x.args]
        return conj(args) if x.op == 'and' else disj(args)
    if not isinstance(x, Sym):
        return x
    out = ZERO
    changed = False
    for m, c in x.t.items():
        term = Sym({(): c})
        plain = []
        for i, e in m:
            r = _force_atom(i, memo)
            if r is None:
                plain.append((i, e))
            else:
                changed = True
                r = lift(r)
                term = term * (r ** e if e > 0 else ONE / (r ** -e))
        out = out + (term * Sym({tuple(plain): F1}) if plain else term)
    return out if changed else x


def _force_atom(i, memo):
    if i in memo:
        return memo[i]
    a = T.atoms[i]
    r = None
    if a.kind == 'ite':
        c = force(a.args[0], memo)
        r = force(a.args[1] if decide(c) else a.args[2], memo)
    elif a.kind == 'inv':
        q = force(a.args[0], memo)
        if q is not a.args[0]:
            r = ONE / q
    elif a.kind == 'sqrt':
        q = force(a.args[0], memo)
        if q is not a.args[0]:
            r = sqrt(q)
    memo[i] = r
    return r


def smin(a, b):
    if is_num(a) and is_num(b):
        return min(a, b)
    return ite(a <= b, a, b) if not _nan(a, b) else math.nan


def smax(a, b):
    if is_num(a) and is_num(b):
        return max(a, b)
    return ite(a >= b, a, b) if not _nan(a, b) else math.nan


def _nan(*v):
    return any(is_num(x) and not isinstance(x, Fraction) and math.isnan(x)
               for x in v)


# --------------------------------------------------------------------------
# angles.  An angle atom stands for a number of *degrees*.
#   extra = dict(C=, S=, R=): cos = C/R, sin = S/R with R > 0
# --------------------------------------------------------------------------

def angle(name, lo=-180, hi=180, strict=False):
    """input angle in degrees with bounds"""
    lo, hi = frac(lo), frac(hi)
    a = T.get('ang', name, name, (), lo=lo, hi=hi,
              pos=(lo > 0 or (lo == 0 and strict)), nonneg=lo >= 0,
              strict=strict)
    if a.extra is None:
        c = T.get('cos', a.id, 'cos(%s)' % name, (a,), lo=-F1, hi=F1)
        s = T.get('sin', a.id, 'sin(%s)' % name, (a,), lo=-F1, hi=F1)
        s.extra = c.id
        if lo >= 0 and hi <= 180:
            s.lo, s.nonneg = F0, True
            s.pos = (lo > 0 or (strict and lo == 0)) and \
                (hi < 180 or (strict and hi == 180))
        if lo >= -180 and hi <= 0:
            s.hi = F0
            s.strict = (hi < 0 or strict) and (lo > -180 or strict)
        if lo >= -90 and hi <= 90:
            c.lo, c.nonneg = F0, True
            c.pos = (lo > -90 or strict) and (hi < 90 or strict)
        a.extra = (atom_sym(c), atom_sym(s), ONE)
    return atom_sym(a)


def set_angle_trig(name, C, S, R):
    """override the trig decomposition of an input angle"""
    a = T.by_key[('ang', name)]
    a.extra = (C, S, R)


def _split_degrees(x):
    """radian polynomial -> degree polynomial, or None"""
    out = {}
    for m, c in x.t.items():
        d = dict(m)
        if d.pop(PI_ATOM.id, None) != 1:
            return None
        out[tuple(sorted(d.items()))] = c * 180
    return Sym(out)


def trig_h(x):
    """homogeneous trig (C, S, R) of a radian-valued Sym"""
    if x.is_const() and x.const() == 0:
        return ONE, ZERO, ONE
    if x.is_const():
        c = float(x.const())
        return lift(math.cos(c)), lift(math.sin(c)), ONE
    r = _trig_of_ite(x)
    if r is not None:
        return r
    L = _split_degrees(x)
    if L is None:
        # opaque radian value
        deg = x * Sym({((PI_ATOM.id, -1),): Fraction(180)})
        return _opaque_angle(deg)
    return trig_deg(L)


def _trig_of_ite(x):
    """angles given by cases: the cases of their sines and cosines"""
    for m in x.t:
        for i, e in m:
            a = T.atoms[i]
            if a.kind != 'ite':
                continue
            if e != 1 or CTX.mode != 'ite' or \
                    sum(1 for n in x.t for j, _ in n if j == i) != 1:
                return None
            rest = Sym({n: v for n, v in x.t.items() if n != m})
            fac = Sym({tuple(u for u in m if u[0] != i): x.t[m]})
            u = trig_h(rest + fac * a.args[1])
            v = trig_h(rest + fac * a.args[2])
            return tuple(lift(ite(a.args[0], p, q)) for p, q in zip(u, v))
    return None


def _opaque_angle(deg):
    a = T.get('angx', deg.key, 'angle(%s)' % show(deg), (deg,))
    if a.extra is None:
        c = T.get('cos', a.id, 'cos(%s)' % a.name, (a,), lo=-F1, hi=F1)
        s = T.get('sin', a.id, 'sin(%s)' % a.name, (a,), lo=-F1, hi=F1)
        s.extra = c.id
        a.extra = (atom_sym(c), atom_sym(s), ONE)
    return a.extra


_CS90 = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def trig_deg(L):
    C, S, R = ONE, ZERO, ONE
    rest = {}
    for m, c in L.t.items():
        if m == ():
            k = c % 360
            if k in _CS90:
                cc, ss = _CS90[k]
                cc, ss = lift(cc), lift(ss)
            elif k in (60, 120, 240, 300):
                cc = lift(Fraction(1, 2) if k in (60, 300)
                          else Fraction(-1, 2))
                ss = sqrt(lift(Fraction(3, 4))) * (1 if k < 180 else -1)
            elif k in (30, 150, 210, 330):
                ss = lift(Fraction(1, 2) if k < 180 else Fraction(-1, 2))
                cc = sqrt(lift(Fraction(3, 4))) * (1 if k in (30, 330) else -1)
            elif k in (45, 135, 225, 315):
                h = sqrt(lift(Fraction(1, 2)))
                cc = h * (1 if k in (45, 315) else -1)
                ss = h * (1 if k < 180 else -1)
            else:
                rad = math.radians(float(k))
                cc, ss = lift(math.cos(rad)), lift(math.sin(rad))
            C, S = C * cc - S * ss, S * cc + C * ss
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = T.atoms[m[0][0]]
            if a.kind == 'ang' and c.denominator == 1 and abs(c) <= 4:
                ac, as_, ar = a.extra
                if c < 0:
                    as_ = -as_
                for _ in range(abs(int(c))):
                    C, S = C * ac - S * as_, S * ac + C * as_
                    R = R * ar
                continue
            if a.kind in ('floor', 'int') and c.denominator == 1 \
                    and int(c) % 360 == 0:
                continue
        rest[m] = c
    if rest:
        oc, os_, or_ = _opaque_angle(Sym(rest))
        C, S = C * oc - S * os_, S * oc + C * os_
        R = R * or_
    return C, S, R


def trig(x):
    C, S, R = trig_h(x)
    if R.is_const() and R.const() == 1:
        return C, S
    return C / R, S / R


def tangent(x):
    C, S, R = trig_h(x)
    if C.is_const() and C.const() == 0:
        # tan(pi/2) in floating point is a huge number, not an infinity
        return lift(1633123935319537e1) * (1 if S.const() > 0 else -1)
    return S / C


def _derived_angle(kind, key, name, args, C, S, R, lo, hi):
    a = T.get('ang', (kind,) + key, name, (kind,) + args, lo=frac(lo),
              hi=frac(hi))
    if a.extra is None:
        a.extra = (C, S, R)
        if a.lo >= 0:
            a.nonneg = True
    return atom_sym(a) * Sym({((PI_ATOM.id, 1),): Fraction(1, 180)})


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if y.is_const() and x.is_const():
        return lift(math.atan2(y.const(), x.const()))
    r = sqrt(x * x + y * y)
    sy = y.sign()
    lo, hi = -180, 180
    if sy in (1, 2):
        lo = 0
    if sy in (-1, -2):
        hi = 0
    return _derived_angle('atan2', (y.key, x.key),
                          'atan2(%s,%s)' % (show(y), show(x)), (y, x),
                          x, y, r, lo, hi)


def arctan(z):
    if z.is_const():
        return lift(math.atan(z.const()))
    r = sqrt(1 + z * z)
    sz = z.sign()
    lo, hi = -90, 90
    if sz in (1, 2):
        lo = 0
    if sz in (-1, -2):
        hi = 0
    return _derived_angle('atan', (z.key,), 'atan(%s)' % show(z), (z,), ONE,
                          z, r, lo, hi)


def arccos(z):
    if z.is_const():
        return lift(math.acos(z.const()))
    cp = cos_parts(z)
    if cp is not None:
        if cp[2] is ONE:
            return lift(math.acos(cp[0].const()))
        if CTX.mode == 'ite':
            S = abs(cp[1])
        else:
            rad = cp[1] * cp[1]
            S = atom_sym(T.get('sqrt', rad.key, 'sqrt(%s)' % show(rad),
                               (rad,), nonneg=True, lo=F0))
        return _derived_angle('acos', (z.key,), 'acos(%s)' % show(z), (z,),
                              cp[0], S, cp[2], 0, 180)
    return _derived_angle('acos', (z.key,), 'acos(%s)' % show(z), (z,), z,
                          sqrt(1 - z * z), ONE, 0, 180)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------

class SymBool(object):
    __slots__ = ('op', 'args', 'val', '_key')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return UFUNC(self, ufunc, method, *inputs, **kw)

    def __init__(self, op, args=(), val=None):
        self.op = op
        self.args = args
        self.val = val
        self._key = None

    @property
    def key(self):
        if self._key is None:
            if self.op == 'const':
                self._key = ('const', self.val)
            elif self.op in ('>', '>=', '=='):
                self._key = (self.op, self.args[0].key)
            else:
                self._key = (self.op,) + tuple(a.key for a in self.args)
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        return decide(self)

    def __invert__(self):
        if self.op == 'const':
            return FALSE if self.val else TRUE
        if self.op == 'not':
            return self.args[0]
        if self.op == '>':
            return _mk('>=', -self.args[0])
        if self.op == '>=':
            return _mk('>', -self.args[0])
        return SymBool('not', (self,))

    def __and__(self, o):
        o = lift_bool(o)
        if self.op == 'const':
            return o if self.val else FALSE
        if o.op == 'const':
            return self if o.val else FALSE
        if self.key == o.key:
            return self
        return SymBool('and', (self, o))
    __rand__ = __and__

    def __or__(self, o):
        o = lift_bool(o)
        if self.op == 'const':
            return TRUE if self.val else o
        if o.op == 'const':
            return TRUE if o.val else self
        if self.key == o.key:
            return self
        return SymBool('or', (self, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = lift_bool(o)
        return (self & ~o) | (~self & o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (Sym,)) or (is_num(o) and not isinstance(o, bool)):
            return lift(self) == o
        return ~(self ^ lift_bool(o))

    def __ne__(self, o):
        if isinstance(o, (Sym,)) or (is_num(o) and not isinstance(o, bool)):
            return lift(self) != o
        return self ^ lift_bool(o)

    # arithmetic on masks
    def __mul__(self, o):
        return lift(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __neg__(self):
        return -lift(self)

    def __float__(self):
        return float(lift(self))

    def __gt__(self, o):
        return lift(self) > o

    def __ge__(self, o):
        return lift(self) >= o

    def __lt__(self, o):
        return lift(self) < o

    def __le__(self, o):
        return lift(self) <= o

    def logical_not(self):
        return ~self

    def __repr__(self):
        if self.op == 'const':
            return str(self.val)
        if self.op in ('>', '>=', '=='):
            return '(%s %s 0)' % (show(self.args[0]), self.op)
        if self.op == 'not':
            return '!%s' % (self.args[0],)
        return '(' + (' %s ' % self.op).join(map(str, self.args)) + ')'


TRUE = SymBool('const', val=True)
FALSE = SymBool('const', val=False)


def lift_bool(b):
    if isinstance(b, SymBool):
        return b
    if isinstance(b, Sym):
        return b != 0
    return TRUE if bool(b) else FALSE


def conj(bs):
    r = TRUE
    for b in bs:
        r = r & b
    return r


def disj(bs):
    r = FALSE
    for b in bs:
        r = r | b
    return r


def _mk(op, p):
    """canonical comparison p op 0 (op in '>', '>=', '==')"""
    if p.is_const():
        c = p.const()
        return TRUE if (c > 0 if op == '>' else c >= 0 if op == '>='
                        else c == 0) else FALSE
    s = p.sign()
    if s is not None:
        if op == '>':
            if s == 2:
                return TRUE
            if s in (-1, -2):
                return FALSE
        elif op == '>=':
            if s in (1, 2):
                return TRUE
            if s == -2:
                return FALSE
        elif s in (2, -2):
            return FALSE
    # strip positive content
    c, mono, q = content(p)
    keep = []
    for i, e in mono:
        a = T.atoms[i]
        if a.pos:
            continue
        if op == '>=' and a.nonneg and e > 0:
            # x>=0: x*q >= 0 is (x == 0 or q >= 0): keep the factor
            keep.append((i, e))
            continue
        keep.append((i, e))
    if keep:
        q = _renorm(Sym({_mono_mul(m, tuple(keep)): v
                         for m, v in q.t.items()}))
    if op == '==':
        lead = q.key[-1][1]
        if lead < 0:
            q = -q
    t = _angle_cmp(op, q)
    if t is None:
        t = _ite_cmp(op, q)
    if t is not None:
        return t
    return SymBool(op, (q,))


def gt0(p):
    return _mk('>', p)


def ge0(p):
    return _mk('>=', p)


def eq0(p):
    return _mk('==', p)


def _ite_cmp(op, q):
    """comparison of one if-then-else value between angles with a
    constant"""
    ats = set(i for m in q.t for i, e in m if T.atoms[i].kind == 'ite')
    if len(ats) != 1:
        return None
    i = ats.pop()
    a = T.atoms[i]
    rest, fac = {}, {}
    for m, c in q.t.items():
        d = dict(m)
        if i in d:
            if d.pop(i) != 1:
                return None
            fac[tuple(sorted(d.items()))] = c
        elif any(T.atoms[x].kind == 'ang' for x in d):
            return None
        else:
            rest[m] = c
    if not any(T.atoms[x].kind == 'ang' for b in a.args[1:3]
               for m in b.t for x, e in m):
        return None
    rest, fac = Sym(rest), Sym(fac)
    x = _mk(op, fac * a.args[1] + rest)
    y = _mk(op, fac * a.args[2] + rest)
    return (a.args[0] & x) | (~a.args[0] & y)


def _angle_cmp(op, q):
    """comparison whose polynomial is linear in angle (degree) atoms:
    translate into a comparison of trigonometric values when the ranges make
    that exact; None when not applicable."""
    angs = []
    const = F0
    for m, c in q.t.items():
        # allow a uniform PI power (already stripped: PI is positive)
        mm = tuple((i, e) for i, e in m if i != PI_ATOM.id)
        if mm == ():
            if m == ():
                const_ok = True
            const = c
            cm = m
            continue
        if len(mm) == 1 and mm[0][1] == 1 and \
                T.atoms[mm[0][0]].kind == 'ang':
            angs.append((T.atoms[mm[0][0]], c, m))
        else:
            return None
    if not angs or len(angs) > 2:
        return None
    # the PI power must be uniform for the translation: content() strips it
    pis = set(dict(m).get(PI_ATOM.id, 0) for m in q.t)
    if len(pis) > 1:
        # degrees compared against radians, or a radian literal threshold
        # angs carry PI/180 and the constant is a number: convert
        if any(dict(m).get(PI_ATOM.id, 0) != 1 for _, _, m in angs):
            return None
        const = const / Fraction(repr(math.pi))
    if len(angs) == 1:
        a, c, _ = angs[0]
        # c*a + const op 0   <=> a op' -const/c
        t = -const / c
        if op == '==':
            return _ang_eq(a, t)
        if c > 0:
            return _ang_gt(a, t, op == '>=')
        return ~_ang_gt(a, t, op == '>')
    (a1, c1, _), (a2, c2, _) = angs
    if c1 + c2 == 0 and const == 0:
        # c1*(a1 - a2) op 0
        if c1 < 0:
            a1, a2 = a2, a1
        return _ang_cmp2(a1, a2, op)
    if c1 == c2:
        # c*(a1 + a2) + const op 0 : a1 op t - a2 with both in [0,180] and
        # t == 180: a1 > 180 - a2
        t = -const / c1
        if t == 0 and a1.lo >= -90 and a1.hi <= 90 and a2.lo >= -90 \
                and a2.hi <= 90:
            # a1 > -a2, both in [-90, 90]
            C1, S1, R1 = a1.extra
            C2, S2, R2 = a2.extra
            if C1.sign() == 2 or C2.sign() == 2:
                d = C2 * S1 + S2 * C1
            else:
                d = S1 * R2 + S2 * R1
            return _mk(op, d if c1 > 0 or op == '==' else -d)
        if t == 180 and a1.lo >= 0 and a1.hi <= 180 and a2.lo >= 0 \
                and a2.hi <= 180:
            # cos(a1) < cos(180-a2) = -cos(a2)
            C1, _, R1 = a1.extra
            C2, _, R2 = a2.extra
            d = -(C2 * R1) - C1 * R2
            r = _mk(op, d) if op != '==' else eq0(d)
            if c1 < 0 and op != '==':
                r = _mk(op, -d)
            return r
    return None


def _const_trig(t):
    return trig_deg(lift(t))


def _ang_eq(a, t):
    if t < a.lo or t > a.hi or (a.strict and (t == a.lo or t == a.hi)):
        return FALSE
    C, S, R = a.extra
    ct, st, _ = _const_trig(t)
    if a.lo >= -90 and a.hi <= 90:
        return eq0(S - st * R)
    if a.lo >= 0 and a.hi <= 180:
        return eq0(C - ct * R)
    if a.hi - a.lo < 360 or a.strict:
        return eq0(S - st * R) & eq0(C - ct * R)
    return eq0(S - st * R) & eq0(C - ct * R)


def _ang_gt(a, t, or_eq):
    """a > t (a >= t if or_eq)"""
    mk = ge0 if or_eq else gt0
    if t < a.lo:
        return TRUE
    if t > a.hi:
        return FALSE
    if t == a.hi and (a.strict or not or_eq):
        return FALSE
    if t == a.lo and (a.strict or or_eq):
        return TRUE
    C, S, R = a.extra
    ct, st, _ = _const_trig(t)
    if a.lo >= -90 and a.hi <= 90:
        return mk(S - st * R)
    if a.lo >= 0 and a.hi <= 180:
        return mk(ct * R - C)
    if a.lo >= -180 and a.hi <= 180:
        # value in (-180, 180]
        if t == 0:
            if or_eq:
                # a >= 0 : S > 0 or (S == 0)  (S==0 & C<0 is +180)
                return ge0(S)
            return gt0(S) | (eq0(S) & gt0(-C))
        if t > 0:
            # a > t: S >= 0 and C < ct R  (upper half plane)
            up = ge0(S)
            return up & mk(ct * R - C)
        # t < 0: upper half plane or (lower and C > ct R)
        return ge0(S) | (gt0(-S) & mk(C - ct * R))
    if a.lo >= 0 and a.hi <= 360:
        if t == 180:
            if or_eq:
                return gt0(-S) | (eq0(S) & gt0(-C))
            return gt0(-S)
        if t < 180:
            return gt0(-S) | mk(ct * R - C)
        return gt0(-S) & mk(C - ct * R)
    return None


def _upper(a):
    """(angle known to be in [0, 180], sine known to be positive)"""
    s = a.extra[1]
    sg = s.sign()
    up = a.lo >= 0 and a.hi <= 180
    if sg == 2 or CTX.explorer is None:
        return up, sg == 2
    if a.args[0] == 'atan2' or up:
        if CTX.explorer.probe(_mk('>', s)):
            return True, True
    return up, False


def _ang_cmp2(a1, a2, op):
    C1, S1, R1 = a1.extra
    C2, S2, R2 = a2.extra
    up1, s1 = _upper(a1)
    up2, s2 = _upper(a2)
    if up1 and up2:
        # a1 > a2 <=> cross(v2, v1) > 0 except when antiparallel
        cross = C2 * S1 - S2 * C1
        if s1 or s2:
            # at most one of them is 0/180: cross decides
            return _mk(op, cross)
        # general: use cosines
        d = C2 * R1 - C1 * R2
        return _mk(op, d)
    if a1.lo >= -90 and a1.hi <= 90 and a2.lo >= -90 and a2.hi <= 90:
        cross = C2 * S1 - S2 * C1
        c1, c2 = C1.sign(), C2.sign()
        if c1 == 2 or c2 == 2:
            return _mk(op, cross)
        return _mk(op, S1 * R2 - S2 * R1)
    return None


# --------------------------------------------------------------------------
# printing and numeric evaluation
# --------------------------------------------------------------------------

def show(p, limit=400):
    if not isinstance(p, Sym):
        return repr(p)
    if not p.t:
        return '0'
    out = []
    n = 0
    for m, c in sorted(p.t.items(), key=lambda kv: kv[0]):
        s = '*'.join(T.atoms[i].name + ('^%d' % e if e != 1 else '')
                     for i, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
        n += len(s)
        if n > limit:
            out.append('...')
            break
    return ' + '.join(out)


def ite_conditions(p, limit):
    """conditions of the if-then-else terms in an expression"""
    out, seen, todo = [], set(), [p]
    while todo and len(out) < limit:
        q = todo.pop()
        if isinstance(q, SymBool):
            if q.op in ('and', 'or', 'not', '>', '>=', '=='):
                todo.extend(q.args)
            continue
        if not isinstance(q, Sym):
            continue
        for m in q.t:
            for i, e in m:
                if i in seen:
                    continue
                seen.add(i)
                a = T.atoms[i]
                if a.kind == 'ite':
                    out.append(a.args[0])
                if a.kind in ('ite', 'sqrt', 'inv', 'floor'):
                    todo.extend(a.args)
    return out[:limit]


class Evaluator(object):
    """float evaluation of symbolic values under a model
    (dict: base atom name -> float)."""

    def __init__(self, model):
        self.model = model
        self.memo = {}

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            v = self._atom(T.atoms[i])
            self.memo[i] = v
        return v

    def _atom(self, a):
        k = a.kind
        if k == 'pi':
            return math.pi
        if k in ('var', 'int'):
            return self.model[a.name]
        if k == 'ang':
            if not a.args:
                return self.model[a.name]
            kind = a.args[0]
            if kind == 'atan2':
                return math.degrees(math.atan2(self.poly(a.args[1]),
                                               self.poly(a.args[2])))
            if kind == 'atan':
                return math.degrees(math.atan(self.poly(a.args[1])))
            if kind == 'acos':
                return math.degrees(math.acos(
                    max(-1., min(1., self.poly(a.args[1])))))
            raise SymError('eval ' + kind)
        if k == 'angx':
            return self.poly(a.args[0])
        if k == 'cos':
            return math.cos(math.radians(self.atom(a.args[0].id)))
        if k == 'sin':
            return math.sin(math.radians(self.atom(a.args[0].id)))
        if k == 'sqrt':
            v = self.poly(a.args[0])
            return math.sqrt(v) if v >= 0 else (0. if v > -1e-9 else math.nan)
        if k == 'inv':
            v = self.poly(a.args[0])
            return 1. / v if v != 0 else math.inf
        if k == 'ite':
            return self.poly(a.args[1]) if self.bool(a.args[0]) \
                else self.poly(a.args[2])
        if k == 'floor':
            return math.floor(self.poly(a.args[0]))
        if k == 'fun':
            name = a.args[0][0]
            if name == 'exp':
                return math.exp(self.poly(a.args[0][1]))
            impl = FUN_IMPL.get(name)
            if impl is not None:
                return impl(*[self.poly(x) for x in a.args[0][1:]])
            if a.name in self.model:
                return self.model[a.name]
            raise SymError('eval of uninterpreted ' + a.name)
        raise SymError('eval ' + k)

    def poly(self, p):
        if not isinstance(p, Sym):
            return float(p)
        tot = 0.
        for m, c in p.t.items():
            v = float(c)
            for i, e in m:
                b = self.atom(i)
                try:
                    v *= b ** e
                except (ZeroDivisionError, OverflowError):
                    v = math.nan
            tot += v
        return tot

    def bool(self, b):
        if b.op == 'const':
            return b.val
        if b.op == '>':
            return self.poly(b.args[0]) > 0
        if b.op == '>=':
            return self.poly(b.args[0]) >= 0
        if b.op == '==':
            return abs(self.poly(b.args[0])) < 1e-12
        if b.op == 'not':
            return not self.bool(b.args[0])
        if b.op == 'and':
            return all(self.bool(x) for x in b.args)
        if b.op == 'or':
            return any(self.bool(x) for x in b.args)
        raise SymError(b.op)

    def slack(self, b):
        """smallest |lhs| of the comparisons in b (distance to a flip)"""
        if b.op == 'const':
            return math.inf
        if b.op in ('>', '>=', '=='):
            return abs(self.poly(b.args[0]))
        return min(self.slack(x) for x in b.args)


FUN_IMPL = {}
ZERO = Sym({})
ONE = Sym({(): F1})
_init_consts()
