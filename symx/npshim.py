"""numpy on symbolic values.

``SymArray`` is an object-dtype ndarray subclass whose ufuncs / array functions
are evaluated with symbolic semantics.  ``install()`` puts an import hook in
place so that modules of the package under test that import numpy / math get
proxies of these modules: constructors return SymArrays, the elementwise
functions and the few C level routines used on data (where, linalg.inv ...)
accept symbolic values.  Nothing of the package itself is rewritten.
"""
import builtins
from fractions import Fraction
import math
import types
import numpy as np
from .core import (Sym, SymBool, SymError, lift, lift_bool, is_num,
                   is_nonfinite, ite, smin, smax, sqrt, arctan2, CTX, TRUE,
                   FALSE, decide, conj, disj, floor, ZERO, ONE)
from . import core

TARGET_PREFIX = 'pvfactors'


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _num1(uf, meth):
    def f(x):
        if is_sym(x):
            return getattr(lift(x), meth)()
        with np.errstate(all='ignore'):
            return float(uf(float(x)))
    return f


def _abs(x):
    return abs(lift(x)) if is_sym(x) else abs(x)


def _sqrt(x):
    if is_sym(x):
        return sqrt(lift(x))
    return math.sqrt(x) if x >= 0 else math.nan


def _arctan2(y, x):
    if is_sym(x) or is_sym(y):
        for v in (x, y):
            if not is_sym(v) and not math.isfinite(v):
                if math.isnan(v):
                    return math.nan
                if v is y:
                    return math.copysign(math.pi / 2, y)
                return 0. if x > 0 else ite(lift(y) >= 0, lift(math.pi),
                                            lift(-math.pi))
        return arctan2(y, x)
    return math.atan2(y, x)


def _bin(op):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            if isinstance(a, SymBool):
                a = lift(a)
            if isinstance(b, SymBool):
                b = lift(b)
            return op(a, b)
        with np.errstate(all='ignore'):
            r = op(np.float64(a) if not isinstance(a, (int, np.integer)) else a,
                   np.float64(b) if not isinstance(b, (int, np.integer)) else b)
        return r.item() if isinstance(r, np.generic) else r
    return f


def _div(a, b):
    if is_sym(a) or is_sym(b):
        if not is_sym(b):
            if b == 0:
                return core._div_zero(lift(a)) * (
                    math.copysign(1., b) if isinstance(b, float) else 1.)
            return lift(a) / b
        if not is_sym(a) and is_nonfinite(a):
            return core._inf_mul(lift(b), float(a))
        return lift(a) / lift(b)
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def _cmp(name):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            if name in ('==', '!=') and isinstance(a, SymBool) \
                    and isinstance(b, (SymBool, bool, np.bool_)):
                r = (a == lift_bool(b))
                return r if name == '==' else ~r
            if isinstance(a, SymBool):
                a = lift(a)
            if isinstance(b, SymBool):
                b = lift(b)
            if not is_sym(a):
                # reflect
                r = {'>': lambda: b < a, '>=': lambda: b <= a,
                     '<': lambda: b > a, '<=': lambda: b >= a,
                     '==': lambda: b == a, '!=': lambda: b != a}[name]()
            else:
                r = {'>': lambda: a > b, '>=': lambda: a >= b,
                     '<': lambda: a < b, '<=': lambda: a <= b,
                     '==': lambda: a == b, '!=': lambda: a != b}[name]()
            if isinstance(r, SymBool) and r.op == 'const':
                return r.val
            return r
        return bool({'>': lambda: a > b, '>=': lambda: a >= b,
                     '<': lambda: a < b, '<=': lambda: a <= b,
                     '==': lambda: a == b, '!=': lambda: a != b}[name]())
    return f


def _b(x):
    return lift_bool(x)


def _unb(b):
    return b.val if b.op == 'const' else b


def _pow(a, b):
    if is_sym(a):
        return lift(a) ** b
    return float(a) ** float(b)


def _mod(a, b):
    if is_sym(a) or is_sym(b):
        return lift(a) % lift(b)
    return float(np.mod(a, b))


def _sign(x):
    if is_sym(x):
        return ite(x > 0, ONE, ite(x < 0, lift(-1), ZERO))
    return float(np.sign(x))


def _isnan(x):
    return False if is_sym(x) else bool(np.isnan(x))


def _isfinite(x):
    return True if is_sym(x) else bool(np.isfinite(x))


def _isinf(x):
    return False if is_sym(x) else bool(np.isinf(x))


def _invert(x):
    if is_sym(x):
        return _unb(~_b(x))
    return (not x) if isinstance(x, (bool, np.bool_)) else ~x


def _fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return smin(a, b)


def _fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return smax(a, b)


import operator as _op

ELEM = {
    'add': _bin(_op.add), 'subtract': _bin(_op.sub),
    'multiply': _bin(_op.mul), 'divide': _div, 'true_divide': _div,
    'floor_divide': lambda a, b: _floor(_div(a, b)),
    'negative': lambda x: -x, 'positive': lambda x: x,
    'absolute': _abs, 'fabs': _abs, 'sqrt': _sqrt,
    'square': lambda x: x ** 2, 'power': _pow, 'float_power': _pow,
    'cos': _num1(np.cos, 'cos'), 'sin': _num1(np.sin, 'sin'),
    'tan': _num1(np.tan, 'tan'), 'arctan': _num1(np.arctan, 'arctan'),
    'arccos': _num1(np.arccos, 'arccos'), 'arcsin': _num1(np.arcsin, 'arcsin'),
    'exp': _num1(np.exp, 'exp'),
    'deg2rad': _num1(np.deg2rad, 'deg2rad'),
    'radians': _num1(np.deg2rad, 'deg2rad'),
    'rad2deg': _num1(np.rad2deg, 'rad2deg'),
    'degrees': _num1(np.rad2deg, 'rad2deg'),
    'arctan2': _arctan2,
    'hypot': lambda a, b: _hypot(a, b),
    'maximum': smax, 'minimum': smin, 'fmax': _fmax, 'fmin': _fmin,
    'greater': _cmp('>'), 'greater_equal': _cmp('>='), 'less': _cmp('<'),
    'less_equal': _cmp('<='), 'equal': _cmp('=='), 'not_equal': _cmp('!='),
    'logical_and': lambda a, b: _unb(_b(a) & _b(b)),
    'logical_or': lambda a, b: _unb(_b(a) | _b(b)),
    'logical_xor': lambda a, b: _unb(_b(a) ^ _b(b)),
    'logical_not': lambda a: _unb(~_b(a)),
    'bitwise_and': lambda a, b: _unb(_b(a) & _b(b)),
    'bitwise_or': lambda a, b: _unb(_b(a) | _b(b)),
    'bitwise_xor': lambda a, b: _unb(_b(a) ^ _b(b)),
    'invert': _invert, 'isnan': _isnan, 'isfinite': _isfinite,
    'isinf': _isinf,
    'remainder': _mod, 'mod': _mod, 'sign': _sign,
    'floor': lambda x: _floor(x),
    'reciprocal': lambda x: _div(1., x),
    'rint': lambda x: _rint(x), 'ceil': lambda x: -_floor(-x),
    'trunc': lambda x: _trunc(x),
    'fmod': lambda a, b: a - b * _trunc(_div(a, b)),
    'copysign': lambda a, b: _abs(a) * _pm(b),
    'heaviside': lambda x, h: ite_(x > 0, 1., ite_(x < 0, 0., h)),
    'conjugate': lambda x: x,
}
BOOLS = {'greater', 'greater_equal', 'less', 'less_equal', 'equal',
         'not_equal', 'logical_and', 'logical_or', 'logical_xor',
         'logical_not', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert',
         'isnan', 'isfinite', 'isinf'}


def _hypot(a, b):
    if not is_sym(a) and not is_sym(b):
        return math.hypot(a, b)
    return _sqrt(ELEM['add'](ELEM['multiply'](a, a), ELEM['multiply'](b, b)))


def _floor(x):
    return floor(lift(x)) if is_sym(x) else float(np.floor(float(x)))


def ite_(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    return ite(c, a, b)


def _pm(b):
    return ite_(b >= 0, 1., -1.)


def _rint(x):
    """ties do not matter: counterexamples are replayed"""
    if not is_sym(x):
        return float(np.rint(float(x)))
    return floor(lift(x) + Fraction(1, 2))


def _trunc(x):
    if not is_sym(x):
        return float(np.trunc(float(x)))
    return ite_(lift(x) >= 0, _floor(x), -_floor(-x))


def _round(x, decimals=0, out=None):
    if not _contains_sym(x):
        return np.round(x, decimals)
    k = 10. ** decimals
    f = np.frompyfunc(lambda v: _div(_rint(lift(v) * k), k)
                      if is_sym(v) else round(float(v), decimals), 1, 1)
    r = f(base(wrap1sym(x)))
    return wrap(r) if isinstance(r, np.ndarray) else r


_PYF = {}


def _pyf(name, nin):
    f = _PYF.get(name)
    if f is None:
        e = ELEM.get(name)
        if e is None:
            raise SymError('numpy function %s on symbolic data' % name)
        f = np.frompyfunc(e, nin, 1)
        _PYF[name] = f
    return f


def base(x):
    """view as plain object ndarray"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return base(_array(x))
    a = np.empty((), dtype=object)
    a[()] = x.item() if isinstance(x, np.generic) else x
    return a


def wrap(r, boolean=False):
    if isinstance(r, np.ndarray):
        if r.dtype != object:
            return r
        if boolean and all(isinstance(v, (bool, np.bool_)) for v in r.flat):
            return r.astype(bool)
        if r.ndim == 0:
            return r[()]
        return r.view(SymArray)
    return r


class SymArray(np.ndarray):
    """object array of Sym / SymBool / python numbers"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        kw.pop('subok', None)
        kw.pop('order', None)
        if name == 'matmul':
            r = wrap(np.dot(base(inputs[0]), base(inputs[1])))
            return _put(out, r)
        f = _pyf(name, ufunc.nin)
        if method == '__call__':
            arrs = [base(i) for i in inputs]
            r = f(*arrs)
            if where is not True:
                cur = base(out[0]) if out is not None else None
                if cur is None:
                    cur = np.zeros(np.shape(r), dtype=object)
                r = base(_where(where, r, cur))
            r = wrap(r, name in BOOLS)
            return _put(out, r)
        if method == 'reduce':
            a = base(inputs[0])
            axis = kw.get('axis', 0)
            keepdims = kw.get('keepdims', False)
            initial = kw.get('initial', np._NoValue)
            if len(inputs) > 1:
                axis = inputs[1]
            if where is not True:
                ident = {'add': 0., 'multiply': 1., 'logical_and': True,
                         'logical_or': False}.get(name)
                if ident is None:
                    ident = initial
                a = base(_where(where, a, np.full(a.shape, ident,
                                                  dtype=object)))
            axes = tuple(range(a.ndim)) if axis is None else (
                (axis,) if not isinstance(axis, tuple) else axis)
            axes = tuple(sorted(ax % a.ndim for ax in axes)) if a.ndim else ()
            r = a
            ident = {'add': 0, 'multiply': 1, 'logical_and': True,
                     'logical_or': False}.get(name)
            for ax in reversed(axes):
                if r.shape[ax] == 0:
                    r = np.full(r.shape[:ax] + r.shape[ax + 1:], ident,
                                dtype=object)
                else:
                    acc = r.take(0, axis=ax)
                    if name in ('logical_and', 'logical_or'):
                        acc = f(acc, ident)
                    for k in range(1, r.shape[ax]):
                        acc = f(acc, r.take(k, axis=ax))
                    r = acc if isinstance(acc, np.ndarray) else base(acc)
            if initial is not np._NoValue and initial is not None:
                r = f(r, initial)
                r = r if isinstance(r, np.ndarray) else base(r)
            if keepdims:
                shp = [1 if i in axes else n
                       for i, n in enumerate(inputs[0].shape)]
                r = r.reshape(shp)
            return _put(out, wrap(r, name in BOOLS))
        if method == 'accumulate':
            a = base(inputs[0])
            r = f.accumulate(a, axis=kw.get('axis', 0))
            return _put(out, wrap(r))
        if method == 'outer':
            return wrap(f.outer(base(inputs[0]), base(inputs[1])))
        raise SymError('ufunc method %s.%s' % (name, method))

    def __array_function__(self, func, types_, args, kwargs):
        ov = OVERRIDES.get(func.__name__)
        if ov is not None:
            return ov(*args, **kwargs)
        r = super().__array_function__(
            func, tuple(SymArray if issubclass(t, SymArray) else t
                        for t in types_), args, kwargs)
        return rewrap(r)

    def __array_wrap__(self, obj, context=None):
        return wrap(obj)

    def __getitem__(self, idx):
        idx = _concrete_index(idx)
        r = super().__getitem__(idx)
        return r

    def __setitem__(self, idx, val):
        if isinstance(idx, np.ndarray) and idx.dtype == object \
                and idx.shape == self.shape:
            new = _where(idx, val, self)
            super().__setitem__(Ellipsis, base(new))
            return
        idx = _concrete_index(idx)
        if isinstance(val, SymArray):
            val = val.view(np.ndarray)
        super().__setitem__(idx, val)

    def astype(self, dtype, *a, **k):
        if dtype in (bool, np.bool_, 'bool'):
            r = np.empty(self.shape, dtype=bool)
            for i in np.ndindex(*self.shape):
                r[i] = bool(base(self)[i])
            return r
        if dtype in (int, np.int64, 'int', 'int64', np.intp):
            f = np.frompyfunc(lambda v: ite_(v, 1., 0.)
                              if isinstance(v, SymBool) else _trunc(v), 1, 1)
            return wrap(f(base(self)))
        if dtype in (float, np.float64, 'float', 'float64', object):
            out = np.empty(self.shape, dtype=object)
            b = base(self)
            for i in np.ndindex(*self.shape):
                v = b[i]
                out[i] = lift(v) if isinstance(v, SymBool) else (
                    float(v) if isinstance(v, (bool, np.bool_)) else v)
            return out.view(SymArray)
        return super().astype(dtype, *a, **k)

    def round(self, *a, **k):
        return _round(self, *a, **k)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('truth value of an array is ambiguous')
        return bool(self.reshape(-1).view(np.ndarray)[0])

    def __float__(self):
        return float(self.reshape(-1).view(np.ndarray)[0])

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def clip(self, *a, **k):
        return _clip(self, *a, **k)

    def all(self, axis=None, **k):
        return np.logical_and.reduce(self, axis=axis)

    def any(self, axis=None, **k):
        return np.logical_or.reduce(self, axis=axis)

    def max(self, axis=None, **k):
        return np.maximum.reduce(self, axis=axis)

    def min(self, axis=None, **k):
        return np.minimum.reduce(self, axis=axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def dot(self, b):
        return wrap(np.dot(base(self), base(b)))


def _sym_ufunc(self, ufunc, method, *inputs, **kw):
    """ufunc with a bare symbolic scalar operand"""
    if ufunc.__name__ not in ELEM and ufunc.__name__ != 'matmul':
        r = getattr(ufunc, method)(*[base(i) for i in inputs], **kw)
        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 else r
    return SymArray.__array_ufunc__(wrap1sym(self), ufunc, method,
                                    *[wrap1sym(i) for i in inputs], **kw)


core.UFUNC = _sym_ufunc


def _put(out, r):
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if isinstance(o, SymArray):
                o.view(np.ndarray)[...] = base(r)
            elif o.dtype == bool:
                o[...] = np.asarray(r)
            else:
                bb = base(r)
                if any(is_sym(v) for v in bb.flat):
                    raise SymError('symbolic result into float buffer')
                o[...] = bb
            return o
    return r


def _concrete_index(idx):
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        b = base(idx)
        if all(isinstance(v, (SymBool, bool, np.bool_)) for v in b.flat):
            r = np.empty(b.shape, dtype=bool)
            for i in np.ndindex(*b.shape):
                r[i] = bool(b[i])
            return r
        return b.astype(int)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, Sym):
        return idx.__index__()
    if isinstance(idx, tuple):
        return tuple(_concrete_index(i) if isinstance(
            i, (np.ndarray, Sym, SymBool)) else i for i in idx)
    return idx


def rewrap(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        return wrap(r) if r.dtype == object and r.ndim else (
            r[()] if r.dtype == object and r.ndim == 0 else r)
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    return r


# ---------------------------------------------------------------- functions
def _elem_where(c, a, b):
    if isinstance(c, SymBool):
        return ite(c, a, b)
    if isinstance(c, Sym):
        return ite(c != 0, a, b)
    return a if c else b


_pywhere = np.frompyfunc(_elem_where, 3, 1)


def _where(c, a=None, b=None):
    if a is None and b is None:
        cc = _concrete_index(base(c)) if base(c).dtype == object else c
        return np.nonzero(cc)
    return wrap(_pywhere(base(c), base(a), base(b)))


def _clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = base(a)
    if r.dtype == object and isinstance(a_min, (int, float)) \
            and isinstance(a_max, (int, float)):
        f = np.frompyfunc(lambda x: core.clip(x, a_min, a_max)
                          if isinstance(x, core.Sym) else x
                          if is_sym(x) else min(max(x, a_min), a_max), 1, 1)
        return _put(out, wrap(f(r)))
    if a_min is not None:
        r = base(_pyf('maximum', 2)(r, base(a_min)))
    if a_max is not None:
        r = base(_pyf('minimum', 2)(r, base(a_max)))
    return _put(out, wrap(r))


def _nan0(x):
    return 0. if (not is_sym(x) and np.isnan(x)) else x


_pynan0 = np.frompyfunc(_nan0, 1, 1)


def _nansum(a, axis=None, **kw):
    return np.add.reduce(wrap1(_pynan0(base(a))), axis=axis)


def wrap1(r):
    """wrap keeping 0-d arrays as 1-element SymArray"""
    if not isinstance(r, np.ndarray):
        r = base(r)
    return np.atleast_1d(r).view(SymArray)


def _sum(a, axis=None, **kw):
    if isinstance(a, (list, tuple)):
        a = _array(a)
    return np.add.reduce(wrap1(base(a)), axis=axis,
                         keepdims=kw.get('keepdims', False))


def _mean(a, axis=None, **kw):
    return wrap1(base(a)).mean(axis=axis)


def _nanmean(a, axis=None, **kw):
    b = base(a)
    if any(not is_sym(v) and v != v for v in b.ravel()):
        raise SymError('nanmean')
    return _mean(a, axis=axis)


def _nan_to_num(x, copy=True, nan=0., posinf=None, neginf=None):
    def f(v):
        if is_sym(v):
            return v
        return float(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    return wrap(np.frompyfunc(f, 1, 1)(base(x)))


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol, atol))
        if (not is_sym(x) and is_nonfinite(x)) or \
                (not is_sym(y) and is_nonfinite(y)):
            return False
        x, y = lift(x), lift(y)
        return _unb((abs(x - y) <= atol + rtol * abs(y)))
    return wrap(np.frompyfunc(f, 2, 1)(base(a), base(b)), True)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return np.all(r)


def _einsum(sub, *ops, **kw):
    return rewrap(np.einsum(sub, *[base(o) for o in ops]))


def _dot(a, b):
    return rewrap(np.dot(base(a), base(b)))


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise SymError('norm ord')
    a = wrap1(base(x) if not isinstance(x, (list, tuple))
              else base(_array(x)))
    s = np.add.reduce(a * a, axis=axis)
    return _pyf('sqrt', 1)(base(s)) if not isinstance(s, np.ndarray) \
        else np.sqrt(s)


# --- linear algebra: inverse / solve as axiomatised stubs --------------
LINALG = {'records': [], 'counter': 0, 'memo': {}}


def _floats(A):
    """the matrix as floats, None when an entry is symbolic"""
    out = np.empty(A.shape)
    for i in np.ndindex(*A.shape):
        v = A[i]
        if isinstance(v, Sym):
            if not v.is_const():
                return None
            v = v.const()
        out[i] = float(v)
    return out


def _matkey(kind, *mats):
    return (kind,) + tuple(
        (m.shape,) + tuple(core.lift(v).key for v in m.ravel()) for m in mats)


def _inv(a):
    """np.linalg.inv: a fresh matrix M with A.M = M.A = I"""
    b = base(a)
    shape = b.shape
    n = shape[-1]
    out = np.empty(shape, dtype=object)
    for lead in np.ndindex(*shape[:-2]):
        f = _floats(b[lead])
        if f is not None:
            out[lead] = np.linalg.inv(f)
            continue
        if n == 2:
            (p, q), (r, s) = b[lead]
            det = p * s - q * r
            out[lead] = np.array([[s / det, -q / det], [-r / det, p / det]],
                                 dtype=object)
            continue
        try:
            key = _matkey('inv', b[lead])
        except (SymError, TypeError, ValueError):
            key = None
        if key in LINALG['memo']:
            out[lead] = LINALG['memo'][key]
            continue
        k = LINALG['counter']
        LINALG['counter'] += 1
        m = np.empty((n, n), dtype=object)
        if key is not None:
            LINALG['memo'][key] = m
        for i in range(n):
            for j in range(n):
                m[i, j] = core.var('inv%d_%d_%d' % (k, i, j))
        rec = {'kind': 'inv', 'A': b[lead], 'M': m}
        LINALG['records'].append(rec)
        out[lead] = m
    return out.view(SymArray)


def _solve(a, rhs):
    """np.linalg.solve: fresh x with A.x = rhs"""
    A, R = base(a), base(rhs)
    n = A.shape[-1]
    vec = (R.ndim == A.ndim - 1)
    if vec:
        R = R[..., None]
    lead_shape = np.broadcast_shapes(A.shape[:-2], R.shape[:-2])
    A = np.broadcast_to(A, lead_shape + A.shape[-2:])
    R = np.broadcast_to(R, lead_shape + R.shape[-2:])
    out = np.empty(R.shape, dtype=object)
    for lead in np.ndindex(*lead_shape):
        k = LINALG['counter']
        LINALG['counter'] += 1
        x = np.empty(R.shape[-2:], dtype=object)
        for i in np.ndindex(*x.shape):
            x[i] = core.var('sol%d_%d_%d' % ((k,) + i))
        LINALG['records'].append({'kind': 'solve', 'A': A[lead], 'X': x,
                                  'B': R[lead]})
        out[lead] = x
    if vec:
        out = out[..., 0]
    return out.view(SymArray)


def complete_model(model):
    """values of the fresh linear algebra variables under a model"""
    for rec in LINALG['records']:
        ev = core.Evaluator(model)
        try:
            A = np.array([[ev.poly(core.lift(v)) for v in row]
                          for row in rec['A']], dtype=float)
            if rec['kind'] == 'inv':
                val, names = np.linalg.inv(A), rec['M']
            else:
                B = np.array([[ev.poly(core.lift(v)) for v in row]
                              for row in rec['B']], dtype=float)
                val, names = np.linalg.solve(A, B), rec['X']
        except (np.linalg.LinAlgError, KeyError, SymError,
                ZeroDivisionError, ValueError):
            return
        for i in np.ndindex(*val.shape):
            mono, = names[i].t
            model[core.T.atoms[mono[0][0]].name] = float(val[i])


def _contains_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_contains_sym(v, depth + 1) for v in x)
    return False


def _array(obj, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(obj, SymArray):
        return obj.copy() if copy else obj
    if _contains_sym(obj):
        if isinstance(obj, (list, tuple)):
            obj = _strip(obj)
        r = np.array(obj, dtype=object, copy=copy, ndmin=ndmin)
        if r.ndim == 0:
            return r[()]
        return r.view(SymArray)
    if dtype is not None:
        return np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin, **kw)
    return np.array(obj, copy=copy, ndmin=ndmin, **kw)


def _strip(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return [_strip(v) for v in x]
    return x


def _asarray(obj, dtype=None, **kw):
    if isinstance(obj, SymArray):
        return obj
    return _array(obj, dtype=dtype, copy=None if False else True)


def _ctor(fn):
    def f(shape, dtype=float, **kw):
        shape = _concrete_index(shape) if is_sym(shape) else shape
        r = fn(shape, dtype=dtype)
        if r.dtype.kind == 'f':
            return r.astype(object).view(SymArray) if r.ndim else float(r)
        return r
    return f


def _full(shape, fill_value, dtype=None, **kw):
    if is_sym(fill_value) or dtype in (None, float, object):
        r = np.empty(shape, dtype=object)
        if isinstance(fill_value, np.ndarray):
            r[...] = base(fill_value)
        else:
            for i in np.ndindex(*r.shape):
                r[i] = fill_value
        return r.view(SymArray)
    return np.full(shape, fill_value, dtype=dtype)


def _like(val):
    def f(a, dtype=None, **kw):
        shp = np.shape(base(a))
        if dtype in (bool, np.bool_, int, np.int64):
            return np.full(shp, val, dtype=dtype)
        v = val
        if not isinstance(a, SymArray) and hasattr(a, 'dtype') and \
                a.dtype.kind in 'ib' and dtype is None:
            return np.full(shp, val, dtype=a.dtype)
        r = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            r[i] = float(v)
        return r.view(SymArray) if r.ndim else float(v)
    return f


def _full_like(a, fill_value, dtype=None, **kw):
    return _full(np.shape(base(a)), fill_value, dtype)


def _isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def _nanfn(red):
    def f(a, axis=None, **kw):
        return getattr(np, red).reduce(wrap1(base(a)), axis=axis)
    return f


def _diff(a, n=1, axis=-1):
    a = wrap1(base(a))
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def _select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = _where(c, v, r)
    return r


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise SymError('np.interp with a period on symbolic data')
    xp, fp = list(xp), list(fp)

    def f(v):
        r = fp[-1] if right is None else right
        for k in range(len(xp) - 1, 0, -1):
            seg = fp[k - 1] + _div((v - xp[k - 1]) * (fp[k] - fp[k - 1]),
                                   xp[k] - xp[k - 1])
            r = ite_(v <= xp[k], seg, r)
        return ite_(v < xp[0], fp[0] if left is None else left, r)
    r = np.frompyfunc(f, 1, 1)(base(wrap1sym(x)))
    return wrap(r) if isinstance(r, np.ndarray) else r


OVERRIDES = {
    'where': _where, 'clip': _clip, 'nansum': _nansum, 'sum': _sum,
    'mean': _mean, 'nanmean': _nanmean, 'nan_to_num': _nan_to_num,
    'isclose': _isclose, 'allclose': _allclose, 'einsum': _einsum,
    'dot': _dot, 'norm': _norm, 'inv': _inv, 'solve': _solve,
    'zeros_like': _like(0.), 'ones_like': _like(1.),
    'empty_like': _like(0.), 'full_like': _full_like,
    'round': _round, 'around': _round, 'round_': _round,
    'fix': lambda x: np.trunc(wrap1sym(x)),
    'diff': _diff, 'select': _select, 'interp': _interp,
    'amax': _nanfn('maximum'), 'max': _nanfn('maximum'),
    'amin': _nanfn('minimum'), 'min': _nanfn('minimum'),
    'all': lambda a, axis=None, **k: np.logical_and.reduce(
        wrap1(base(a)), axis=axis),
    'any': lambda a, axis=None, **k: np.logical_or.reduce(
        wrap1(base(a)), axis=axis),
}


class ModProxy(types.ModuleType):
    """Proxy of numpy (or one of its submodules) or math."""

    def __init__(self, real, table):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        t = self._table
        if name in t:
            return t[name]
        c = self._cache
        if name in c:
            return c[name]
        v = getattr(self._real, name)
        w = _wrapfn(v)
        c[name] = w
        return w


def _wrapfn(v):
    if isinstance(v, np.ufunc):
        uf = v

        def call(*args, **kw):
            if any(_contains_sym(a) for a in args):
                args = [wrap1sym(a) for a in args]
                return uf(*args, **kw)
            return uf(*args, **kw)
        call.__name__ = uf.__name__
        call.reduce = lambda *a, **k: uf.reduce(
            *([wrap1sym(a[0])] + list(a[1:])), **k)
        call.accumulate = lambda *a, **k: uf.accumulate(
            *([wrap1sym(a[0])] + list(a[1:])), **k)
        call.outer = lambda *a, **k: uf.outer(*[wrap1sym(x) for x in a], **k)
        return call
    if isinstance(v, types.ModuleType):
        return v
    if isinstance(v, type) or not callable(v):
        return v
    ov = OVERRIDES.get(getattr(v, '__name__', ''))

    def call(*args, **kw):
        symbolic = any(_contains_sym(a) for a in args) or \
            any(_contains_sym(a) for a in kw.values())
        if symbolic and ov is not None:
            return ov(*args, **kw)
        if symbolic:
            args = [_prep(a) for a in args]
            kw = {k: _prep(a) for k, a in kw.items()}
        return rewrap(v(*args, **kw))
    call.__name__ = getattr(v, '__name__', 'fn')
    return call


def _prep(a):
    if isinstance(a, np.ndarray) and a.dtype == object \
            and not isinstance(a, SymArray):
        return a.view(SymArray)
    if is_sym(a):
        return wrap1sym(a)
    return a


class _Zero(np.ndarray):
    pass


def wrap1sym(a):
    """make sure numpy dispatches to us (0-d for scalars)"""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ndarray):
        return a.view(SymArray) if a.dtype == object else a
    if is_sym(a):
        r = np.empty((), dtype=object)
        r[()] = a
        return r.view(SymArray)
    if isinstance(a, (list, tuple)) and _contains_sym(a):
        return _array(a)
    return a


def _vectorize(fn=None, otypes=None, **kw):
    if fn is None:
        return lambda f: _vectorize(f, otypes, **kw)
    real = np.vectorize(fn, otypes=otypes, **kw)

    def call(*args, **k):
        if k or not any(_contains_sym(a) for a in args):
            return real(*args, **k)
        ops = [base(wrap1sym(a)) if _contains_sym(a) else np.asarray(a)
               for a in args]
        r = np.frompyfunc(fn, len(ops), 1)(*ops)
        return wrap(r) if isinstance(r, np.ndarray) else r
    return call


def _fromiter(it, dtype=float, count=-1, **kw):
    vals = list(it)
    if _contains_sym(vals):
        return _array(vals)
    return np.fromiter(vals, dtype, count)


def _linspace(start, stop, num=50, endpoint=True, **kw):
    if not _contains_sym([start, stop]):
        return rewrap(np.linspace(start, stop, num, endpoint, **kw))
    n = num - 1 if endpoint else num
    return _array([start + (stop - start) * k / max(n, 1)
                   for k in range(num)])


NP_TABLE = {
    'vectorize': _vectorize, 'fromiter': _fromiter, 'linspace': _linspace,
    'array': _array, 'asarray': _asarray, 'asanyarray': _asarray,
    'zeros': _ctor(np.zeros), 'ones': _ctor(np.ones),
    'empty': _ctor(np.zeros), 'full': _full,
    'zeros_like': _like(0.), 'ones_like': _like(1.), 'empty_like': _like(0.),
    'full_like': _full_like, 'isscalar': _isscalar,
}

LINALG_PROXY = ModProxy(np.linalg, {})
LINALG_PROXY._table['inv'] = lambda a: _inv(a) if _contains_sym(a) \
    else np.linalg.inv(a)
LINALG_PROXY._table['solve'] = lambda a, b: _solve(a, b) \
    if _contains_sym(a) or _contains_sym(b) else np.linalg.solve(a, b)
NP_TABLE['linalg'] = LINALG_PROXY
NP = ModProxy(np, NP_TABLE)


def _m1(name):
    e = ELEM[name]
    real = getattr(math, {'arctan': 'atan', 'arccos': 'acos', 'arcsin':
                          'asin', 'deg2rad': 'radians', 'rad2deg': 'degrees',
                          'absolute': 'fabs'}.get(name, name))

    def f(x):
        x = x.item() if isinstance(x, np.ndarray) else x
        return e(x) if is_sym(x) else real(x)
    return f


MATH = ModProxy(math, {
    'sqrt': _m1('sqrt'), 'cos': _m1('cos'), 'sin': _m1('sin'),
    'tan': _m1('tan'), 'atan': _m1('arctan'), 'acos': _m1('arccos'),
    'asin': _m1('arcsin'), 'radians': _m1('deg2rad'),
    'degrees': _m1('rad2deg'), 'fabs': _m1('absolute'), 'exp': _m1('exp'),
    'hypot': lambda a, b: ELEM['hypot'](a, b),
    'atan2': lambda a, b: ELEM['arctan2'](a, b),
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
    'floor': _floor, 'ceil': lambda x: -_floor(-x), 'trunc': _trunc,
    'copysign': lambda a, b: ELEM['copysign'](a, b),
    'pow': lambda a, b: ELEM['power'](a, b),
    'fmod': lambda a, b: ELEM['fmod'](a, b),
    'fsum': lambda it: sum(it, 0.),
    'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.: _unb(
        abs(a - b) <= smax(rel_tol * smax(_abs(a), _abs(b)), abs_tol))
    if is_sym(a) or is_sym(b) else math.isclose(
        a, b, rel_tol=rel_tol, abs_tol=abs_tol),
})
# constants of math pass through ModProxy.__getattr__

_real_import = builtins.__import__
EXTRA_MODULES = {}      # module name -> replacement, for the package only


def _hook(name, globals=None, locals=None, fromlist=(), level=0):
    m = _real_import(name, globals, locals, fromlist, level)
    if globals is not None and level == 0:
        g = globals.get('__name__') or ''
        if g == TARGET_PREFIX or g.startswith(TARGET_PREFIX + '.'):
            if name in EXTRA_MODULES:
                return EXTRA_MODULES[name]
            if name == 'numpy':
                return NP
            if name == 'numpy.linalg':
                return LINALG_PROXY if fromlist else NP
            if name == 'math':
                return MATH
            if name.startswith('numpy.') and not fromlist:
                return NP
    return m


def install(extra=None):
    """Import hook; call before importing the package under test."""
    EXTRA_MODULES.update(extra or {})
    builtins.__import__ = _hook
    # builtin min/max/abs/sum/round on Sym work through the operators


def sarr(values):
    """SymArray from a list of values"""
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a.view(SymArray)
