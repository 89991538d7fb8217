"""pandas objects with columns of symbolic values: arithmetic of object columns
follows numpy's (not python's) rules, comparisons give masks by forking.
Used in symbolic workers only."""
import numpy as np
import pandas as pd

from . import core, npshim
from .core import Sym, SymBool


def is_obj(s):
    return isinstance(s, (pd.Series, pd.Index)) and s.dtype == object


def plain(x):
    """values of pandas objects, symbolic ones as SymArray"""
    if isinstance(x, (pd.Series, pd.Index)):
        x = x.to_numpy()
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(npshim.SymArray)
    return npshim.wrap1sym(x)


def series(r, like):
    """result as a series: values symbolic, masks concrete"""
    r = np.asarray(npshim.base(r) if npshim._contains_sym(r) else r)
    vals = list(r.ravel())
    if vals and all(isinstance(v, (SymBool, bool, np.bool_)) for v in vals):
        vals = np.array([core.decide(v) if isinstance(v, SymBool) else bool(v)
                         for v in vals], dtype=bool)
    else:
        out = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            if isinstance(v, (bool, np.bool_)) or core.is_num(v) \
                    and not core.is_nonfinite(v):
                v = core.lift(v)
            out[i] = v
        vals = out
    return pd.Series(vals, index=like.index if isinstance(like, pd.Series)
                     else None)


def install():
    if getattr(pd.Series, '_symx', False):
        return
    pd.Series._symx = True
    real = {k: getattr(pd.Series, k) for k in (
        '_arith_method', '_cmp_method', '_logical_method',
        '__array_ufunc__')}

    def mixed(a, b):
        return is_obj(a) or is_obj(b) or npshim._contains_sym(b)

    def same_index(a, b):
        return not isinstance(b, pd.Series) or a.index.equals(b.index)

    def binary(kind):
        def f(self, other, op):
            if mixed(self, other) and same_index(self, other):
                return series(op(plain(self), plain(other)), self)
            return real[kind](self, other, op)
        return f
    for k in ('_arith_method', '_cmp_method', '_logical_method'):
        setattr(pd.Series, k, binary(k))

    def ufunc(self, uf, method, *inputs, **kw):
        if method == '__call__' and any(
                is_obj(x) or npshim._contains_sym(x) for x in inputs):
            kw.pop('out', None)
            like = [x for x in inputs if isinstance(x, pd.Series)]
            if all(x.index.equals(like[0].index) for x in like):
                return series(uf(*[plain(x) for x in inputs]), like[0])
        return real['__array_ufunc__'](self, uf, method, *inputs, **kw)
    pd.Series.__array_ufunc__ = ufunc
    # numpy functions with pandas arguments
    real_contains, real_base = npshim._contains_sym, npshim.base

    def contains(x, depth=0):
        if isinstance(x, (pd.Series, pd.Index, pd.DataFrame)):
            return x.to_numpy().dtype == object
        return real_contains(x, depth)

    def base(x):
        if isinstance(x, (pd.Series, pd.Index, pd.DataFrame)):
            return real_base(x.to_numpy().astype(object).view(npshim.SymArray))
        return real_base(x)
    npshim._contains_sym, npshim.base = contains, base
    real_strip = npshim._strip

    def strip(x):
        if isinstance(x, (pd.Series, pd.Index)):
            return x.to_numpy().astype(object)
        return real_strip(x)
    npshim._strip = strip
