"""Shared construction for the irradiance checks."""
import contextlib
import inspect

import numpy as np


class G(object):
    pass


class Perez(object):
    """what perez_diffuse_luminance returns, as far as the models look"""


class Col(object):
    def __init__(self, values):
        self.values = values


@contextlib.contextmanager
def stubs(h, aoi=None, perez=None, total=None, calls=None):
    """replace the Perez model (and optionally the incidence angle and the
    pvlib transposition) by arbitrary values"""
    import pvfactors.irradiance.models as M
    saved = {}

    def put(name, value):
        real = getattr(M, name)
        sig = inspect.signature(real)

        def stub(*a, **k):
            b = sig.bind(*a, **k)
            if calls is not None:
                calls.append((name, dict(b.arguments)))
            return value
        saved[name] = real
        setattr(M, name, stub)

    if perez is not None:
        put('perez_diffuse_luminance', perez)
    if aoi is not None:
        put('aoi_function', aoi)
    if total is not None:
        put('get_total_irradiance', total)
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(M, k, v)


def series(h, name, T, lo, hi):
    return [h.real('%s_%d' % (name, t), lo, hi) for t in range(T)]


def array(T, n=2, cut=None, flat=False):
    """a fitted array with concrete geometry, tilted left then right"""
    from pvfactors.geometry.pvarray import OrderedPVArray
    arr = OrderedPVArray.init_from_dict(
        {'axis_azimuth': 0., 'gcr': .4, 'pvrow_height': 1.5, 'n_pvrows': n,
         'pvrow_width': 2., 'cut': cut or {}})
    arr.fit(np.array([20., 50., 80.][:T]), np.array([90., 270., 90.][:T]),
            np.array([20., 10., 60.][:T]), np.array([90., 270., 270.][:T]))
    return arr


def perez_values(h, T):
    p = Perez()
    v = {}
    for k, lo in (('luminance_isotropic', 0), ('luminance_circumsolar', 0),
                  ('poa_horizon', -200), ('poa_circumsolar', 0)):
        v[k] = series(h, k, T, lo, 1500)
        setattr(p, k, Col(h.arr(v[k])))
    return p, v


LUM = ('luminance_isotropic', 'luminance_circumsolar', 'poa_horizon',
       'poa_circumsolar')


@contextlib.contextmanager
def luminances(h, T):
    """replace the Perez model by arbitrary luminances per time stamp (None:
    nothing replaced)"""
    if T is None:
        yield
        return
    import pvfactors.irradiance.models as M
    table = {}

    def value(name, stamp):
        key = (name, str(stamp))
        if key not in table:
            table[key] = h.real('%s@%s' % (name, str(stamp)), 0, 500)
        return table[key]
    real = M.perez_diffuse_luminance
    sig = inspect.signature(real)

    def stub(*a, **k):
        b = sig.bind(*a, **k).arguments
        import pandas as pd
        st = [pd.Timestamp(x) for x in b['timestamps']]
        p = Perez()
        for nm in LUM:
            setattr(p, nm, Col(h.arr([value(nm, x) for x in st])))
        return p
    M.perez_diffuse_luminance = stub
    try:
        yield
    finally:
        M.perez_diffuse_luminance = real
