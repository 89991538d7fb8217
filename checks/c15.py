"""C15: average reflectivity from the absorption functions."""
import math

import numpy as np

META = {
    'bounds': 'every absorption function with values in [0, 1]; 1-300 '
    'sections of the half circle; explicit, calculated and missing '
    'reflectivity of front and back; every incidence angle in [0, 180] for '
    'the pvlib function',
    'outside': 'the coefficients of the module database',
    'assumptions': ['pvlib.iam.sapm is an arbitrary function of the angle '
                    'from the normal'],
}


def weights(N):
    e = [math.cos(math.radians(180. * k / N)) for k in range(N + 1)]
    return [(e[k] - e[k + 1]) / 2 for k in range(N)]


def functions(h, N, asked):
    """front and back absorption functions with arbitrary values"""
    val = {}
    out = []
    for nm in ('f', 'b'):
        val[nm] = [h.real('%s%d' % (nm, k), 0, 1) for k in range(N)]

        def fn(angles, nm=nm):
            asked.append((nm, [float(a) for a in angles]))
            return h.arr(val[nm])
        out.append(fn)
    return val, out


def average(h, N):
    from pvfactors.viewfactors import VFCalculator
    asked = []
    val, (ff, fb) = functions(h, N, asked)
    lo = h.real('lo', 0, 1)
    hi = h.real('hi', 0, 1)
    for v in val['f'] + val['b'] if N <= 12 else []:
        h.assume(lo <= v)
        h.assume(v <= hi)
    calc = VFCalculator(faoi_fn_front=ff, faoi_fn_back=fb,
                        n_aoi_integral_sections=N)
    w = weights(N)
    for nm, back in (('f', False), ('b', True)):
        rho = calc.vf_aoi_methods.rho_from_faoi_fn(back)
        want = 1
        for k in range(N):
            want = want - w[k] * val[nm][k]
        h.eq('reflectivity = 1 - absorption averaged over the hemisphere',
             rho, want)
        h.between('reflectivity is a fraction', 0, rho, 1)
        if N <= 12:
            h.between('reflectivity lies between the extremes', 1 - hi, rho,
                      1 - lo)
    mid = [180. * (k + .5) / N for k in range(N)]
    for nm, a in asked:
        h.true('evaluated at the middle of every section',
               len(a) == N and max(abs(x - y) for x, y in zip(a, mid))
               < 1e-6)
    h.true('front and back evaluated', sorted(set(x[0] for x in asked))
           == ['b', 'f'])


def chosen(h, front, back, model):
    """explicit values win, then calculated ones; both sides separately"""
    from pvfactors.engine import PVEngine
    from pvfactors.viewfactors import VFCalculator
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    from pvfactors.geometry.pvarray import OrderedPVArray
    N = 3
    asked = []
    val, (ff, fb) = functions(h, N, asked)
    calc = VFCalculator(faoi_fn_front=ff, faoi_fn_back=fb,
                        n_aoi_integral_sections=N)
    w = weights(N)
    cf = 1 - sum(w[k] * val['f'][k] for k in range(N))
    cb = 1 - sum(w[k] * val['b'][k] for k in range(N))
    rf = h.real('rho_front', 0, 1) if front else None
    rb = h.real('rho_back', 0, 1) if back else None
    cls = HybridPerezOrdered if model == 'perez' else IsotropicOrdered
    irr = cls(rho_front=rf, rho_back=rb)
    arr = OrderedPVArray.init_from_dict(
        {'axis_azimuth': 0., 'gcr': .4, 'pvrow_height': 1.5, 'n_pvrows': 2,
         'pvrow_width': 2., 'cut': {}})
    eng = PVEngine.with_rho_initialization(
        arr, calc, irr, fast_mode_pvrow_index=1, fast_mode_segment_index=0)
    h.true('engine of the right class', isinstance(eng, PVEngine))
    h.true('engine uses the given objects', eng.irradiance is irr
           and eng.vf_calculator is calc and eng.pvarray is arr)
    h.true('fast mode choice kept', eng.fast_mode_pvrow_index == 1
           and eng.fast_mode_segment_index == 0)
    h.eq('front reflectivity', irr.rho_front, rf if front else cf)
    h.eq('back reflectivity', irr.rho_back, rb if back else cb)
    # nothing given and nothing calculated: the default
    d = h.real('default', 0, 1)
    c = h.real('calculated', 0, 1)
    g = h.real('given', 0, 1)
    h.eq('given wins', irr.initialize_rho(g, c, d), g)
    h.eq('given wins over nothing', irr.initialize_rho(g, None, d), g)
    h.eq('then calculated', irr.initialize_rho(None, c, d), c)
    h.eq('then default', irr.initialize_rho(None, None, d), d)


def sandia(h, scalar_list):
    """angles from the surface plane are turned into angles from the normal"""
    import pvfactors.viewfactors.aoimethods as M

    a = [h.angle('a%d' % k, 0, 180) for k in range(2)]
    for x in a:
        h.assume(h.or_(x <= 89.999, x >= 90.001))
    seen = []

    class Pvlib(object):
        class pvsystem(object):
            @staticmethod
            def retrieve_sam(name):
                return {'module': 'coefficients of module'}

        class iam(object):
            @staticmethod
            def sapm(aoi, module, upper=None):
                seen.append((module, upper))
                return h.arr([h.fun('sapm', x, lo=0, hi=1,
                                    impl=lambda v: math.cos(v / 120.))
                              for x in aoi])
    real = M.pvlib
    M.pvlib = Pvlib
    try:
        fn = M.faoi_fn_from_pvlib_sandia('module')
        out = fn(list(a) if scalar_list else h.arr(a))
        mirror = fn([180 - x for x in a] if scalar_list
                    else h.arr([180 - x for x in a]))
    finally:
        M.pvlib = real
    h.true('coefficients of the requested module, losses only',
           bool(seen) and all(x == ('coefficients of module', 1.)
                              for x in seen))
    for k in range(2):
        off = h.where(a[k] >= 90, a[k] - 90, 90 - a[k])
        h.eq('evaluated at the angle from the normal', out[k],
             h.fun('sapm', off, lo=0, hi=1,
                   impl=lambda v: math.cos(v / 120.)))
        h.eq('same on both sides of the normal', mirror[k], out[k])


def scenarios(tier):
    out = []
    for N in ((1, 2, 3, 5, 12, 60, 300) if tier == 'quick' else
              (1, 2, 3, 4, 5, 6, 7, 12, 30, 60, 180, 300, 600)):
        out.append({'name': 'average-%d' % N, 'fn': average,
                    'kw': dict(N=N)})
    for f in (False, True):
        for b in (False, True):
            for m in ('perez', 'iso'):
                out.append({'name': 'chosen-%s-%d%d' % (m, f, b),
                            'fn': chosen,
                            'kw': dict(front=f, back=b, model=m)})
    for s in (False, True):
        out.append({'name': 'sandia-%s' % ('list' if s else 'array'),
                    'fn': sandia, 'kw': dict(scalar_list=s)})
    return out
