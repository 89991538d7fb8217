"""C17: absorbed light is incident light times the absorption at its angle."""
import math

import numpy as np

from .irr import stubs, series, array, perez_values

META = {
    'bounds': '2 rows, 1-2 segments per side, 2 time steps; any incidence '
    'angle in [0, 180], tilt in [0, 180], irradiance, reflectivity, albedo, '
    'transparency, spacing ratio; arbitrary absorption functions of the '
    'angle with values in [0, 1] for front and / or back, given as function '
    'or as object with a faoi method; both sky models',
    'outside': 'the shape of particular absorption functions',
    'assumptions': ['incidence angles and Perez values are free inputs '
                    '(C16 decides how they are used)'],
}


class Obj(object):
    def __init__(self, fn):
        self.faoi = fn


def absorbed(h, model, given, how, T=2):
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered

    def make(name):
        impl = {'f': lambda x: math.cos(x / 97.) ** 2,
                'b': lambda x: 1 / (1 + (x / 70.) ** 2)}[name]

        def val(a):
            return h.fun('faoi_' + name, a, impl=impl, lo=0, hi=1)

        def fn(angles):
            return h.arr([val(a) for a in angles])
        return val, (Obj(fn) if how == 'obj' else fn)

    vf_, ff = make('f')
    vb_, fb = make('b')
    rf, rb = h.real('rho_front', 0.01, .9), h.real('rho_back', 0.01, .9)
    kw = {}
    if 'f' in given:
        kw['faoi_fn_front'] = ff
    if 'b' in given:
        kw['faoi_fn_back'] = fb
    irr = (HybridPerezOrdered if model == 'perez' else IsotropicOrdered)(
        rho_front=rf, rho_back=rb,
        module_transparency=h.real('transparency', 0, 1),
        module_spacing_ratio=h.real('spacing', 0, 1), **kw)
    aoi = [h.angle('aoi_%d' % t, 0, 180) for t in range(T)]
    tilt = [h.angle('tilt_%d' % t, 0, 180) for t in range(T)]
    for a in aoi:
        h.assume(h.abs(h.cosd(a)) >= 0.01)
    zen = [h.angle('zen_%d' % t, 0, 85) for t in range(T)]
    alb = series(h, 'albedo', T, 0.01, 1)
    DNI = series(h, 'DNI', T, 0, 1500)
    DHI = series(h, 'DHI', T, 0, 1500)
    ghi = series(h, 'ghi', T, 0, 2500)
    p, pz = perez_values(h, T)
    arr = array(T, cut={0: {'front': 2}, 1: {'back': 2}})
    args = [h.arr(x) for x in (DNI, DHI, zen, [90.] * T, tilt, [90.] * T,
                               alb)]
    with stubs(h, perez=p if model == 'perez' else None, aoi=h.arr(aoi),
               total={'poa_global': h.arr(series(h, 'poa', T, 0, 2500))}):
        irr.fit(list(range(T)), *args, ghi=h.arr(ghi))
        irr.transform(arr)
    comps = ['direct', 'circumsolar', 'horizon'] if model == 'perez' \
        else ['direct']
    tot = irr.get_summed_components(arr, absorbed=True)
    inc = irr.get_summed_components(arr, absorbed=False)
    mats = irr.get_full_ts_modeling_vectors(arr)
    what = {}
    for s in arr.ts_ground.all_ts_surfaces:
        what[s.index] = 'ground'
    for r in arr.ts_pvrows:
        for s in r.front.all_ts_surfaces:
            what[s.index] = 'front'
        for s in r.back.all_ts_surfaces:
            what[s.index] = 'back'
    for i, s in enumerate(arr.all_ts_surfaces):
        k = what[s.index]
        h.true('surfaces ordered by index', s.index == i)
        for t in range(T):
            # angle from the surface plane
            off = h.abs(90 - aoi[t])
            rho = {'ground': alb[t], 'front': rf, 'back': rb}[k]
            total = 0
            total_inc = 0
            for c in comps:
                f = 1 - rho
                if k != 'ground' and k[0] in given:
                    f = (vf_ if k == 'front' else vb_)(
                        tilt[t] if c == 'horizon' else off)
                v = s.get_param(c)[t]
                h.eq('%s: absorbed %s' % (k, c),
                     s.get_param(c + '_absorbed')[t], f * v)
                total = total + f * v
                total_inc = total_inc + v
            h.eq('absorbed components summed', tot[i, t], total)
            h.eq('incident components summed', inc[i, t], total_inc)
            h.eq('incident components of the system', mats[0][i, t],
                 total_inc)
            h.eq(k + ': reflectivity', s.get_param('rho')[t], rho)
            h.eq(k + ': inverse reflectivity',
                 s.get_param('inv_rho')[t] * rho, 1)
            h.eq(k + ': reflectivity of the system', mats[1][i, t], rho)
            h.eq(k + ': inverse reflectivity of the system',
                 mats[2][i, t] * rho, 1)
    n = len(arr.all_ts_surfaces)
    for m in mats:
        h.true('one row per surface and the sky', m.shape == (n + 1, T))
    for t in range(T):
        h.eq('sky luminance closes the system', mats[0][n, t],
             pz['luminance_isotropic'][t] if model == 'perez' else DHI[t])
        h.true('the sky is a source', bool(mats[1][n, t] == 1)
               and bool(mats[2][n, t] == 1))


def scenarios(tier):
    out = []
    for model in ('perez', 'iso'):
        for given in ('', 'f', 'b', 'fb'):
            for how in ('fn', 'obj'):
                if how == 'obj' and given in ('', 'f'):
                    continue
                out.append({'name': '%s-%s-%s' % (model, given or 'none',
                                                  how),
                            'fn': absorbed,
                            'kw': dict(model=model, given=given, how=how)})
    return out
