"""C07: luminances of the sky follow from the Perez components."""
import contextlib
import datetime

import numpy as np

PANDAS = True
META = {
    'bounds': '1-3 steps, each with any tilt, zenith and azimuths such that '
    'the sun is in front, behind or in the plane of the rows, near the '
    'horizon or not, any DNI and DHI including no diffuse light, any '
    'brightness coefficients of the Perez model, clipped to zero or not; any '
    'order of the time stamps, equal ones included; numbers or arrays',
    'outside': 'tables of the Perez coefficients and air mass (pvlib); sun '
    'below the horizon; exactly flat rows horizon luminance (not used)',
    'assumptions': ["pvlib's perez() is its formula with brightness "
                    'coefficients F1, F2 that are free per time stamp'],
}
TOL = 1e-6
T0 = datetime.datetime(2019, 6, 1, 9)


@contextlib.contextmanager
def perez_model(h, noisy=()):
    """pvlib's transposition with arbitrary brightness coefficients. noisy:
    time stamps at which projections of the sun have any round-off"""
    import pandas as pd
    import pvfactors.irradiance.utils as U
    table = {}

    def coef(name, stamp, lo, hi):
        key = '%s@%s' % (name, str(stamp))
        if key not in table:
            table[key] = h.real(key, lo, hi)
        return table[key]

    def perez(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
              solar_zenith, solar_azimuth, airmass, model=None,
              return_components=False):
        out = {k: [] for k in ('sky_diffuse', 'isotropic', 'circumsolar',
                               'horizon')}
        proj = exact(surface_tilt, surface_azimuth, solar_zenith,
                     solar_azimuth)
        for i, stamp in enumerate(surface_tilt.index):
            f1, f2 = coef('F1', stamp, 0, 1), coef('F2', stamp, -1, 1)
            t, z, d, a = [x.iloc[i] for x in (
                surface_tilt, solar_zenith, dhi, proj)]
            a = a if a > 0 else 0.
            b = h.max(h.cosd(z), h.cosd(85.))
            v = (d * (1 - f1) * (1 + h.cosd(t)) / 2, d * f1 * a / b,
                 d * f2 * h.sind(t))
            tot = sum(v)
            if not (tot > 0):
                v, tot = (0., 0., 0.), 0.
            for k, x in zip(('isotropic', 'circumsolar', 'horizon'), v):
                out[k].append(x)
            out['sky_diffuse'].append(tot)
        out = pd.DataFrame(out, index=surface_tilt.index)
        return out if return_components else out['sky_diffuse']

    def project(surface_tilt, *args, **kw):
        calls.append(1)
        if len(calls) > (8 if noisy else 30):
            raise RecursionError('projections without end')
        out = exact(surface_tilt, *args, **kw)
        if not noisy:
            return out
        eps = [h.real('eps_%d_%d' % (len(calls), i), -1e-15, 1e-15)
               if stamp in noisy else 0.
               for i, stamp in enumerate(surface_tilt.index)]
        return out + pd.Series(eps, index=surface_tilt.index)
    calls = []
    exact = U.irradiance.aoi_projection
    real = U.irradiance.perez, U.atmosphere.get_relative_airmass
    U.irradiance.aoi_projection = project
    U.irradiance.perez = perez
    U.atmosphere.get_relative_airmass = lambda z, *a, **k: z * 0. + 1.5
    try:
        yield coef
    finally:
        U.irradiance.aoi_projection = exact
        U.irradiance.perez, U.atmosphere.get_relative_airmass = real


class Steps(object):
    """kinds: f / b / p / q: sun in front, behind, in the plane of the rows, up to
    round-off; n /
    m: same as f / b with a low sun; 0: no diffuse light; c: clipped to 0;
    F: flat; A / B: any azimuths, sun in front / behind"""

    def __init__(self, h, kinds, stamps):
        self.h, self.kinds = h, kinds
        T = len(kinds)
        self.stamps = [T0 + datetime.timedelta(hours=k) for k in stamps]
        self.tilt, self.zen, self.faz, self.saz = [], [], [], []
        self.dni, self.dhi, self.proj = [], [], []
        for t, k in enumerate(kinds):
            low = k in 'nm'
            z = h.angle('zen_%d' % t, 85.5 if low else 1, 89.5 if low else 84)
            if k in 'pq':
                a = 90 - z
            elif k == 'F':
                a = 0.
            elif t and (T > 2 or len(set(stamps)) < T):
                a = (20., 35., 50.)[t]
            else:
                a = h.angle('tilt_%d' % t, 1, 85)
            faz, saz = (270., 90.) if t % 2 else (90., 270.)
            if k in 'fn0c':
                saz = faz
            if k in 'AB':
                cd = h.angle('az_%d' % t, 0, 180)
                faz, saz = 45., cd + 45.
            ca, cz = h.cosd(a), h.cosd(z)
            sa, sz = h.sind(a), h.sind(z)
            if k in 'AB':
                cd = h.cosd(cd)
            else:
                cd = 1 if faz == saz else -1
            p = ca * cz + sa * sz * cd
            if k in 'bmB':
                h.assume(p <= -.01)
            elif k not in 'pq':
                h.assume(p >= .01)
            self.tilt.append(a)
            self.zen.append(z)
            self.faz.append(faz)
            self.saz.append(saz)
            self.proj.append(p)
            self.dni.append(h.real('dni_%d' % t, 0, 1000))
            self.dhi.append(0. if k == '0' else h.real('dhi_%d' % t, 1, 500))

    def col(self, v):
        return np.array(v) if all(isinstance(x, float) for x in v) \
            else self.h.arr(v)

    def inputs(self):
        return [self.col(v) for v in (self.dni, self.dhi, self.zen,
                                      self.saz, self.tilt, self.faz)]

    def expect(self, coef):
        """components per step: dictionary"""
        h = self.h
        out = []
        for t, k in enumerate(self.kinds):
            f1 = coef('F1', self.stamps[t], 0, 1)
            f2 = coef('F2', self.stamps[t], -1, 1)
            d, a, z = self.dhi[t], self.tilt[t], self.zen[t]
            ca, sa, cz = h.cosd(a), h.sind(a), h.cosd(z)
            e = {'vf_isotropic': (1 + ca) / 2, 'vf_horizon': sa,
                 'b': h.cosd(85.) if k in 'nm' else cz}
            front = k in 'fn0cFA'
            e['vf_circumsolar'] = self.proj[t] / e['b'] if front else 0.
            iso = d * (1 - f1)
            comp = {'isotropic': iso * e['vf_isotropic'],
                    'circumsolar': d * f1 * e['vf_circumsolar'],
                    'horizon': d * f2 * sa}
            tot = sum(comp.values())
            if k == 'c':
                h.assume(tot <= -.001)
            elif k != '0':
                h.assume(tot >= .001)
            if k in 'bmB':            # seen from the other side
                h.assume(iso * (1 - ca) / 2 - d * f1 * self.proj[t] / e['b']
                         + d * f2 * sa >= .001)
            dark = k in '0c'
            for c, v in comp.items():
                e['poa_' + c] = 0. if dark else v
            e['poa_total_diffuse'] = 0. if dark else tot
            e['luminance_isotropic'] = 0. if dark else iso
            e['luminance_circumsolar'] = 0. if dark else d * f1
            out.append(e)
        return out


def utils(h, kinds, stamps):
    from pvfactors.irradiance.utils import perez_diffuse_luminance
    s = Steps(h, kinds, stamps)
    noisy = [x for x, k in zip(s.stamps, kinds) if k == 'q']
    with perez_model(h, noisy) as coef:
        want = s.expect(coef)
        dni, dhi, zen, saz, tilt, faz = s.inputs()
        df = perez_diffuse_luminance(s.stamps, tilt, faz, zen, saz, dni, dhi)
    h.true('one row per step', len(df) == len(kinds))
    for t, e in enumerate(want):
        for k in ('luminance_isotropic', 'luminance_circumsolar',
                  'poa_isotropic', 'poa_circumsolar', 'poa_horizon',
                  'poa_total_diffuse', 'vf_isotropic', 'vf_circumsolar',
                  'vf_horizon'):
            h.eq(k, df[k].values[t], e[k])
        h.eq('inputs are kept', df['solar_zenith'].values[t], zen[t])
        h.eq('inputs are kept', df['surface_tilt'].values[t], tilt[t])
        h.eq('inputs are kept', df['dhi'].values[t], dhi[t])


def model(h, kinds, stamps, number=False):
    """the same through the irradiance model and a fitted array"""
    from pvfactors.irradiance import HybridPerezOrdered
    from .irr import array, stubs
    s = Steps(h, kinds, stamps)
    T = len(kinds)
    irr = HybridPerezOrdered(rho_front=.01, rho_back=.03)
    arr = array(T, n=2)
    with perez_model(h) as coef:
        want = s.expect(coef)
        dni, dhi, zen, saz, tilt, faz = s.inputs()
        with stubs(h, total={'poa_global': h.arr([0.] * T)}):
            if number:
                irr.fit(s.stamps[0], *([v[0] for v in (
                    dni, dhi, zen, saz, tilt, faz)] + [.2]))
            else:
                irr.fit(s.stamps, dni, dhi, zen, saz, tilt, faz,
                        h.arr([.2] * T))
    irr.transform(arr)
    vec = irr.get_full_ts_modeling_vectors(arr)[0]
    for t, (k, e) in enumerate(zip(kinds, want)):
        lum = e['luminance_circumsolar']
        h.eq('isotropic light of the sky', vec[-1][t],
             e['luminance_isotropic'])
        for g in arr.ts_ground.illum_elements:
            for x in g.surface_list:
                h.eq('circumsolar light on the ground',
                     x.get_param('circumsolar')[t], lum)
        front = e['poa_circumsolar'] if k not in 'bmBpq' else 0.
        back = lum * -s.proj[t] / e['b'] if k in 'bmB' else 0.
        hor = h.abs(e['poa_horizon'])
        for r in arr.ts_pvrows:
            for sg in r.front.list_segments:
                for x in sg.illum.list_ts_surfaces:
                    h.eq('circumsolar light on the front',
                         x.get_param('circumsolar')[t], front)
                    h.eq('horizon light on the front',
                         x.get_param('horizon')[t], hor)
            for sg in r.back.list_segments:
                for x in sg.illum.list_ts_surfaces:
                    h.eq('circumsolar light on the back',
                         x.get_param('circumsolar')[t], back)
                    h.eq('horizon light in front of the back',
                         x.get_param('horizon_unshaded')[t], hor)


def scenarios(tier):
    out = []
    for kinds, stamps in (
            ('f', [0]), ('b', [0]), ('p', [0]), ('q', [0]),
            ('qf', [0, 1]), ('n', [0]), ('m', [0]),
            ('0', [0]), ('c', [0]), ('F', [0]), ('A', [0]), ('B', [0]),
            ('fb', [0, 1]), ('bf', [1, 0]), ('bb', [3, 2]), ('pb', [0, 1]),
            ('fp', [0, 1]), ('b0', [0, 1]), ('mc', [0, 1]), ('Bf', [0, 1]),
            ('bfb', [2, 0, 1]), ('fbp', [0, 5, 3]), ('0bm', [0, 1, 2]),
            ('bpF', [0, 1, 2]), ('fb', [0, 0]), ('bmb', [1, 0, 1]),
            ('ff', [30, 0]), ('AB', [0, 1])):
        out.append({'name': 'utils-%s-%s' % (kinds, '.'.join(map(
            str, stamps))), 'fn': utils, 'kw': dict(
                kinds=kinds, stamps=stamps)})
    for kinds, number in (('f', True), ('b', True), ('p', True), ('F', True),
                          ('c', True), ('fb', False), ('bf', False),
                          ('0b', False), ('pm', False), ('nb', False),
                          ('fbf', False)):
        out.append({'name': 'model-%s-%s' % (kinds, 'number' if number else
                                             'array'), 'fn': model,
                    'kw': dict(kinds=kinds, stamps=list(range(len(kinds))),
                               number=number)})
    return out
