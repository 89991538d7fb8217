"""C16: direct and circumsolar light on every kind of surface."""
import numpy as np

from .irr import G, stubs, series, array, perez_values

META = {
    'bounds': '1-3 rows, 1-3 segments, 1-2 time steps; any DNI, DHI in '
    '[0, 1500], any Perez luminances, sun zenith [0, 89.98] (84 at a second '
    'step), surface tilt [0, 180], azimuths of sun and surface in the plane of the array or any azimuth difference, any '
    'transparency and spacing ratio in [0, 1], any albedo and reflectivity',
    'outside': 'the Perez coefficients themselves; sun within 0.6 deg of '
    'the plane of the rows',
    'assumptions': ['pvlib transposition and incidence angle are executed '
                    'symbolically as installed'],
}


def setup(h, model, geo, T, ghi, scalar_albedo=False):
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    g = G()
    g.trans = h.real('transparency', 0, 1)
    g.spac = h.real('spacing', 0, 1)
    g.frac = g.spac + (1 - g.spac) * g.trans
    g.rf = h.real('rho_front', 0.01, .9)
    g.rb = h.real('rho_back', 0.01, .9)
    g.irr = (HybridPerezOrdered if model == 'perez' else IsotropicOrdered)(
        rho_front=g.rf, rho_back=g.rb, module_transparency=g.trans,
        module_spacing_ratio=g.spac)
    g.DNI = series(h, 'DNI', T, 0, 1500)
    g.DHI = series(h, 'DHI', T, 0, 1500)
    g.alb = series(h, 'albedo', T, 0.01, 1)
    g.zen, g.tilt, g.cz, g.ca, g.cosaoi = [], [], [], [], []
    saz, faz = [], []
    for t in range(T):
        z = h.angle('zen_%d' % t, 0, 84 if t else 89.98)
        b = h.angle('tilt_%d' % t, 0, 180)
        g.zen.append(z)
        g.tilt.append(b)
        if geo == 'same':
            saz.append(90.)
            faz.append(90.)
            ca = 1
        elif geo == 'opposite':
            saz.append(90.)
            faz.append(270.)
            ca = -1
        else:
            a = h.angle('daz_%d' % t, 0, 180)
            saz.append(a + 45.)
            faz.append(45.)
            ca = h.cosd(a)
        g.cz.append(h.cosd(z))
        g.cosaoi.append(h.cosd(z) * h.cosd(b) + h.sind(z) * h.sind(b) * ca)
        h.assume(h.abs(g.cosaoi[t]) >= 0.01)
    g.ghi = series(h, 'ghi', T, 0, 2500) if ghi else \
        [g.DNI[t] * g.cz[t] + g.DHI[t] for t in range(T)]
    p, g.pz = perez_values(h, T)
    # one, two or three rows, the latter with segments
    n = {('same', 1): 3, ('opposite', 2): 1}.get((geo, T), 2)
    g.arr = array(T, n, {1: {'front': 2, 'back': 3}} if n == 3 else None)
    g.calls = []
    g.args = [h.arr(g.DNI), h.arr(g.DHI), h.arr(g.zen), h.arr(saz),
              h.arr(g.tilt), h.arr(faz), h.arr(g.alb)]
    with stubs(h, perez=p if model == 'perez' else None, calls=g.calls):
        g.irr.fit(list(range(T)), *g.args,
                  ghi=h.arr(g.ghi) if ghi else None)
        g.irr.transform(g.arr)
    if model == 'perez':
        b = [c for c in g.calls if c[0] == 'perez_diffuse_luminance']
        names = ('dni', 'dhi', 'solar_zenith', 'solar_azimuth',
                 'surface_tilt', 'surface_azimuth')
        h.true('Perez model evaluated once', len(b) == 1)
        for t in range(T):
            for nm, v in zip(names, g.args):
                h.eq('Perez model evaluated on the inputs', b[0][1][nm][t],
                     v[t])
    return g


def light(h, model, geo, T, ghi):
    g = setup(h, model, geo, T, ghi)
    grd = g.arr.ts_ground
    for t in range(T):
        ca = g.cosaoi[t]
        front = h.where(ca > 0, g.DNI[t] * ca, 0)
        back = h.where(ca > 0, 0, -g.DNI[t] * ca)
        gnd = g.DNI[t] * g.cz[t]
        fr = g.frac

        def look(what, surfaces, want, shaded):
            for s in surfaces:
                h.eq('%s direct%s' % (what, ' (shaded)' if shaded else ''),
                     s.get_param('direct')[t], want * (fr if shaded else 1),
                     1e-5)
        look('ground', ill(grd), gnd, False)
        look('ground', sha(grd), gnd, True)
        for r in g.arr.ts_pvrows:
            for nm, sd, want in (('front', r.front, front),
                                 ('back', r.back, back)):
                for sg in sd.list_segments:
                    look(nm, sg.illum.list_ts_surfaces, want, False)
                    look(nm, sg.shaded.list_ts_surfaces, want, True)
        if model != 'perez':
            continue
        Lc = g.pz['luminance_circumsolar'][t]
        cf = h.where(ca > 0, g.pz['poa_circumsolar'][t], 0)

        def look2(what, surfaces, want, shaded, scale=1):
            for s in surfaces:
                h.eq('%s circumsolar%s' % (what,
                                           ' (shaded)' if shaded else ''),
                     s.get_param('circumsolar')[t] * scale,
                     want * (fr if shaded else 1), 1e-5)
        look2('ground', ill(grd), Lc, False)
        look2('ground', sha(grd), Lc, True)
        cb = h.where(ca > 0, 0, -Lc * ca)
        b = h.max(g.cz[t], h.cosd(85.))
        for r in g.arr.ts_pvrows:
            for sg in r.front.list_segments:
                look2('front', sg.illum.list_ts_surfaces, cf, False)
                look2('front', sg.shaded.list_ts_surfaces, cf, True)
            for sg in r.back.list_segments:
                # luminance x cos(incidence) / cos(zenith), 85 deg at most
                look2('back', sg.illum.list_ts_surfaces, cb, False, b)
                look2('back', sg.shaded.list_ts_surfaces, cb, True, b)


def ill(grd):
    return [s for el in grd.illum_elements for s in el.all_ts_surfaces]


def sha(grd):
    return [s for el in grd.shadow_elements for s in el.all_ts_surfaces]


def totals(h, model, geo, T, ghi):
    """values that stand for reflecting surfaces in fast mode"""
    g = setup(h, model, geo, T, ghi)
    m = g.irr
    for t in range(T):
        ca = g.cosaoi[t]
        direct = h.where(ca > 0, g.DNI[t] * ca, 0)
        circ = h.where(ca > 0, g.pz['poa_circumsolar'][t], 0) \
            if model == 'perez' else 0
        Lc = g.pz['luminance_circumsolar'][t] if model == 'perez' else 0
        cb = h.cosd(g.tilt[t])
        # isotropic transposition of pvlib
        poa = direct + g.DHI[t] * (1 + cb) / 2 \
            + g.ghi[t] * g.alb[t] * (1 - cb) / 2
        h.eq('front, illuminated: plane of array irradiance',
             m.pvrow_illum[t], poa, 1e-5)
        h.eq('front, shaded: without the blocked direct and circumsolar',
             m.pvrow_shaded[t], poa - (1 - g.frac) * (direct + circ), 1e-5)
        h.eq('ground, illuminated: global horizontal', m.gnd_illum[t],
             g.ghi[t], 1e-5)
        h.eq('ground, shaded: diffuse plus what passes through the rows',
             m.gnd_shaded[t], g.DHI[t] - Lc + g.frac
             * (Lc + g.DNI[t] * g.cz[t]), 1e-5)
        h.eq('sky luminance', m.sky_luminance[t],
             g.pz['luminance_isotropic'][t] if model == 'perez'
             else g.DHI[t], 1e-5)
        h.eq('albedo kept', m.albedo[t], g.alb[t])


def scenarios(tier):
    out = []
    for model in ('perez', 'iso'):
        for geo in ('same', 'opposite', 'any'):
            for T in (1, 2):
                if T == 2 and geo == 'any' and tier == 'quick':
                    continue
                for ghi in (False, True):
                    kw = dict(model=model, geo=geo, T=T, ghi=ghi)
                    nm = '%s-%s-T%d%s' % (model, geo, T,
                                          '-ghi' if ghi else '')
                    out.append({'name': 'light-' + nm, 'fn': light,
                                'kw': kw})
                    out.append({'name': 'totals-' + nm, 'fn': totals,
                                'kw': kw})
    return out
