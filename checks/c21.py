"""C21: fast mode incident irradiance of the back of one row."""
import numpy as np

META = {
    'bounds': 'arrays of 3 rows with 1-3 segments on the back, 2 time steps, '
    'every row and segment selection (at construction and at the call); '
    'arbitrary view factors, irradiance components, albedo, reflectivities, '
    'front and ground irradiance; hybrid Perez and isotropic models',
    'outside': '',
    'assumptions': [],
}
KEYS = ('to_gnd_shaded', 'to_gnd_illum', 'to_gnd_total', 'to_pvrow_total',
        'to_pvrow_shaded', 'to_pvrow_illum', 'to_sky')


def fast(h, row, seg, model, at, T=2, n=3, ncut=2):
    from pvfactors.engine import PVEngine
    from pvfactors.geometry.pvarray import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    arr = OrderedPVArray.init_from_dict(
        {'axis_azimuth': 0., 'gcr': .4, 'pvrow_height': 1.5, 'n_pvrows': n,
         'pvrow_width': 2., 'cut': {i: {'back': ncut} for i in range(n)}})
    arr.fit(np.array([20., 50.][:T]), np.array([90., 270.][:T]),
            np.array([20., 10.][:T]), np.array([90., 270.][:T]))
    irr = (HybridPerezOrdered if model == 'perez' else IsotropicOrdered)(
        rho_front=h.real('rho_front', 0.01, 0.5),
        rho_back=h.real('rho_back', 0.01, 0.5))

    def ts(name, lo, hi):
        return [h.real('%s_%d' % (name, t), lo, hi) for t in range(T)]

    V = {k: ts(k, 0, 2000) for k in ('gnd_shaded', 'gnd_illum', 'pv_shaded',
                                     'pv_illum', 'sky')}
    V['albedo'] = ts('albedo', 0, 1)
    irr.albedo = h.arr(V['albedo'])
    irr.total_perez['ground_shaded'] = h.arr(V['gnd_shaded'])
    irr.total_perez['ground_illum'] = h.arr(V['gnd_illum'])
    irr.GHI = h.arr(V['gnd_illum'])
    irr.DHI = h.arr(V['sky'])
    irr.total_perez['front_shaded_pvrow'] = h.arr(V['pv_shaded'])
    irr.total_perez['front_illum_pvrow'] = h.arr(V['pv_illum'])
    irr.isotropic_luminance = h.arr(V['sky'])
    comps = ['direct', 'circumsolar', 'horizon'] if model == 'perez' \
        else ['direct']
    own = {}
    for s in arr.all_ts_surfaces:
        own[s.index] = [0.] * T
        p = {}
        for c in comps:
            v = ts('%s%d' % (c, s.index), -50, 1500)
            p[c] = h.arr(v)
            for t in range(T):
                own[s.index][t] = own[s.index][t] + v[t]
        s.update_params(p)
    vfs = {}
    asked = []

    class Calc(VFCalculator):
        def get_vf_ts_pvrow_element(self, pvrow_idx, pvrow_element, ts_pvrows,
                                    ts_ground, rotation_vec, pvrow_width):
            asked.append((pvrow_idx, pvrow_element.index,
                          ts_pvrows is arr.ts_pvrows, ts_ground is
                          arr.ts_ground, pvrow_width is arr.width,
                          rotation_vec is arr.rotation_vec))
            d = vfs[pvrow_element.index]
            return {k: h.arr(d[k]) for k in d}

    for r in arr.ts_pvrows:
        for s in r.back.all_ts_surfaces:
            d = {k: ts('%s%d' % (k, s.index), 0, 1) for k in KEYS}
            vfs[s.index] = d
    kw = {}
    if at == 'init':
        kw = dict(fast_mode_pvrow_index=row, fast_mode_segment_index=seg)
    elif at == 'override':
        kw = dict(fast_mode_pvrow_index=(row + 1) % n,
                  fast_mode_segment_index=None if seg is None else 0)
    eng = PVEngine(arr, vf_calculator=Calc(), irradiance_model=irr, **kw)
    eng.n_points = T
    run = {}
    if at != 'init':
        run = dict(pvrow_index=row, segment_index=seg)
    rep = eng.run_fast_mode(fn_build_report=lambda a: (a, 5), **run)
    h.true('report built from the array', rep[0] is arr and rep[1] == 5)
    segs = arr.ts_pvrows[row].back.list_segments
    segs = segs if seg is None else [segs[seg]]
    want = [s for sg in segs for s in sg.all_ts_surfaces]
    done = [s for s in arr.all_ts_surfaces
            if s.params.get('qinc') is not None]
    h.true('exactly the surfaces of the selected back segments are updated',
           [s.index for s in done] == [s.index for s in want])
    h.true('view factors are those of the surface on its own row',
           all(a[0] == row and all(a[2:]) for a in asked)
           and sorted(set(a[1] for a in asked))
           == sorted(s.index for s in want))
    for s in want:
        d = vfs[s.index]
        for t in range(T):
            g = {k: s.get_param(k)[t] for k in
                 ('qinc', 'isotropic', 'reflection', 'reflection_gnd_shaded',
                  'reflection_gnd_illum', 'reflection_pvrow_shaded',
                  'reflection_pvrow_illum')}
            parts = {
                'reflection_gnd_shaded': d['to_gnd_shaded'][t]
                * V['albedo'][t] * V['gnd_shaded'][t],
                'reflection_gnd_illum': d['to_gnd_illum'][t]
                * V['albedo'][t] * V['gnd_illum'][t],
                'reflection_pvrow_shaded': d['to_pvrow_shaded'][t]
                * irr.rho_front * V['pv_shaded'][t],
                'reflection_pvrow_illum': d['to_pvrow_illum'][t]
                * irr.rho_front * V['pv_illum'][t]}
            tot = 0
            for k in sorted(parts):
                h.eq(k, g[k], parts[k])
                tot = tot + parts[k]
            iso = d['to_sky'][t] * V['sky'][t]
            h.eq('isotropic = view of the sky times its luminance',
                 g['isotropic'], iso)
            h.eq('reflection = ground and front side reflections',
                 g['reflection'], tot)
            h.eq('incident = own + sky + reflections', g['qinc'],
                 own[s.index][t] + iso + tot)


def scenarios(tier):
    out = []
    for model in ('perez', 'iso'):
        for row in range(3):
            for seg in (None, 0, 1):
                for at in ('call', 'init', 'override'):
                    out.append({'name': '%s-row%d-seg%s-%s' % (
                        model, row, seg, at), 'fn': fast,
                        'kw': dict(row=row, seg=seg, model=model, at=at)})
    return out
