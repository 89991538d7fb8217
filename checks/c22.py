"""C22: every time step is calculated as if it were alone."""
import numpy as np

from .irr import luminances
from .steps import Case, Ordered, concrete, geometry, values, same, stamps, at
from .vf import FLAT, ORDERS, PROBE, ite

META = {
    'bounds': '2-3 time steps against each step alone: geometry of 1-3 rows '
    'for any tilts, sun positions, widths, heights and spacings with steps '
    'tilted to the same and to different sides or flat; irradiance, full '
    'mode, fast mode and absorption for any irradiance, luminances, albedo '
    'values on arrays with direct shading',
    'outside': 'the pvlib Perez coefficients; reflections with symbolic '
    'geometry (decided per step in C20/C21 for arbitrary matrices)',
    'assumptions': [],
}


def geo(h, n, steps, cut=None):
    c = Case(h, n, steps, cut)
    T = len(steps)
    both = c.array(h, range(T))
    for t in range(T):
        one = c.array(h, [t])
        with ite(h):
            geometry(h, 'geometry', both, t, one, 0)
            ga, gb = both.ts_ground, one.ts_ground
            for p, q in zip(ga.cut_point_coords, gb.cut_point_coords):
                same(h, 'cut points', at(p.x, t), at(q.x, 0))


def viewf(h, n, steps, orders):
    from pvfactors.viewfactors import VFCalculator
    c = Ordered(h, n, steps, orders, (1., 4., 1.5) if n > 1 else None)
    T = len(steps)
    calc = VFCalculator()

    def matrix(idx):
        arr = c.array(h, idx)
        calc.fit(len(idx))
        with ite(h):
            return calc.build_ts_vf_matrix(arr)
    both = matrix(range(T))
    for t in range(T):
        one = matrix([t])
        h.true('shape', both.shape[:2] == one.shape[:2]
               and both.shape[2] == T and one.shape[2] == 1)
        for i in range(one.shape[0]):
            for j in range(one.shape[1]):
                same(h, 'view factor', both[i, j, t], one[i, j, 0])


FAOI = [(0.95, 0.9, 0.8, 0.5), (0.9, 0.85, 0.6, 0.4)]


def faoi(k):
    def fn(angles):
        a = np.asarray(angles, dtype=float)
        return np.interp(np.abs(a - 90.), [0, 30, 60, 90], FAOI[k])
    return fn


def engine(h, T, model, mode, n=2, cut=None, aoi=False, ghi=False,
           data='array'):
    from pvfactors.engine import PVEngine
    from pvfactors.viewfactors import VFCalculator
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    col = {k: [h.real('%s_%d' % (k, t), lo, 1500) for t in range(T)]
           for k, lo in (('dni', 0), ('dhi', 0), ('ghi', 0))}
    alb = [.2, .5, .1, .3][:T]
    kw = {}
    if aoi:
        kw = dict(faoi_fn_front=faoi(0), faoi_fn_back=faoi(1))

    def run(idx):
        arr, args = concrete(idx, n, cut)
        irr = (IsotropicOrdered if model == 'iso' else HybridPerezOrdered)(
            rho_front=.05, rho_back=.1, module_transparency=.2,
            module_spacing_ratio=.1, **kw)
        vk = dict(kw, n_aoi_integral_sections=6) if aoi else {}
        eng = PVEngine(arr, irradiance_model=irr,
                       vf_calculator=VFCalculator(**vk))
        sub = [h.arr([col[k][i] for i in idx]) for k in ('dni', 'dhi')]
        g = h.arr([col['ghi'][i] for i in idx]) if ghi else None
        st = stamps(T)
        with luminances(h, T if model != 'iso' else None):
            eng.fit([st[i] for i in idx], sub[0], sub[1], *args,
                    np.array([alb[i] for i in idx]), ghi=g)
            if mode == 'full':
                eng.run_full_mode()
            else:
                eng.run_fast_mode(pvrow_index=0)
        return arr, eng
    both, eb = run(range(T))
    names = ['direct', 'circumsolar', 'horizon', 'shaded', 'qinc',
             'isotropic', 'reflection']
    names += ['q0', 'qabs', 'direct_absorbed', 'circumsolar_absorbed',
              'horizon_absorbed'] if mode == 'full' else \
        ['reflection_gnd_shaded', 'reflection_gnd_illum',
         'reflection_pvrow_shaded', 'reflection_pvrow_illum']
    seen = set()
    for t in range(T):
        one, eo = run([t])
        for s in one.all_ts_surfaces:
            seen.update(k for k in names if s.params.get(k) is not None)
        values(h, 'result', both, t, one, 0, names, 1e-3)
        for nm in ('gnd_shaded', 'gnd_illum', 'pvrow_shaded', 'pvrow_illum',
                   'sky_luminance'):
            same(h, nm, at(getattr(eb.irradiance, nm), t),
                 at(getattr(eo.irradiance, nm), 0), 1e-3)
        if mode == 'full':
            x, y = both.ts_vf_matrix, one.ts_vf_matrix
            for i in np.ndindex(*y.shape[:2]):
                same(h, 'view factors', x[i][t], y[i][0])
        x, y = eb.skip_step[t], eo.skip_step[0]
        h.true('skipped steps', h.or_(h.and_(x, y), h.and_(h.not_(x),
                                                           h.not_(y))))
    h.true('results were compared', len(seen) >= 5)


VF = [(1, ('LN', 'RN'), (ORDERS[1][1], ORDERS[1][0])),
      (1, ('FN', 'RN'), (FLAT[1][0], ORDERS[1][2])),
      (2, ('LN', 'rN'), (ORDERS[2][1], ORDERS[2][3])),
      (2, ('lN', 'RN'), (ORDERS[2][2], ORDERS[2][1])),
      (2, ('RN', 'FN'), (ORDERS[2][2], FLAT[2][0])),
      (2, ('LN', 'lN'), (ORDERS[2][3], ORDERS[2][1])),
      (2, ('RN', 'lN'), (ORDERS[2][0], ORDERS[2][6]))]


def scenarios(tier):
    out = []
    for steps in (('LL', 'LR'), ('LL', 'RL'), ('RR', 'FL'), ('FL', 'LL'),
                  ('RL', 'RR'), ('LL', 'RR', 'FR')):
        for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
            cut = {0: {'back': 2}} if n == 2 else None
            nm = 'n%d-%s' % (n, '-'.join(steps))
            out.append({'name': 'geo-' + nm, 'fn': geo,
                        'kw': dict(n=n, steps=steps, cut=cut)})
    for i, (n, steps, o) in enumerate(VF):
        out.append({'name': 'vf%d-n%d-%s' % (i, n, '-'.join(steps)),
                    'fn': viewf, 'opts': PROBE,
                    'kw': dict(n=n, steps=steps, orders=o)})
    for T in (2, 3):
        for model in ('iso', 'perez'):
            for mode in ('full', 'fast'):
                out.append({'name': 'engine-T%d-%s-%s' % (T, model, mode),
                            'fn': engine, 'kw': dict(
                                T=T, model=model, mode=mode, n=2,
                                cut={0: {'back': 2}}, ghi=(T == 2))})
        out.append({'name': 'engine-T%d-aoi' % T, 'fn': engine, 'kw': dict(
            T=T, model='perez', mode='full', n=2, aoi=True)})
    return out
