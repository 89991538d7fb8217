"""C24: results depend only on the last inputs: fitting and running again,
and passing numbers instead of arrays."""
import numpy as np

from .c22 import faoi
from .irr import luminances
from .steps import Case, concrete, geometry, values, same, stamps, at
from .vf import ite

META = {
    'bounds': 'two fits in a row (any first and second sun and row positions '
    'of 1-2 steps, 1-3 rows), runs repeated and mixed between full and fast '
    'mode, two engines side by side, inputs as numbers or arrays of length '
    'one; any irradiance, luminances and albedo',
    'outside': 'the pvlib Perez coefficients; reflections with symbolic '
    'geometry',
    'assumptions': [],
}
FULL = ['direct', 'circumsolar', 'horizon', 'shaded', 'qinc', 'isotropic',
        'reflection', 'q0', 'qabs', 'direct_absorbed',
        'circumsolar_absorbed', 'horizon_absorbed']
FAST = ['direct', 'circumsolar', 'horizon', 'shaded', 'qinc', 'isotropic',
        'reflection', 'reflection_gnd_shaded', 'reflection_gnd_illum',
        'reflection_pvrow_shaded', 'reflection_pvrow_illum']


def refit(h, n, first, second, cut=None):
    """geometry: the second fit of an array is the fit of a new array"""
    c = Case(h, n, first + second, cut)
    i1 = list(range(len(first)))
    i2 = list(range(len(first), len(first) + len(second)))
    arr = c.array(h, i1)
    keep = c.array(h, i1)
    c.array(h, i2, arr)
    new = c.array(h, i2)
    with ite(h):
        for t in range(len(second)):
            geometry(h, 'second fit', arr, t, new, t)
        # the other array is not touched by the second fit
        again = c.array(h, i1)
        for t in range(len(first)):
            geometry(h, 'other array', keep, t, again, t)


class Run(object):
    def __init__(self, h, model, aoi=False, n=2, cut=None):
        from pvfactors.engine import PVEngine
        from pvfactors.viewfactors import VFCalculator
        from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
        kw, vk = {}, {}
        if aoi:
            kw = dict(faoi_fn_front=faoi(0), faoi_fn_back=faoi(1))
            vk = dict(kw, n_aoi_integral_sections=6)
        irr = (IsotropicOrdered if model == 'iso' else HybridPerezOrdered)(
            rho_front=.05, rho_back=.1, module_transparency=.2,
            module_spacing_ratio=.1, **kw)
        self.arr, _ = concrete([0], n, cut)
        self.eng = PVEngine(self.arr, irradiance_model=irr,
                            vf_calculator=VFCalculator(**vk))

    def fit(self, h, idx, col, model, ghi, T):
        _, args = concrete(idx)
        st = stamps(T)
        inputs = [h.arr([col[k][i] for i in idx]) for k in ('dni', 'dhi')] \
            + args + [np.array([[.2, .5, .1, .3][i] for i in idx])]
        g = h.arr([col['ghi'][i] for i in idx]) if ghi else None
        before = [list(v) for v in inputs] + ([list(g)] if ghi else [])
        with luminances(h, T if model != 'iso' else None):
            self.eng.fit([st[i] for i in idx], *inputs, ghi=g)
        self.inputs = inputs + ([g] if ghi else [])
        self.before = before

    def untouched(self, h):
        for a, b in zip(self.inputs, self.before):
            h.true('inputs keep their size', len(a) == len(b))
            for x, y in zip(a, b):
                same(h, 'inputs are not modified', x, y)

    def run(self, mode):
        if mode == 'full':
            self.eng.run_full_mode()
        else:
            self.eng.run_fast_mode(pvrow_index=1 if mode == 'fast1' else 0)


def columns(h, T):
    return {k: [h.real('%s_%d' % (k, t), 0, 1500) for t in range(T)]
            for k in ('dni', 'dhi', 'ghi')}


def rerun(h, model, plan, aoi=False, ghi=False):
    """plan: fits (tuples of steps) and runs; afterwards the engine agrees
    with a new one that did only the last fit and the last run"""
    T = 4
    col = columns(h, T)
    a = Run(h, model, aoi, cut={0: {'back': 2}})
    last_fit = last_run = None
    for p in plan:
        if isinstance(p, tuple):
            a.fit(h, list(p), col, model, ghi, T)
            last_fit = p
        else:
            a.run(p)
            last_run = p
    b = Run(h, model, aoi, cut={0: {'back': 2}})
    b.fit(h, list(last_fit), col, model, ghi, T)
    b.run(last_run)
    names = FULL if last_run == 'full' else FAST
    seen = 0
    for t in range(len(last_fit)):
        geometry(h, 'geometry', a.arr, t, b.arr, t)
        for x, y in zip(a.arr.all_ts_surfaces, b.arr.all_ts_surfaces):
            for k in names:
                u, v = x.params.get(k), y.params.get(k)
                if v is None:               # not part of the last run
                    continue
                seen += 1
                h.true('%s is calculated' % k, u is not None)
                same(h, 'result of the last fit and run: ' + k, at(u, t),
                     at(v, t), 1e-3)
        x, y = a.eng.skip_step[t], b.eng.skip_step[t]
        h.true('skipped steps', h.or_(h.and_(x, y),
                                      h.and_(h.not_(x), h.not_(y))))
    h.true('results were compared', seen > 20)
    h.true('number of steps', a.eng.n_points == len(last_fit))
    a.untouched(h)


def twins(h, model, mode):
    """two engines in one process"""
    T = 4
    col = columns(h, T)
    a, b, c = Run(h, model), Run(h, model), Run(h, model)
    a.fit(h, [0, 1], col, model, False, T)
    b.fit(h, [2, 3], col, model, False, T)
    b.run('fast1')
    a.run(mode)
    c.fit(h, [0, 1], col, model, False, T)
    c.run(mode)
    names = FULL if mode == 'full' else FAST
    for t in (0, 1):
        geometry(h, 'two engines', a.arr, t, c.arr, t)
        values(h, 'two engines', a.arr, t, c.arr, t, names, 1e-3)
    # the other one again, after the third was fitted
    d = Run(h, model)
    b.run(mode)
    d.fit(h, [2, 3], col, model, False, T)
    d.run(mode)
    for t in (0, 1):
        geometry(h, 'two engines', b.arr, t, d.arr, t)
        for x, y in zip(b.arr.all_ts_surfaces, d.arr.all_ts_surfaces):
            for k in names:
                if y.params.get(k) is not None:
                    same(h, 'two engines: ' + k, at(x.params[k], t),
                         at(y.params[k], t), 1e-3)


def scalars(h, model, mode, step, ghi=False, alb='scalar', aoi=False):
    """numbers instead of arrays"""
    v = {k: h.real(k, 0, 1500) for k in ('dni', 'dhi', 'ghi')}
    x = h.real('albedo', 0.01, 1) if mode != 'full' else .25
    a, b = Run(h, model, aoi), Run(h, model, aoi)
    _, args = concrete([step])
    st = stamps(4)[step]
    pos = [float(u[0]) for u in args]
    with luminances(h, 1 if model != 'iso' else None):
        a.eng.fit(st, v['dni'], v['dhi'], *pos,
                  x if alb == 'scalar' else h.arr([x]),
                  ghi=v['ghi'] if ghi else None)
        b.eng.fit([st], h.arr([v['dni']]), h.arr([v['dhi']]), *args,
                  x if alb == 'both' else h.arr([x]),
                  ghi=h.arr([v['ghi']]) if ghi else None)
    a.run(mode)
    b.run(mode)
    geometry(h, 'numbers', a.arr, 0, b.arr, 0)
    values(h, 'numbers', a.arr, 0, b.arr, 0,
           FULL if mode == 'full' else FAST, 1e-3)
    for nm in ('gnd_shaded', 'gnd_illum', 'pvrow_shaded', 'pvrow_illum',
               'sky_luminance', 'albedo'):
        p, q = getattr(a.eng.irradiance, nm), getattr(b.eng.irradiance, nm)
        h.true('one step', len(p) == 1 and len(q) == 1)
        same(h, 'numbers: ' + nm, p[0], q[0], 1e-3)
    if ghi and model == 'iso' or ghi:
        same(h, 'ground gets the given ghi', a.eng.irradiance.gnd_illum[0],
             v['ghi'], 1e-3)
    h.true('number of steps', a.eng.n_points == 1)


def oneoff(h, n, step):
    """fit_from_dict_of_scalars is fit with arrays of length one"""
    from pvfactors.geometry.pvarray import OrderedPVArray
    c = Case(h, n, [step])
    d = dict(c.params, solar_zenith=c.zen[0], solar_azimuth=c.saz[0],
             surface_tilt=c.tilt[0], surface_azimuth=c.faz[0])
    with ite(h):
        a = OrderedPVArray.fit_from_dict_of_scalars(d)
        b = c.array(h, [0])
        geometry(h, 'fit from numbers', a, 0, b, 0)


def scenarios(tier):
    out = []
    for i, (first, second) in enumerate((
            (['LL'], ['RR']), (['LL'], ['LL']), (['FL'], ['RL']),
            (['RL', 'LR'], ['LL']), (['LL'], ['RL', 'FR']))):
        for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
            out.append({'name': 'refit%d-n%d' % (i, n), 'fn': refit,
                        'kw': dict(n=n, first=first, second=second,
                                   cut={0: {'front': 2}} if n == 2 else None)})
    plans = [((0, 1), 'full', (2, 3), 'full'), ((0, 1, 2), 'full', (3,),
                                                'full'),
             ((1,), 'full', (0, 1, 2), 'full'), ((0, 1), 'full', 'full'),
             ((0, 1), 'fast0', 'full'), ((0, 1), 'full', 'fast0'),
             ((0, 1), 'fast0', (2,), 'fast1'), ((0, 1), 'fast1', 'fast1'),
             ((2, 3), (0, 1), 'fast0'), ((1, 2), (1, 2), 'full')]
    for model in ('iso', 'perez'):
        for i, p in enumerate(plans):
            out.append({'name': 'rerun-%s-%d' % (model, i), 'fn': rerun,
                        'kw': dict(model=model, plan=p, ghi=(i % 3 == 0))})
        for mode in ('full', 'fast0', 'fast1'):
            out.append({'name': 'twins-%s-%s' % (model, mode), 'fn': twins,
                        'kw': dict(model=model, mode=mode)})
        for step in (0, 1, 2, 3):
            for mode in ('full', 'fast0'):
                for j, (ghi, alb) in enumerate((
                        (False, 'scalar'), (True, 'array'), (True, 'both'))):
                    out.append({'name': 'scalar-%s-%d-%s-%d' % (
                        model, step, mode, j), 'fn': scalars, 'kw': dict(
                            model=model, mode=mode, step=step, ghi=ghi,
                            alb=alb)})
    for i in (0, 2, 3):
        out.append({'name': 'rerun-aoi-%d' % i, 'fn': rerun,
                    'kw': dict(model='perez', plan=plans[i], aoi=True)})
    out.append({'name': 'scalar-aoi', 'fn': scalars, 'kw': dict(
        model='perez', mode='full', step=1, aoi=True)})
    for n in (1, 2):
        for st in ('LL', 'LR', 'RL', 'FL'):
            out.append({'name': 'oneoff-n%d-%s' % (n, st), 'fn': oneoff,
                        'kw': dict(n=n, step=st)})
    return out
