"""C23: a parallel run gives the report of a serial run."""
import datetime

import numpy as np

META = {
    'bounds': '1-5 time steps on 1-4 processes (also 12 and 13 steps on '
    '11, 12 and 25 processes, also one per processor, also '
    'more processes than steps); arbitrary irradiance, sun, surface and '
    'albedo values; albedo and ghi given as array, scalar or not at all; '
    'timestamps as list, array or DatetimeIndex; full and fast mode',
    'outside': 'process creation and pickling (the pool runs its jobs in '
    'this process, in reverse order)',
    'assumptions': ['steps do not depend on each other (C22)'],
}
IN = ('dni', 'dhi', 'solar_zenith', 'solar_azimuth', 'surface_tilt',
      'surface_azimuth')
W = dict(zip(IN + ('albedo', 'ghi'), (3, 5, 7, 11, 13, 17, 1900, 2.3)))
T0 = datetime.datetime(2019, 6, 1, 10)


class FakePool(object):
    """runs the jobs one after another, last one first"""

    def __init__(self, processes=None, *a, **k):
        self.processes = processes

    def map(self, fn, jobs, chunksize=None):
        jobs = list(jobs)
        out = [fn(j) for j in jobs[::-1]]
        return out[::-1]

    def imap(self, fn, jobs, chunksize=1):
        return iter(self.map(fn, jobs))

    def imap_unordered(self, fn, jobs, chunksize=1):
        return iter([fn(j) for j in list(jobs)[::-1]])

    def starmap(self, fn, jobs, chunksize=None):
        return self.map(lambda j: fn(*j), jobs)

    def apply_async(self, fn, args=(), kwds={}):
        v = fn(*args, **kwds)

        class R(object):
            def get(self, timeout=None):
                return v
        return R()

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class pool(object):
    def __enter__(self):
        import pvfactors.run as m
        import logging
        logging.disable(logging.INFO)
        self.m, self.old = m, (m.Pool, m.cpu_count)
        m.Pool = FakePool
        m.cpu_count = lambda: 3

    def __exit__(self, *a):
        self.m.Pool, self.m.cpu_count = self.old


def stamp(t):
    t = getattr(t, 'to_pydatetime', lambda: t)()
    if isinstance(t, np.datetime64):
        t = t.astype('datetime64[s]').astype(object)
    return (t - T0).total_seconds() / 3600. * 10


def classes(log):
    from pvfactors.engine import PVEngine

    class Arr(object):
        @classmethod
        def init_from_dict(cls, params, param_names=None):
            a = cls()
            a.params = params
            return a

    class Irr(object):
        def __init__(self, **kw):
            self.kw = kw

    class VF(object):
        def __init__(self, **kw):
            self.kw = kw

    class Eng(PVEngine):
        def fit(self, timestamps, DNI, DHI, solar_zenith, solar_azimuth,
                surface_tilt, surface_azimuth, albedo, ghi=None):
            a = self.pvarray
            a.irr, a.vf = self.irradiance, self.vf_calculator
            a.sel = (self.fast_mode_pvrow_index, self.fast_mode_segment_index)
            cols = (DNI, DHI, solar_zenith, solar_azimuth, surface_tilt,
                    surface_azimuth, albedo)
            a.sizes = [len(c) for c in cols] + [len(timestamps)]
            a.values = []
            for t in range(len(DNI)):
                v = stamp(timestamps[t])
                for k, c in zip(IN + ('albedo',), cols):
                    v = v + W[k] * c[t]
                v = v + (-1 if ghi is None else W['ghi'] * ghi[t])
                a.values.append(v)
            log.append(a)

        def run_full_mode(self, fn_build_report=None):
            self.pvarray.mode = 'full'
            return fn_build_report(self.pvarray)

        def run_fast_mode(self, fn_build_report=None, pvrow_index=None,
                          segment_index=None):
            self.pvarray.mode = 'fast'
            return fn_build_report(self.pvarray)
    return Arr, Irr, VF, Eng


def stamps(T, kind):
    ts = [T0 + datetime.timedelta(hours=i) for i in range(T)]
    if kind == 'index':
        import pandas as pd
        return pd.DatetimeIndex(ts)
    return np.array(ts) if kind == 'array' else ts


def split(h, T, n, ghi, alb, kind, sel, ascending=True):
    from pvfactors.run import run_parallel_engine, run_timeseries_engine
    from pvfactors.report import ExampleReportBuilder
    log = []
    Arr, Irr, VF, Eng = classes(log)
    col = {k: [h.real('%s_%d' % (k, t), -1e3, 1e3) for t in range(T)]
           for k in IN + ('ghi', 'albedo')}
    x = h.real('albedo', 0, 1)
    albedo = x if alb == 'scalar' else h.arr(col['albedo'])

    class Builder(ExampleReportBuilder):
        @staticmethod
        def build(a):
            return {'v': list(a.values), 'minus': [-v for v in a.values]}

    class Builder2(object):
        """an object that keeps the order of the parts"""

        def build(self, a):
            return list(a.values)

        def merge(self, parts):
            return [list(p) for p in parts]

    kw = {k: h.arr(col[k]) for k in IN}
    kw.update(timestamps=stamps(T, kind), albedo=albedo,
              ghi=h.arr(col['ghi']) if ghi else None)
    par = {'some': 'parameters'}
    kw.update(pvarray_parameters=par, cls_pvarray=Arr, cls_engine=Eng,
              cls_irradiance=Irr, cls_vf=VF)
    opt = {}
    if sel is not None:
        opt = dict(fast_mode_pvrow_index=sel[0],
                   fast_mode_segment_index=sel[1],
                   irradiance_model_params={'a': 1},
                   vf_calculator_params={'b': 2})
    want = []
    for t in range(T):
        v = t * 10
        for k in IN:
            v = v + W[k] * col[k][t]
        v = v + W['albedo'] * (x if alb == 'scalar' else col['albedo'][t])
        want.append(v + (W['ghi'] * col['ghi'][t] if ghi else -1))
    with pool():
        got = run_parallel_engine(Builder, n_processes=n, **kw, **opt)
        parts = run_parallel_engine(Builder2(), n_processes=n, **kw, **opt)
    h.true('one part per process', len(parts) == (3 if n == -1 else n))
    parts = [v for p in parts for v in p]
    h.true('parallel report has every time step once', len(got['v']) == T
           and len(got['minus']) == T and len(parts) == T)
    for t in range(T):
        h.eq('parallel report of a time step', got['v'][t], want[t])
        h.eq('parallel report of a time step', got['minus'][t], -want[t])
        h.eq('parts are merged in time order', parts[t], want[t])
    n_par = len(log)
    skw = dict(kw)
    if alb == 'scalar':
        skw['albedo'] = h.arr([x] * T)      # the engine's own job (C24)
    ser = run_timeseries_engine(Builder.build, **skw, **opt)
    for t in range(T):
        h.eq('serial report of a time step', ser['v'][t], want[t])
    h.true('all inputs of a part have the same length', all(
        all(z == len(a.values) for z in a.sizes) for a in log))
    h.true('array parameters reach every run',
           all(a.params is par or a.params == par for a in log))
    h.true('model parameters reach every run',
           all(a.irr.kw == ({} if sel is None else {'a': 1})
               and a.vf.kw == ({} if sel is None else {'b': 2})
               for a in log))
    fast = sel is not None and sel[0] is not None
    h.true('fast mode when a row is selected',
           all(a.mode == ('fast' if fast else 'full') for a in log))
    h.true('row and segment selection reach every run',
           all(a.sel == ((None, None) if sel is None else sel) for a in log))
    h.true('something ran', n_par > 0 and len(log) == n_par + 1)


def merge(h, sizes):
    """merging reports of several parts and keys"""
    from pvfactors.report import ExampleReportBuilder
    keys = ('qinc_front', 'qinc_back', 'z')
    parts, want = [], {k: [] for k in keys}
    for i, m in enumerate(sizes):
        p = {}
        for k in keys:
            v = [h.real('%s_%d_%d' % (k, i, j), -1e3, 1e3) for j in range(m)]
            p[k] = list(v)
            want[k] += v
        parts.append(p)
    got = ExampleReportBuilder.merge(parts)
    h.true('keys kept', sorted(got) == sorted(keys))
    for k in keys:
        h.true('values of all parts', len(got[k]) == len(want[k]))
        for a, b in zip(got[k], want[k]):
            h.eq('merged values in order', a, b)


def real(h, T, n, fast, model):
    """with the real engine: symbolic irradiance on a concrete array"""
    from pvfactors.run import run_parallel_engine, run_timeseries_engine
    from .irr import luminances
    col = {k: [h.real('%s_%d' % (k, t), 0, 1500) for t in range(T)]
           for k in ('dni', 'dhi')}
    kw = dict(pvarray_parameters={
        'n_pvrows': 3, 'pvrow_height': 1.5, 'pvrow_width': 2.,
        'axis_azimuth': 0., 'gcr': .5, 'cut': {1: {'back': 2}}},
        timestamps=stamps(T, 'index'), dni=h.arr(col['dni']),
        dhi=h.arr(col['dhi']), solar_zenith=np.array([20., 50., 80.][:T]),
        solar_azimuth=np.array([90., 270., 100.][:T]),
        surface_tilt=np.array([20., 10., 60.][:T]),
        surface_azimuth=np.array([90., 270., 90.][:T]),
        albedo=np.array([.2, .3, .1][:T]))
    if fast:
        kw['fast_mode_pvrow_index'] = 1
    from pvfactors.irradiance import IsotropicOrdered, HybridPerezOrdered
    kw['cls_irradiance'] = IsotropicOrdered if model == 'iso' \
        else HybridPerezOrdered

    class Builder(object):
        @staticmethod
        def build(arr):
            names = ['qinc'] if fast else ['qinc', 'isotropic', 'reflection']
            out = {k: [] for k in names}
            for s in arr.ts_pvrows[1].back.all_ts_surfaces:
                for k in names:
                    v = s.get_param(k)
                    out[k].append([v[t] for t in range(len(v))])
            return out

        @staticmethod
        def merge(parts):
            return {k: [sum([p[k][i] for p in parts], [])
                        for i in range(len(parts[0][k]))] for k in parts[0]}
    with luminances(h, T if model != 'iso' else None):
        with pool():
            got = run_parallel_engine(Builder, n_processes=n, **kw)
        ser = run_timeseries_engine(Builder.build, **kw)
    for k in ser:
        for a, b in zip(got[k], ser[k]):
            h.true('time steps', len(a) == T and len(b) == T)
            for t in range(T):
                if isinstance(a[t], float) and a[t] != a[t]:
                    continue
                h.eq('parallel %s = serial' % k, a[t], b[t], 1e-3)


def scenarios(tier):
    out = []
    Ts = (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8)
    for T in Ts:
        for n in (1, 2, 3, 4, -1):
            for i, (ghi, alb, kind, sel) in enumerate((
                    (False, 'scalar', 'index', None),
                    (True, 'array', 'list', (1, None)),
                    (True, 'scalar', 'array', (0, 2)),
                    (True, 'array', 'index', (None, None)))):
                out.append({'name': 'T%d-n%d-%d' % (T, n, i), 'fn': split,
                            'kw': dict(T=T, n=n, ghi=ghi, alb=alb, kind=kind,
                                       sel=sel)})
    for T, n in ((12, 12), (13, 11), (12, 25)):
        # more parts than digits
        out.append({'name': 'many-T%d-n%d' % (T, n), 'fn': split,
                    'kw': dict(T=T, n=n, ghi=False, alb='array',
                               kind='index', sel=None)})
    for i, z in enumerate(((1,), (2, 1), (1, 0, 3), (0, 2), (3, 2, 1, 1))):
        out.append({'name': 'merge-%d' % i, 'fn': merge, 'kw': dict(sizes=z)})
    for T, n in ((2, 2), (3, 2)):
        for fast in (False, True):
            for model in ('iso', 'perez'):
                out.append({'name': 'real-T%d-n%d-%s-%s' % (
                    T, n, 'fast' if fast else 'full', model), 'fn': real,
                    'kw': dict(T=T, n=n, fast=fast, model=model)})
    return out
