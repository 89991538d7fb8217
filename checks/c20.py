"""C20: full mode solves the radiosity balance of every surface."""
import numpy as np

META = {
    'bounds': '2-3 surfaces and the sky (thorough: up to 4), '
    '2 time steps; per surface and time step arbitrary '
    'reflectivity in [0.01, 0.9], arbitrary irradiance components in '
    '[-50, 1500], arbitrary view factors in [0, 1] with row sum at most 1, '
    'arbitrary sky luminance; hybrid Perez and isotropic models',
    'outside': 'the numerical quality of the matrix inversion',
    'assumptions': ['np.linalg.inv returns a right inverse of its argument '
                    '(solve: a solution), which the strict diagonal dominance '
                    'of the system guarantees to exist'],
}


def fitted(ns, T, n=1, cut=None):
    """an array with concrete geometry, restricted to its first ns surfaces:
    only the surface list matters here"""
    from pvfactors.geometry.pvarray import OrderedPVArray

    class Sub(OrderedPVArray):
        keep = None

        @property
        def all_ts_surfaces(self):
            a = OrderedPVArray.all_ts_surfaces.fget(self)
            return a if self.keep is None else a[:self.keep]

        @property
        def n_ts_surfaces(self):
            return len(self.all_ts_surfaces)

    arr = Sub.init_from_dict(
        {'axis_azimuth': 0., 'gcr': .4, 'pvrow_height': 1.5, 'n_pvrows': n,
         'pvrow_width': 2., 'cut': cut or {}})
    arr.fit(np.array([20., 50.][:T]), np.array([90., 270.][:T]),
            np.array([20., 10.][:T]), np.array([90., 270.][:T]))
    arr.keep = ns
    return arr


def balance(h, ns, model, T=2):
    from pvfactors.engine import PVEngine
    from pvfactors.viewfactors import VFCalculator
    from pvfactors.irradiance import HybridPerezOrdered, IsotropicOrdered
    arr = fitted(ns, T)
    surfs = arr.all_ts_surfaces
    irr = (HybridPerezOrdered if model == 'perez' else IsotropicOrdered)()
    comps = ['direct', 'circumsolar', 'horizon'] if model == 'perez' \
        else ['direct']
    up = 1. / ns
    F = [[[0.] * T for _ in range(ns + 1)] for _ in range(ns + 1)]
    rho = [[None] * T for _ in range(ns)]
    own = [[0.] * T for _ in range(ns)]
    absd = [[0.] * T for _ in range(ns)]
    L = []
    for t in range(T):
        L.append(h.real('L_%d' % t, 0, 800))
        for i in range(ns):
            for j in range(ns):
                F[i][j][t] = h.real('F%d_%d_%d' % (i, j, t), 0, up)
            F[i][ns][t] = h.real('S%d_%d' % (i, t), 0, up)
            rho[i][t] = h.real('rho%d_%d' % (i, t), 0.01, 0.9)
    for i, s in enumerate(surfs):
        p = {'rho': h.arr(rho[i]), 'inv_rho': 1. / h.arr(rho[i]),
             'total_perez': h.arr([0.] * T)}
        for c in comps:
            v = [h.real('%s%d_%d' % (c, i, t), -50, 1500) for t in range(T)]
            a = [h.real('%s_abs%d_%d' % (c, i, t), -50, 1500)
                 for t in range(T)]
            p[c] = h.arr(v)
            p[c + '_absorbed'] = h.arr(a)
            for t in range(T):
                own[i][t] = own[i][t] + v[t]
                absd[i][t] = absd[i][t] + a[t]
        s.update_params(p)
    irr.isotropic_luminance = h.arr(L)
    irr.n_steps = T
    Farr = h.arr(F)

    class Calc(VFCalculator):
        def build_ts_vf_matrix(self, pvarray):
            self.vf_matrix = Farr + 0.
            return self.vf_matrix

    eng = PVEngine(arr, vf_calculator=Calc(), irradiance_model=irr)
    eng.n_points = T
    seen = []
    rep = eng.run_full_mode(fn_build_report=lambda a: seen.append(a) or 17)
    h.true('report built once from the array',
           rep == 17 and len(seen) == 1 and seen[0] is arr)
    h.true('surfaces listed by index',
           [s.index for s in arr.all_ts_surfaces] == list(range(ns)))
    for t in range(T):
        q0 = [s.get_param('q0')[t] for s in surfs]
        for i, s in enumerate(surfs):
            h.set_lemmas(lemmas(own, L, rho, F, ns, T, i, t)
                         if h.symbolic else ())
            g = {k: s.get_param(k)[t] for k in
                 ('qinc', 'isotropic', 'reflection', 'qabs')}
            refl = 0.
            for j in range(ns):
                refl = refl + F[i][j][t] * q0[j]
            iso = F[i][ns][t] * L[t]
            tol = 1e-4
            h.eq('isotropic = view of the sky times its luminance',
                 g['isotropic'], iso, tol)
            h.eq('radiosity = reflectivity x incident', q0[i],
                 rho[i][t] * g['qinc'], tol)
            h.eq('incident = own + sky + radiosity of every surface seen',
                 g['qinc'], own[i][t] + iso + refl, tol)
            h.eq('reflection = radiosity of every surface seen',
                 g['reflection'], refl, tol)
            h.eq('absorbed = (1 - rho) x diffuse + absorbed components',
                 g['qabs'], (1 - rho[i][t]) * (iso + refl) + absd[i][t], tol)


def lemmas(own, L, rho, F, ns, T, i, t):
    """A.M = I (rows i and sky) contracted with the irradiance of the
    surfaces and with the factors of the balance of surface i; for solve:
    A.x = b as it is."""
    from symx.npshim import LINALG
    recs = LINALG['records']
    if len(recs) == T:
        recs = [recs[t]]
    out = []
    e = [own[k][t] for k in range(ns)] + [L[t]]
    for rec in recs:
        A = rec['A']
        eqs = {}
        for r in (i, ns):
            if rec['kind'] == 'solve':
                X, B = rec['X'], rec['B']
                eqs[r] = [(sum(A[r, j] * X[j, c] for j in range(ns + 1)),
                           B[r, c]) for c in range(X.shape[1])]
            else:
                M = rec['M']
                eqs[r] = [(sum(A[r, j] * sum(M[j, k] * e[k]
                                             for k in range(ns + 1))
                               for j in range(ns + 1)), e[r])]
        for l, r in eqs[i]:
            out.append((l - r) * rho[i][t] == 0)
        for l, r in eqs[ns]:
            for f in (1, F[i][ns][t], F[i][ns][t] * rho[i][t]):
                out.append((l - r) * f == 0)
    return out


def scenarios(tier):
    out = []
    for ns in ((2, 3) if tier == 'quick' else (2, 3, 4)):
        for m in ('perez', 'iso'):
            out.append({'name': 's%d-%s' % (ns, m), 'fn': balance,
                        'kw': dict(ns=ns, model=m)})
    return out
