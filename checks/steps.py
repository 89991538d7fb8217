"""Shared construction for the checks that compare runs with each other."""
import datetime

import numpy as np

from .vf import ground_as, ite

T0 = datetime.datetime(2019, 6, 1, 9)


def stamps(T):
    return [T0 + datetime.timedelta(hours=i) for i in range(T)]


class Case(object):
    """parameters of an array and symbolic sun and row positions"""

    def __init__(self, h, n, steps, cut=None, fix=None):
        """steps: e.g. ['LL', 'RL', 'FR']: tilt side (F flat, l / r 30 deg)
        and sun side (N: zenith)"""
        if fix:
            self.r, self.D, self.h = fix
        else:
            self.r = h.real('r', .5, 2)
            self.D = h.real('D', 1.5, 15)
            h.assume(2.2 * self.r <= self.D)
            h.assume(self.D <= 10 * self.r)
            self.h = h.real('h', 1, 5)
        self.params = {'axis_azimuth': 0., 'gcr': 2 * self.r / self.D,
                       'pvrow_height': self.h, 'n_pvrows': n,
                       'pvrow_width': 2 * self.r, 'cut': cut or {}}
        self.zen, self.saz, self.tilt, self.faz = [], [], [], []
        for t, s in enumerate(steps):
            self.zen.append(0. if s[1] == 'N'
                            else h.angle('zen_%d' % t, 0, 85))
            self.saz.append(270. if s[1] == 'L' else 90.)
            self.faz.append(270. if s[0] in 'lL' else 90.)
            if s[0] == 'F':
                self.tilt.append(0.)
                continue
            if s[0] in 'lr':                # a fixed tilt
                self.tilt.append(30.)
                continue
            a = h.angle('tilt_%d' % t, 1, 85)
            self.tilt.append(a)
            h.assume(self.h - self.r * h.sind(a) >= .05)
            if s[1] != 'N':
                # sun out of the plane of the rows
                sg = 1 if s[0] == 'L' else -1
                sx = -1 if s[1] == 'L' else 1
                cr = h.cosd(a) * h.cosd(self.zen[-1]) \
                    - sg * sx * h.sind(a) * h.sind(self.zen[-1])
                h.assume(h.abs(cr) >= .01)

    def args(self, h, idx):
        def col(v):
            v = [v[i] for i in idx]
            return np.array(v) if all(isinstance(x, float) for x in v) \
                else h.arr(v)
        return [col(self.zen), col(self.saz), col(self.tilt), col(self.faz)]

    def array(self, h, idx, arr=None):
        from pvfactors.geometry.pvarray import OrderedPVArray
        if arr is None:
            arr = OrderedPVArray.init_from_dict(self.params)
        with ite(h):
            arr.fit(*self.args(h, idx))
        return arr


class Ordered(Case):
    """the ground has shadows at arbitrary positions in a given order per
    step (see vf.fixture), or at given places, instead of the sun's"""

    def __init__(self, h, n, steps, orders, fix=None):
        Case.__init__(self, h, n, steps, fix=fix)
        self.pos = []
        for t, order in enumerate(orders):
            if isinstance(order, dict):     # concrete positions
                order = dict(order)
                for i in range(n):
                    order.setdefault('C%d' % i, np.inf)
                self.pos.append(order)
                continue
            pos = {}
            names = order.split()
            for k in names:
                if k[0] != 'C':
                    pos[k] = h.real('%s_%d' % (k, t), -90, 90)
            for i in range(n):
                if steps[t][0] == 'F':
                    pos['C%d' % i] = np.inf
                else:
                    c, s = h.cosd(self.tilt[t]), h.sind(self.tilt[t])
                    if steps[t][0] in 'rR':
                        s = -s
                    pos['C%d' % i] = i * self.D - self.h * c / s
                    h.assume(pos['C%d' % i] >= -90)
                    h.assume(pos['C%d' % i] <= 90)
            for u, v in zip(names, names[1:]):
                if u[0] != 'C' or v[0] != 'C':
                    h.assume(pos[v] - pos[u] >= 2e-6)
            self.pos.append(pos)
        self.n = n

    def array(self, h, idx, arr=None):
        from pvfactors.geometry.timeseries import TsPointCoords
        T = len(idx)

        def col(k):
            v = [self.pos[t][k] for t in idx]
            if all(isinstance(x, float) for x in v):
                return np.array(v)
            return h.arr(v)

        def make(TsGround):
            z = np.zeros(T)
            sh = [[[col('a%d' % k), z], [col('b%d' % k), z]]
                  for k in range(self.n)]
            return TsGround.from_ordered_shadows_coords(
                np.array(sh), cut_point_coords=[
                    TsPointCoords(col('C%d' % i), z)
                    for i in range(self.n)])
        with ground_as(make):
            arr = Case.array(self, h, idx, arr)
        for s in arr.all_ts_surfaces:
            for t in range(T):
                L = s.length[t]
                h.assume(h.or_(L >= 1e-6, L <= 0))
                h.pick(L >= 1e-6)
        return arr


CONCRETE = dict(zen=[20., 60., 75., 40.], saz=[90., 270., 100., 200.],
                tilt=[20., 50., 60., 0.], faz=[90., 270., 90., 90.])


def concrete(idx, n=2, cut=None, gcr=.6):
    from pvfactors.geometry.pvarray import OrderedPVArray
    arr = OrderedPVArray.init_from_dict(
        {'axis_azimuth': 0., 'gcr': gcr, 'pvrow_height': 1.5, 'n_pvrows': n,
         'pvrow_width': 2., 'cut': cut or {}})
    return arr, [np.array([CONCRETE[k][i] for i in idx])
                 for k in ('zen', 'saz', 'tilt', 'faz')]


def at(v, t):
    """value at step t of a series that may be a constant"""
    if isinstance(v, np.ndarray) and v.ndim:
        return v[t]
    return v


def same(h, name, a, b, tol=None):
    """equality that also accepts undefined values on both sides"""
    for v, w in ((a, b), (b, a)):
        if isinstance(v, (float, np.floating)) and v != v:
            if h.symbolic and not isinstance(w, (float, np.floating)):
                h.true(name + ' (undefined on one side)', False)
            else:
                h.true(name, w != w)
            return
    if isinstance(a, (float, np.floating)) \
            and isinstance(b, (float, np.floating)) \
            and (np.isinf(a) or np.isinf(b)):
        h.true(name, a == b)
        return
    h.eq(name, a, b, tol)


def geometry(h, what, arr, t, other, u):
    """step t of one array is step u of another"""
    A, B = arr.all_ts_surfaces, other.all_ts_surfaces
    h.true('%s: same surfaces' % what, len(A) == len(B)
           and [s.index for s in A] == [s.index for s in B]
           and [s.shaded for s in A] == [s.shaded for s in B])
    for a, b in zip(A, B):
        for p, q in ((a.b1, b.b1), (a.b2, b.b2)):
            same(h, '%s: surface position' % what, at(p.x, t), at(q.x, u))
            same(h, '%s: surface position' % what, at(p.y, t), at(q.y, u))
        if a.n_vector is not None and b.n_vector is not None:
            for k in (0, 1):
                same(h, '%s: surface normal' % what, a.n_vector[k, t],
                     b.n_vector[k, u])
    same(h, '%s: rotation' % what, arr.rotation_vec[t],
         other.rotation_vec[u])
    for nm in ('shaded_length_front', 'shaded_length_back'):
        same(h, '%s: %s' % (what, nm), at(getattr(arr, nm), t),
             at(getattr(other, nm), u))
    x, y = arr.has_direct_shading[t], other.has_direct_shading[u]
    h.true('%s: direct shading flag' % what,
           h.or_(h.and_(x, y), h.and_(h.not_(x), h.not_(y))))
    for k in (0, 1):
        same(h, '%s: sun vector' % what, arr.solar_2d_vectors[k][t],
             other.solar_2d_vectors[k][u])


def values(h, what, arr, t, other, u, names, tol=1e-4):
    """surface results at step t are those of another array at step u"""
    for a, b in zip(arr.all_ts_surfaces, other.all_ts_surfaces):
        for k in names:
            x, y = a.params.get(k), b.params.get(k)
            if x is None or y is None:
                h.true('%s: %s is set' % (what, k), x is None and y is None)
                continue
            same(h, '%s: %s' % (what, k), at(x, t), at(y, u), tol)
