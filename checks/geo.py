"""Shared construction of symbolic PV arrays."""


class Geo(object):
    pass


class _NoGround(object):
    """stand-in for the ground while the row sides are analysed"""
    all_ts_surfaces = []
    n_ts_surfaces = 0
    shadow_elements = []
    illum_elements = []

    @classmethod
    def from_ts_pvrows_and_angles(cls, *a, **k):
        return cls()

    def __getattr__(self, name):
        if name.startswith('update_'):
            return lambda *a, **k: None
        raise AttributeError(name)


class _IteGround(object):
    """the real ground class, executed with if-then-else values instead of
    path forking"""

    def __init__(self, real):
        self.__dict__['_r'] = real

    def __getattr__(self, name):
        v = getattr(self._r, name)
        if not callable(v):
            return v

        def call(*a, **k):
            from symx.core import CTX
            old, CTX.mode = CTX.mode, 'ite'
            try:
                return v(*a, **k)
            finally:
                CTX.mode = old
        return call


class ground_mode(object):
    """mode: 'fork' (nothing done), 'ite', 'none'; symbolic runs only"""

    def __init__(self, h, mode):
        self.active = h.symbolic and mode != 'fork'
        self.mode = mode

    def __enter__(self):
        if self.active:
            import pvfactors.geometry.pvarray as m
            self.m = m
            self.old = m.__dict__.get('TsGround')
            if self.old is not None:
                m.TsGround = _NoGround if self.mode == 'none' \
                    else _IteGround(self.old)

    def __exit__(self, *a):
        if self.active and self.old is not None:
            self.m.TsGround = self.old


def make_array(h, n, tilt='L', sun='L', cut=None, wmax=10, hmax=10,
               gcr_min=0.05, zmax=89, fit=True, param_names=None, clear=0.001,
               fix=None, tilt_max=89, ground='fork', tilt_min=0):
    """OrderedPVArray fitted through its public API with symbolic
    parameters.

    tilt: 'L' rotation > 0 (front side faces left), 'R' rotation < 0,
          'flat' rotation 0
    sun : 'L' / 'R' side of the sun in the array cross section (zenith
          included in both)
    """
    import numpy as np
    from pvfactors.geometry.pvarray import OrderedPVArray
    fix = fix or {}
    g = Geo()
    g.n = n
    g.r = fix['r'] if 'r' in fix else h.real('r', 0.05, wmax / 2.)
    g.w = 2 * g.r
    if n > 1:
        g.D = fix['D'] if 'D' in fix else h.real('D', 0.1, wmax / gcr_min)
        h.assume(g.w <= g.D)
        h.assume(g.D * gcr_min <= g.w)
    else:
        g.D = 4 * g.r
    g.gcr = g.w / g.D
    g.h = fix['h'] if 'h' in fix else h.real('h', 0.05, hmax)
    if tilt in ('flat', 'flatL'):
        g.tilt = 0.
        t = np.array([0.])
        g.c, g.s = 1, 0
        surf_az = 270. if tilt == 'flatL' else 90.
    else:
        g.tilt = h.angle('tilt', tilt_min, tilt_max, strict=True)
        t = h.arr([g.tilt])
        g.c = h.cosd(g.tilt)
        g.s = h.sind(g.tilt)
        if tilt == 'R':
            g.s = -g.s
        surf_az = 270. if tilt == 'L' else 90.
    g.sa = g.s if tilt == 'L' else -g.s
    if sun == 'noon':
        g.zen, g.Y, g.X = 0., 1, 0
    elif sun == 'normal':
        # on the normal of the front side
        g.zen, g.Y, g.X = g.tilt, g.c, -g.s
        sun = tilt
    else:
        g.zen = h.angle('zen', 0, zmax)
        g.Y = h.cosd(g.zen)
        g.X = h.sind(g.zen)
    if sun == 'L':
        g.X = -g.X
    # the lower edge stays above the ground
    h.assume(g.h - g.r * g.sa >= clear)
    g.rot = g.tilt if tilt == 'L' else -g.tilt
    params = {'axis_azimuth': 0., 'gcr': g.gcr, 'pvrow_height': g.h,
              'n_pvrows': n, 'pvrow_width': g.w, 'cut': cut or {}}
    g.arr = OrderedPVArray.init_from_dict(params, param_names=param_names)
    g.args = (h.arr([g.zen]), np.array([270. if sun == 'L' else 90.]), t,
              np.array([surf_az]))
    g.cx = [i * g.D for i in range(n)]
    g.cross = g.c * g.Y - g.s * g.X          # > 0: sun on the front side
    if fit:
        with ground_mode(h, ground):
            g.arr.fit(*g.args)
    return g


def along(g, i, px, py):
    """coordinate of a point along row i, measured from the row centre in the
    direction of the rotation vector (c, s)"""
    return (px - g.cx[i]) * g.c + (py - g.h) * g.s


def across(g, i, px, py):
    return -(px - g.cx[i]) * g.s + (py - g.h) * g.c


def ray_hits_row(h, g, i, u, j, margin=0, lit=True):
    """does the ray from the point at coordinate u of row i towards the sun
    hit row j (j != i)?  Solved from the ray / segment intersection; the row
    is enlarged by ``margin`` on both ends.  lit: sun on the front side."""
    k = (j - i) * g.D
    # u*(c,s) + lam*(X,Y) = (k,0) + v*(c,s)
    #   lam * cross = -s*k          with cross = cY - sX
    #   (u - v) * cross = k*Y
    lam_num = -g.s * k
    pos = (lam_num > 0) if lit else (lam_num < 0)
    cr = g.cross if lit else -g.cross
    a = (u * g.cross - k * g.Y) * (1 if lit else -1)     # v * |cross|
    lim = (g.r + margin) * cr
    return h.and_(pos, a <= lim, -lim <= a)
