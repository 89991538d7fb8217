"""Shared construction for the view factor checks."""
import contextlib

import numpy as np

from .geo import make_array

PROBE = dict(ite_probe=8, check_timeout=20)


@contextlib.contextmanager
def ite(h):
    if not h.symbolic:
        yield
        return
    from symx.core import CTX
    old, CTX.mode = CTX.mode, 'ite'
    try:
        yield
    finally:
        CTX.mode = old


@contextlib.contextmanager
def ground_as(make):
    """the array gets the ground built by make() instead of the one derived
    from the sun position"""
    import pvfactors.geometry.pvarray as m
    real = m.TsGround

    class Stub(object):
        @staticmethod
        def from_ts_pvrows_and_angles(*a, **k):
            return make(real)

    m.TsGround = Stub
    try:
        yield
    finally:
        m.TsGround = real


def fixture(h, n, tilt, order, sun='noon', cut=None, fix=None,
            y_ground=0, shallow=False):
    """array whose rows come from the real fit and whose ground has shadows
    at arbitrary positions in the given order, e.g. 'C0 a0 b0 C1 a1 b1':
    C cut point of a row, a / b left and right ends of a shadow"""
    from pvfactors.geometry.timeseries import TsPointCoords
    fix = dict(fix or {})
    g = make_array(h, n, tilt, sun, cut=cut, zmax=85, fit=False, hmax=5,
                   wmax=5, gcr_min=.1, tilt_min=.05 if shallow else 5,
                   tilt_max=.8 if shallow else 85, fix=fix)
    if sun != 'noon':
        # the rows shade each other by 1 cm or more
        h.assume(g.w - g.D * g.c >= 0.01)
    g.pos = {}
    g.tilt_name = tilt
    names = order.split()
    raised = not (isinstance(y_ground, int) and y_ground == 0)
    zero = h.arr([y_ground]) if raised else np.zeros(1)
    if raised:
        g.arr.y_ground = y_ground
    for k in names:
        if k[0] != 'C':
            g.pos[k] = h.real(k, -90, 90)
    for i in range(n):
        if tilt in ('flat', 'flatL'):
            g.pos['C%d' % i] = np.inf
        else:
            # where the plane of the row meets the ground
            g.pos['C%d' % i] = g.cx[i] - g.h * g.c / g.s
            if shallow:             # beyond the end of the ground
                h.assume(g.pos['C%d' % i] <= -100.5 if tilt == 'L'
                         else g.pos['C%d' % i] >= 100.5)
                continue
            h.assume(g.pos['C%d' % i] >= -90)
            h.assume(g.pos['C%d' % i] <= 90)
    for u, v in zip(names, names[1:]):
        if u[0] != 'C' and v[0] != 'C' or not shallow \
                and (u[0] != 'C' or v[0] != 'C'):
            h.assume(g.pos[v] - g.pos[u] >= 2e-6)

    def make(TsGround):
        sh = []
        for k in range(n):
            a, b = g.pos['a%d' % k], g.pos.get('b%d' % k)
            if b is None:               # shadows touch (rows shade)
                b = g.pos['a%d' % (k + 1)]
            sh.append([[h.arr([a]), zero], [h.arr([b]), zero]])
        return TsGround.from_ordered_shadows_coords(
            np.array(sh), cut_point_coords=[
                TsPointCoords(h.arr([g.pos['C%d' % i]])
                              if tilt not in ('flat', 'flatL')
                              else np.array([np.inf]),
                              zero) for i in range(n)],
            **({'y_ground': y_ground} if raised else {}))
    with ground_as(make):
        g.arr.fit(*g.args)
    g.L = lengths(h, g.arr)
    return g


def lengths(h, arr):
    """surfaces are either empty or at least a micrometer long"""
    out = []
    for s in arr.all_ts_surfaces:
        L = s.length[0]
        h.assume(h.or_(L >= 1e-6, L <= 0))
        h.pick(L >= 1e-6)
        out.append(L)
    return out


def matrix(h, g, calc=None):
    from pvfactors.viewfactors import VFCalculator
    g.calc = calc or VFCalculator()
    g.calc.fit(1)
    with ite(h):
        return g.calc.build_ts_vf_matrix(g.arr)


ORDERS = {
    1: ['C0 a0 b0', 'a0 C0 b0', 'a0 b0 C0'],
    2: ['C0 C1 a0 b0 a1 b1', 'C0 a0 b0 C1 a1 b1', 'C0 a0 C1 b0 a1 b1',
        'a0 C0 b0 a1 C1 b1', 'a0 b0 C0 C1 a1 b1', 'a0 b0 C0 a1 b1 C1',
        'a0 b0 a1 b1 C0 C1', 'a0 C0 C1 b0 a1 b1', 'C0 a0 b0 a1 C1 b1'],
    3: ['C0 a0 b0 C1 a1 b1 C2 a2 b2', 'a0 C0 b0 a1 C1 b1 a2 C2 b2',
        'a0 b0 C0 C1 a1 b1 C2 a2 b2'],
}
TOUCH = {2: ['C0 a0 C1 a1 b1', 'a0 C0 a1 C1 b1', 'C0 C1 a0 a1 b1'],
         3: ['C0 a0 C1 a1 C2 a2 b2']}
FLAT = {1: ['a0 b0'], 2: ['a0 b0 a1 b1'], 3: ['a0 b0 a1 b1 a2 b2']}


def layouts(tier, ns=(1, 2), few=3):
    """(name, kw) of the array layouts used by the view factor checks"""
    out = []
    for n in ns:
        for tilt in ('L', 'R', 'flat', 'flatL'):
            if tilt in ('flat', 'flatL'):
                todo = [(o, 'noon') for o in FLAT[n]]
            else:
                o1 = ORDERS[n]
                o2 = TOUCH.get(n, [])
                if tier == 'quick':
                    o1 = o1[1:1 + few] if n > 1 else o1
                    o2 = o2[:1]
                todo = [(o, 'noon') for o in o1] + [(o, 'normal') for o in o2]
            for o, sun in todo:
                out.append(('n%d-%s-%s-%s' % (n, tilt, sun,
                                              o.replace(' ', '')),
                            dict(n=n, tilt=tilt, order=o, sun=sun)))
    return out


def cut_layouts(tier):
    """some layouts with sides cut into segments"""
    cuts = [('L', {0: {'front': 2}, 1: {'back': 2}}),
            ('R', {0: {'back': 2}, 1: {'front': 2}})]
    if tier == 'thorough':
        cuts += [('L', {0: {'front': 3, 'back': 2}}),
                 ('R', {1: {'front': 2, 'back': 3}}),
                 ('flat', {0: {'front': 2, 'back': 2}, 1: {'back': 2}})]
    out = []
    for tilt, cut in cuts:
        o = FLAT[2][0] if tilt == 'flat' else ORDERS[2][1]
        out.append(('cut%d-n2-%s-%s' % (len(out), tilt, o.replace(' ', '')),
                    dict(n=2, tilt=tilt, order=o, sun='noon', cut=cut)))
    return out


def three_rows(tier, flat=True):
    """three rows of given width, spacing and height: any tilt and shadow
    positions"""
    todo = [('L', ORDERS[3][0], 'noon'), ('R', ORDERS[3][1], 'noon'),
            ('R', TOUCH[3][0], 'normal')]
    if flat:
        todo.append(('flat', FLAT[3][0], 'noon'))
    if tier == 'thorough':
        todo += [(t, o, 'noon') for t in 'LR' for o in ORDERS[3]]
        todo.append(('L', TOUCH[3][0], 'normal'))
    return [('three%d-%s-%s-%s' % (i, t, sun, o.replace(' ', '')),
             dict(n=3, tilt=t, order=o, sun=sun,
                  fix=dict(r=1., D=2.5 if sun == 'normal' else 4., h=1.5)))
            for i, (t, o, sun) in enumerate(todo)]


def shallow_rows(tier):
    """almost flat rows: their planes meet the ground beyond its ends"""
    fix = dict(r=1., D=4., h=1.5)
    out = []
    for t, o in (('L', 'C0 a0 b0'), ('R', 'a0 b0 C0')):
        out.append(('shallow-n1-' + t, dict(n=1, tilt=t, order=o, fix=fix,
                                            shallow=True)))
    for t, o in (('L', 'C0 C1 a0 b0 a1 b1'), ('R', 'a0 b0 a1 b1 C0 C1')):
        out.append(('shallow-n2-' + t, dict(n=2, tilt=t, order=o, fix=fix,
                                            shallow=True)))
    return out


OUTSIDE = ('Ground extents other than the default [-100, 100] m; surfaces '
           'shorter than 1e-6 m but not empty; rows lower than 1 mm above '
           'the ground; positions of cut point and shadow end closer than '
           '2e-6 m; more than 3 rows (flat ones: 2 in C12 and '
           'C13).')


def bounds_text(tier_note='1-2 rows; 3 rows of 2 m width and 1.5 m '
                'height, 4 m (2.5 m) apart'):
    return ('tilt 5-85 deg to either side, 0.05-0.8 deg for rows 2 m wide, '
            '1.5 m high and 4 m apart, and flat rows of both azimuths, '
            'row width 0.1-5 m, height up to 5 m, ground coverage 0.1-1, '
            'shadows at any position in [-90, 90] m in the listed orders '
            'relative to the cut points, rows lit from the zenith and rows '
            'shading each other (sun on the front normal); ' + tier_note)


def kinds(g):
    """what every surface index is: ('gnd',) or ('row', k, 'front'/'back')"""
    out = {}
    for s in g.arr.ts_ground.all_ts_surfaces:
        out[s.index] = ('gnd', s)
    for k, r in enumerate(g.arr.ts_pvrows):
        for nm, sd in (('front', r.front), ('back', r.back)):
            for s in sd.all_ts_surfaces:
                out[s.index] = ('row', s, k, nm)
    return out


def looks_left(tilt, side):
    """does that side of a row look at the ground on the left of the row"""
    return (tilt == 'L') == (side == 'front')


def low_left(g):
    """the lower end of a row is its left one (flat rows: they see the whole
    ground on their left, the end next to it is the right one)"""
    return bool(g.tilt_name == 'L')


def ends(h, g, s):
    """end points of a row surface: (upper, lower)"""
    p = [(s.b1.x[0], s.b1.y[0]), (s.b2.x[0], s.b2.y[0])]
    ua = p[0][0] * g.c + p[0][1] * g.s
    ub = p[1][0] * g.c + p[1][1] * g.s
    if not h.pick(ua <= ub):
        p = p[::-1]
    return (p[1], p[0]) if low_left(g) else (p[0], p[1])


def string(h, a, p, o, left):
    """shortest way from point a of a row to the ground point p around the
    lower edge o of the next row (None: nothing in the way)"""
    d = h.dist(a[0], a[1], p[0], p[1])
    if o is None:
        return d
    cr = (o[0] - p[0]) * (a[1] - p[1]) - (o[1] - p[1]) * (a[0] - p[0])
    hit = (cr > 0) if left else (cr < 0)
    return h.where(hit, h.dist(p[0], p[1], o[0], o[1])
                   + h.dist(o[0], o[1], a[0], a[1]), d)


def lower_edge(g, k):
    """lower end of row k"""
    sg = -1 if low_left(g) else 1
    return (g.cx[k] + sg * g.r * g.c, g.h + sg * g.r * g.s)


def strings_to_ground(h, g, s, k, left, p, q):
    """crossed minus uncrossed strings between a row surface and the ground
    between p and q (left and right end)"""
    hi, lo = ends(h, g, s)
    nb = k - 1 if left else k + 1
    o = lower_edge(g, nb) if 0 <= nb < g.n else None
    if not left:
        p, q = q, p
    w = (string(h, hi, q, o, left) + string(h, lo, p, o, left)
         - string(h, hi, p, o, left) - string(h, lo, q, o, left))
    return w if o is not None else h.abs(w)


def strings_between(h, s, t):
    """crossed minus uncrossed strings between two surfaces"""
    a, b = (s.b1.x[0], s.b1.y[0]), (s.b2.x[0], s.b2.y[0])
    c, d = (t.b1.x[0], t.b1.y[0]), (t.b2.x[0], t.b2.y[0])
    return h.abs(h.dist(*a, *d) + h.dist(*b, *c) - h.dist(*a, *c)
                 - h.dist(*b, *d))
