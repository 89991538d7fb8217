"""C26: raising the ground and the rows with it changes no result."""
import math

from .geo import make_array, ground_mode
from .vf import ORDERS, TOUCH, FLAT, PROBE, fixture, ite, matrix

META = {
    'bounds': 'any height of the ground from -50 to 50 m; rows and shadows of '
    '1-2 rows of any width, spacing, height above the ground and tilt (0, 85] '
    'deg to either side or flat, sun up to 85 deg on either side (geometry) '
    'and any positions of the shadows in the listed orders (view factors, '
    'full and fast mode; with absorption in C14)',
    'outside': 'the height of an array that was fitted before the ground was '
    'raised',
    'assumptions': ['the ground is raised through the attribute y_ground of '
                    'the array, before the array is fitted'],
}


def coords(s):
    return ((s.b1.x[0], s.b1.y[0]), (s.b2.x[0], s.b2.y[0]))


def same_geometry(h, a, b, d, length=True):
    sa, sb = a.all_ts_surfaces, b.all_ts_surfaces
    h.true('same surfaces', len(sa) == len(sb)
           and [s.shaded for s in sa] == [s.shaded for s in sb]
           and [s.index for s in sa] == [s.index for s in sb])
    for s, t in zip(sa, sb):
        for (x0, y0), (x1, y1) in zip(coords(s), coords(t)):
            h.eq('same place along the ground', x1, x0)
            h.eq('height above the ground', y1 - d, y0)
        n0, n1 = s.n_vector, t.n_vector
        if n0 is None or n1 is None:
            h.true('normal of the same surfaces', n0 is None and n1 is None)
            continue
        if length:          # else: follows from the end points
            h.eq('same length', t.length[0], s.length[0])
        for k in (0, 1):
            h.eq('same normal', n1[k][0], n0[k][0])
    for r, q in zip(a.ts_pvrows, b.ts_pvrows):
        h.eq('highest point of a row', q.highest_point.y[0] - d,
             r.highest_point.y[0])
        h.eq('highest point of a row', q.highest_point.x[0],
             r.highest_point.x[0])
        h.eq('centre of a row', q.centroid.y[0] - d, r.centroid.y[0])
    for c, e in zip(a.ts_ground.cut_point_coords, b.ts_ground.cut_point_coords):
        if isinstance(c.x[0], float) and math.isinf(c.x[0]):
            h.true('cut point at infinity', math.isinf(e.x[0]))
            continue
        h.eq('same cut point', e.x[0], c.x[0])


def geometry(h, n, tilt, sun):
    d = h.real('ground', -50, 50)
    g = [make_array(h, n, tilt, sun, cut={0: {'front': 2}}, fit=False,
                    zmax=85, tilt_max=85, hmax=5, wmax=5) for _ in (0, 1)]
    h.assume(h.or_(g[0].cross >= 0.01, g[0].cross <= -0.01))
    g[1].arr.y_ground = d
    for x in g:
        with ground_mode(h, 'ite'):
            x.arr.fit(*x.args)
    same_geometry(h, g[0].arr, g[1].arr, d, length=n == 1)


def view(h, fast, **kw):
    from pvfactors.viewfactors import VFCalculator
    d = h.real('ground', -50, 50)
    g = [fixture(h, **kw), fixture(h, y_ground=d, **kw)]
    same_geometry(h, g[0].arr, g[1].arr, d)
    if fast is not None:
        seg = [x.arr.ts_pvrows[fast].back.list_segments[0] for x in g]
        out = []
        for x, sg in zip(g, seg):
            with ite(h):
                out.append(VFCalculator().get_vf_ts_pvrow_element(
                    fast, sg, x.arr.ts_pvrows, x.arr.ts_ground,
                    x.arr.rotation_vec, x.arr.width))
        h.true('same view factors given', sorted(out[0]) == sorted(out[1]))
        for k in out[0]:
            h.eq('fast mode view factor %s' % k, out[1][k][0], out[0][k][0])
        return
    m = [matrix(h, x) for x in g]
    for i in range(m[0].shape[0]):
        for j in range(m[0].shape[1]):
            h.eq('view factor', m[1][i, j, 0], m[0][i, j, 0])


def scenarios(tier):
    out = []
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for tilt in ('L', 'R', 'flat'):
            for sun in ('L', 'R'):
                out.append({'name': 'place-n%d-%s-sun%s' % (n, tilt, sun),
                            'fn': geometry,
                            'kw': dict(n=n, tilt=tilt, sun=sun),
                            'opts': dict(mode='ite')})
    lay = [('L', ORDERS[2][1], 'noon'), ('R', ORDERS[2][3], 'noon'),
           ('L', TOUCH[2][0], 'normal'), ('flat', FLAT[2][0], 'noon')]
    if tier == 'thorough':
        lay += [(a, o, 'noon') for a in 'LR' for o in ORDERS[2]]
        lay += [('R', o, 'normal') for o in TOUCH[2]]
    for i, (tilt, order, sun) in enumerate(lay):
        kw = dict(n=2, tilt=tilt, order=order, sun=sun)
        for nm, fast in (('full', None), ('fast0', 0), ('fast1', 1)):
            out.append({'name': '%s-%d-%s-%s' % (nm, i, tilt,
                                                 order.replace(' ', '')),
                        'fn': view, 'kw': dict(kw, fast=fast),
                        'opts': PROBE})
    return out
