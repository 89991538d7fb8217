"""C01: placement and orientation of the rows, sun vector in the 2D plane."""
from .geo import ground_mode

META = {
    'bounds': '1-4, 6 and 8 rows; row width 0.1-10 m, gcr 0.05-1, height 0.05-10 m, '
    'tilt [0, 90] deg, axis azimuth [-360, 720] deg, surface azimuth = axis '
    '+-90 deg modulo full turns (and any azimuth strictly on one side of the '
    'axis), solar zenith [0, 180], any solar azimuth',
    'outside': 'floating point round-off',
    'assumptions': ['pvlib cosd/sind are executed symbolically as cos/sin of '
                    'the angle in degrees'],
}


def place(h, n, side, turns, flat, cutf, cutb):
    import numpy as np
    from pvfactors.geometry.pvarray import OrderedPVArray
    r = h.real('r', 0.05, 5)
    D = h.real('D', 0.1, 200)
    hh = h.real('h', 0.05, 10)
    w = 2 * r
    h.assume(w <= D)
    axis = h.angle('axis', -360, 720)
    saz = axis + (90 if side == 'R' else -90) + 360 * turns
    if flat:
        t = np.array([0.])
        ct, st = 1, 0
    else:
        tilt = h.angle('tilt', 0, 90, strict=True)
        t = h.arr([tilt])
        ct, st = h.cosd(tilt), h.sind(tilt)
    zen = h.angle('zen', 0, 89)
    saz_sun = h.angle('sun', -360, 720)
    cut = {0: {'front': cutf, 'back': cutb},
           n - 1: {'front': cutf, 'back': cutb}}
    arr = OrderedPVArray.init_from_dict(
        {'axis_azimuth': axis, 'gcr': w / D, 'pvrow_height': hh,
         'n_pvrows': n, 'pvrow_width': w, 'cut': cut}, param_names=['q'])
    with ground_mode(h, 'none'):
        arr.fit(h.arr([zen]), h.arr([saz_sun]), t, h.arr([saz]))
    # sun vector: projection on the plane normal to the axis
    sv = arr.solar_2d_vectors
    h.eq('sun x', sv[0][0], h.sind(zen) * h.sind(saz_sun - axis))
    h.eq('sun y', sv[1][0], h.cosd(zen))
    # outward normal of the front: (sin(tilt) * sin(saz - axis), cos(tilt))
    nx = st if side == 'R' else -st
    ny = ct
    h.true('number of rows', len(arr.ts_pvrows) == n)
    for k, row in enumerate(arr.ts_pvrows):
        cx = k * D
        b1, b2 = row.full_pvrow_coords.b1, row.full_pvrow_coords.b2
        h.eq('row %d centre x' % k, (b1.x[0] + b2.x[0]) / 2, cx)
        h.eq('row %d centre y' % k, (b1.y[0] + b2.y[0]) / 2, hh)
        dx, dy = b2.x[0] - b1.x[0], b2.y[0] - b1.y[0]
        h.eq('row %d width' % k, dx * dx + dy * dy, w * w)
        h.eq('row %d along the panel plane' % k, dx * nx + dy * ny, 0)
        h.eq('row %d centroid x' % k, row.centroid.x[0], cx)
        h.eq('row %d centroid y' % k, row.centroid.y[0], hh)
        if n == 1:
            h.eq('row %d length (both sides)' % k, row.length[0], 2 * w)
        lo, hi = hh - r * st, hh + r * st
        h.eq('row %d highest' % k, row.highest_point.y[0], hi)
        h.eq('row %d lowest' % k, h.min(b1.y[0], b2.y[0]), lo)
        for nm, sd, sgn in (('front', row.front, 1), ('back', row.back, -1)):
            for seg in sd.list_segments:
                for s in seg.all_ts_surfaces:
                    vx, vy = s.n_vector[0][0], s.n_vector[1][0]
                    h.eq('row %d %s normal direction' % (k, nm),
                         vx * ny - vy * nx, 0)
                    h.le('row %d %s normal orientation' % (k, nm),
                         0.01, sgn * (vx * nx + vy * ny))
                    # on the row line
                    for p in (s.b1, s.b2) if n == 1 else ():
                        h.eq('row %d %s surface on the row plane' % (k, nm),
                             (p.x[0] - cx) * nx + (p.y[0] - hh) * ny, 0)
    if not flat:
        # the rotation angle is the tilt, signed
        h.eq('rotation', arr.rotation_vec[0],
             -t[0] if side == 'R' else t[0])
    else:
        h.eq('rotation', arr.rotation_vec[0], 0)


def side_of_axis(h, side, turns):
    """any surface azimuth on one side of the axis points to that side"""
    import numpy as np
    from pvfactors.geometry.base import _get_rotation_from_tilt_azimuth
    axis = h.real('axis', -360, 720)
    d = h.real('d', 0.001, 179.999)
    tilt = h.real('tilt', 0, 90)
    saz = axis + (d if side == 'R' else -d) + 360 * turns
    rot = _get_rotation_from_tilt_azimuth(h.arr([saz]), axis, h.arr([tilt]))
    h.eq('rotation sign', rot[0], -tilt if side == 'R' else tilt)


def scenarios(tier):
    out = []
    for n in ((1, 3) if tier == 'quick' else (1, 2, 3, 4)):
        for side in ('L', 'R'):
            for turns in ((0, 1) if tier == 'quick' else (-2, -1, 0, 1, 2)):
                for flat in (False, True):
                    out.append({
                        'name': 'place-n%d-%s-turn%d-%s' % (
                            n, side, turns, 'flat' if flat else 'tilted'),
                        'fn': place,
                        'kw': dict(n=n, side=side, turns=turns, flat=flat,
                                   cutf=2, cutb=1),
                        'opts': dict(check_timeout=20, mode='ite')})
    for n, side in ((6, 'L'), (8, 'R')):
        out.append({'name': 'many-n%d-%s' % (n, side), 'fn': place,
                    'kw': dict(n=n, side=side, turns=0, flat=False,
                               cutf=1, cutb=5),
                    'opts': dict(check_timeout=20, mode='ite')})
    for side in ('L', 'R'):
        for turns in ((-1, 0, 1) if tier == 'quick' else range(-3, 4)):
            out.append({'name': 'side-%s-%d' % (side, turns),
                        'fn': side_of_axis,
                        'kw': dict(side=side, turns=turns)})
    return out
