"""C18: horizon band shading of the back of the rows."""
import numpy as np

from .geo import make_array, ground_mode
from .irr import stubs, perez_values

META = {
    'bounds': '1-4 rows, any tilt (0, 89] deg to either side, any width, '
    'spacing and height, backs cut in 1-3 segments, any '
    'shaded length through the direct shading of the fitted array (sun '
    'vertical), horizon band angle any in [1, 30] deg',
    'outside': 'flat rows (their band shading is 0 or 0/0 in height '
    'difference); points within 1e-6 relative of the band edge',
    'assumptions': [],
}


def horizon(h, n, tilt, cut, row, seg):
    """surfaces of one back segment of one row"""
    from pvfactors.irradiance import HybridPerezOrdered
    band = h.angle('band', 1, 30)
    g = make_array(h, n, tilt, 'L', fit=False, cut={
        i: {'back': cut} for i in range(n)}, zmax=0)
    with ground_mode(h, 'none'):
        g.arr.fit(*g.args)
    irr = HybridPerezOrdered(horizon_band_angle=band)
    p, v = perez_values(h, 1)
    with stubs(h, perez=p, aoi=h.arr([30.]), total={'poa_global':
                                                    h.arr([0.])}):
        irr.fit([0], h.arr([0.]), h.arr([0.]), h.arr([0.]), h.arr([90.]),
                h.arr([10.]), h.arr([90.]), h.arr([.2]))
        irr.transform(g.arr)
    hor = h.force(h.abs(v['poa_horizon'][0]))
    tb = h.sind(band) / h.cosd(band)
    for i, r in enumerate(g.arr.ts_pvrows):
        if i != row:
            continue
        nb = i + 1 if tilt == 'L' else i - 1
        for k, sg in enumerate(r.back.list_segments):
            if k != seg:
                continue
            for s in sg.all_ts_surfaces:
                nm = 'shaded' if s.shaded else 'illuminated'
                pct = h.force(s.get_param('horizon_shd_pct')[0])
                h.between('shading percentage in 0-100', 0, pct, 100)
                h.eq('horizon light = unshaded part of the band',
                     h.force(s.get_param('horizon')[0]), hor * (1 - pct / 100))
                h.eq('unshaded horizon light', s.get_param(
                    'horizon_unshaded')[0], hor)
                if nb < 0 or nb >= n:
                    h.eq('edge row: nothing in front of the band', pct, 0)
                    continue
                # highest point of the row the back looks at
                tx = g.cx[nb] + g.r * g.c * (1 if tilt == 'L' else -1)
                ty = g.h + g.r * g.sa
                m = s.centroid
                dx = (tx - m.x[0]) * (1 if tilt == 'L' else -1)
                dy = ty - m.y[0]
                h.true('neighbor hides the whole band when higher than it',
                       h.or_(dy <= tb * dx * (1 + 1e-6), pct >= 100))
                th = pct * band / 100
                h.true('below the band angle: elevation / band angle',
                       h.or_(dy >= tb * dx * (1 - 1e-6),
                             h.and_(pct < 100, same(h, th, dx, dy))))
        for sg in r.front.list_segments:
            for s in sg.all_ts_surfaces:
                h.eq('front sees the whole band', s.get_param('horizon')[0],
                     hor)


def same(h, th, dx, dy):
    """th (deg) is the elevation of the vector (dx, dy), dx > 0"""
    if h.symbolic:
        return h.sind(th) * dx == h.cosd(th) * dy
    return abs(h.sind(th) * dx - h.cosd(th) * dy) <= 1e-6 * (dx + abs(dy))


def scenarios(tier):
    out = []
    for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
        for tilt in ('L', 'R'):
            for cut in ((1, 2) if tier == 'quick' else (1, 2, 3)):
                for i in range(n):
                    if n == 3 and tier == 'quick' and (
                            i != 1 or cut == 2 and tilt == 'R'):
                        continue
                    for k in range(cut):
                        out.append({
                            'name': 'n%d-%s-row%d-seg%dof%d' % (n, tilt, i,
                                                                k, cut),
                            'fn': horizon,
                            'kw': dict(n=n, tilt=tilt, cut=cut, row=i,
                                       seg=k),
                            'opts': dict(mode='ite', check_timeout=25)})
    return out
