"""C06: cut points and the ground zones seen by each side of a row."""
from .geo import make_array, ground_mode
from .c04 import build, far

META = {
    'bounds': 'zones: 1-3 shadow elements and 1-3 cut points anywhere in '
    '[-1000, 1000] m; cut point location: 1-3 rows with the parameters of '
    'C05 (tilt up to 89 deg and flat)',
    'outside': 'test points closer than 1e-3 m to a surface boundary',
    'assumptions': ['shadows and cut points ordered left to right'],
}


def zones(h, n, m, overlap):
    g, ls, rs, cs, yg, xmin, xmax = build(h, n, m, overlap)
    x = h.real('x', xmin, xmax)
    far(h, x, ls + rs + cs + [xmin, xmax], 1e-3)
    for i in range(m):
        left = g.ts_surfaces_side_of_cut_point('left', i)
        right = g.ts_surfaces_side_of_cut_point('right', i)
        ids = [id(s) for s in left + right]
        h.true('zones %d: each surface on one side' % i,
               len(set(ids)) == len(ids)
               and set(ids) == set(id(s) for s in g.all_ts_surfaces))
        cc = h.min(h.max(cs[i], xmin), xmax)
        for nm, lst in (('left', left), ('right', right)):
            tot = 0
            for k, s in enumerate(lst):
                tot = tot + s.length[0]
                for p in (s.b1, s.b2):
                    # zero length surfaces have no side
                    if nm == 'left':
                        h.implies_le('zone %d left: surface %d' % (i, k),
                                     s.length[0] > 0, p.x[0], cc)
                    else:
                        h.implies_le('zone %d right: surface %d' % (i, k),
                                     s.length[0] > 0, cc, p.x[0])
            h.eq('zone %d %s: length' % (i, nm), tot,
                 cc - xmin if nm == 'left' else xmax - cc)
        sl = g.shadow_coords_left_of_cut_point(i)
        sr = g.shadow_coords_right_of_cut_point(i)
        for k, el in enumerate(g.shadow_elements):
            a, b = el.b1.x[0], el.b2.x[0]
            for nm, co in (('left', sl[k]), ('right', sr[k])):
                e1, e2 = co.b1.x[0], co.b2.x[0]
                inn = h.and_(e1 < x, x < e2)
                side = (x < cc) if nm == 'left' else (x > cc)
                want = h.and_(a < x, x < b, side)
                h.eq('zone %d: shadow %d %s of the cut point' % (i, k, nm),
                     h.where(inn, 1, 0), h.where(want, 1, 0))
                h.eq('zone %d: shadow %d stays on the ground' % (i, k),
                     co.b1.y[0], yg)


def cut_point(h, n, tilt):
    g = make_array(h, n, tilt, 'L', fit=False, zmax=0 if tilt == 'L' else 0)
    with ground_mode(h, 'ite'):
        g.arr.fit(*g.args)
    pts = g.arr.ts_ground.cut_point_coords
    h.true('one cut point per row', len(pts) == n)
    for i, p in enumerate(pts):
        px, py = p.x[0], p.y[0]
        if tilt in ('flat', 'flatL'):
            # everything is on the side that the back looks at
            h.true('flat rows: the whole ground is below the back',
                   float(px) >= 100)
        else:
            h.eq('cut point %d on the ground' % i, py, 0)
            # on the line of the row: normal . (p - centre) = 0
            h.eq('cut point %d on the plane of the row' % i,
                 -(px - g.cx[i]) * g.s + (py - g.h) * g.c, 0)


def scenarios(tier):
    out = []
    top = 2 if tier == 'quick' else 3
    for n in range(1, top + 1):
        for m in range(1, top + 1):
            for ov in ('false', 'true'):
                if ov == 'true' and n == 1:
                    continue
                out.append({'name': 'zones-n%d-m%d-%s' % (n, m, ov),
                            'fn': zones, 'kw': dict(n=n, m=m, overlap=ov),
                            'opts': dict(mode='ite', check_timeout=60)})
    for n in range(1, top + 2):
        for tilt in ('L', 'R', 'flat', 'flatL'):
            out.append({'name': 'cutpt-n%d-%s' % (n, tilt), 'fn': cut_point,
                        'kw': dict(n=n, tilt=tilt)})
    return out
