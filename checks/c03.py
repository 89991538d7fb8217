"""C03: direct shading between rows is what ray casting to the sun gives."""
from .geo import make_array, ground_mode, along, ray_hits_row

META = {
    'bounds': '2-4 rows, 1 time step; row width 0.1-10 m, gcr 0.05-1, row '
    'height up to 10 m (rows above ground), tilt (0, 89] deg to either side '
    'and flat, solar zenith [0, 89] deg on either side, up '
    'to 89.98 deg for 2 rows lit on the front or 2 m wide and 5 m apart; '
    'sun at least ~0.6 deg out of the plane of the rows; arbitrary point of '
    'each row side; 1 or 2 segments per side',
    'outside': 'points closer than 1e-4 m to a shadow edge',
    'assumptions': ['solar vector lies in the array cross section (other '
                    'azimuths reduce to it through C01)',
                    'the ground is left out of the symbolic run (row sides '
                    'do not depend on it); replays use the full code'],
}


def shading(h, n, tilt, sun, row, cutn, lit, zmax=89, fix=None):
    cut = {row: {'front': cutn, 'back': cutn}} if cutn > 1 else {}
    g = make_array(h, n, tilt, sun, cut, fit=False,
                   zmax=zmax, fix=fix)
    if lit == 'front':
        h.assume(g.cross > 0)
        h.assume(g.cross >= 0.01)
    else:
        h.assume(g.cross < 0)
        h.assume(-g.cross >= 0.01)
    with ground_mode(h, 'none'):
        g.arr.fit(*g.args)
    u = h.real('u', -5, 5)                 # position on the row
    h.assume(u <= g.r)
    h.assume(-u <= g.r)
    front = lit == 'front'
    ts = g.arr.ts_pvrows[row]
    m = 1e-4
    hit_loose = h.or_(*[ray_hits_row(h, g, row, u, j, m, front)
                        for j in range(n) if j != row])
    hit_tight = h.or_(*[ray_hits_row(h, g, row, u, j, -m, front)
                        for j in range(n) if j != row])
    side = ts.front if front else ts.back
    other = ts.back if front else ts.front
    e = 1e-5
    for seg in side.list_segments:
        for coll in (seg.illum, seg.shaded):
            for k, s in enumerate(coll.list_ts_surfaces):
                a = along(g, row, s.b1.x[0], s.b1.y[0])
                b = along(g, row, s.b2.x[0], s.b2.y[0])
                inn = h.or_(h.and_(a + e < u, u + e < b),
                            h.and_(b + e < u, u + e < a))
                if s.shaded:
                    h.true('lit side: shaded point has a row in its ray '
                           '(seg %d)' % seg.index,
                           h.or_(h.not_(inn), hit_loose))
                else:
                    h.true('lit side: illuminated point sees the sun '
                           '(seg %d)' % seg.index,
                           h.or_(h.not_(inn), h.not_(hit_tight)))


def flat(h, n, sun, row):
    """horizontal rows never shade each other"""
    g = make_array(h, n, 'flat', sun, {}, ground='none')
    ts = g.arr.ts_pvrows[row]
    for nm, side in (('front', ts.front), ('back', ts.back)):
        h.eq('flat rows: no shade (%s)' % nm, side.shaded_length[0], 0)


def scenarios(tier):
    out = []
    for n in ((2, 3) if tier == 'quick' else (2, 3, 4)):
        for tilt in ('L', 'R'):
            for sun in ('L', 'R'):
                for row in range(n):
                    if tier == 'quick' and n == 3 and row != 1:
                        continue
                    for cutn in ((1, 2) if n == 2 or tier != 'quick'
                                 else (1,)):
                        for lit in ('front', 'back'):
                            if lit == 'back' and tilt != sun:
                                pass
                            if lit == 'back' and tilt == sun:
                                continue      # impossible
                            out.append({
                                'name': 'n%d-tilt%s-sun%s-row%d-cut%d-%s' % (
                                    n, tilt, sun, row, cutn, lit),
                                'fn': shading,
                                'kw': dict(n=n, tilt=tilt, sun=sun, row=row,
                                           cutn=cutn, lit=lit,
                                           zmax=89.98 if n == 2 and
                                           lit == 'front' else 89),
                                'opts': dict(check_timeout=20)})
    for tilt, sun, row in (('L', 'R', 0), ('R', 'L', 1)):
        out.append({'name': 'low-tilt%s-sun%s-row%d' % (tilt, sun, row),
                    'fn': shading,
                    'kw': dict(n=2, tilt=tilt, sun=sun, row=row, cutn=1,
                               lit='back', zmax=89.98,
                               fix=dict(r=1.0, D=5.0)),
                    'opts': dict(check_timeout=20)})
    for sun in ('L', 'R'):
        for row in (0, 1):
            out.append({'name': 'flat-sun%s-row%d' % (sun, row), 'fn': flat,
                        'kw': dict(n=2, sun=sun, row=row)})
    return out
