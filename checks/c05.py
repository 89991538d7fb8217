"""C05: ground shadows are the sun projection of the rows."""
from .geo import make_array, ground_mode

META = {
    'bounds': '1-3 rows, 4 with the sun on the left, 1 time step; row width '
    '0.1-10 m, gcr 0.05-1, height '
    'up to 10 m with the rows above the ground, tilt (0, 89] deg to either '
    'side and flat, solar zenith [0, 85] deg on either side (up to 89.98 deg '
    'for 1-2 rows 2 m wide, 1.5 m high and 5 m apart), sun ~0.6 deg out '
    'of the plane of the rows; arbitrary ground point in the ground extent',
    'outside': 'ground points closer than 1e-4 m to a shadow edge',
    'assumptions': ['solar vector lies in the array cross section (other '
                    'azimuths reduce to it through C01)'],
}


def shadows(h, n, tilt, sun, lit, zmax=85, fix=None):
    from pvfactors.config import MIN_X_GROUND, MAX_X_GROUND
    g = make_array(h, n, tilt, sun, fit=False, zmax=zmax, fix=fix)
    if lit == 'front':
        h.assume(g.cross > 0)
        h.assume(g.cross >= 0.01)
    else:
        h.assume(g.cross < 0)
        h.assume(-g.cross >= 0.01)
    with ground_mode(h, 'ite'):
        g.arr.fit(*g.args)
    x = h.real('x', MIN_X_GROUND, MAX_X_GROUND)
    e, m = 1e-5, 1e-4
    # where does the ray from (x, 0) to the sun cross the row line j?
    # (x + lam X, lam Y) = (cx_j + v c, h + v s)
    # v * cross = (x - cx_j) Y + h X
    cr = g.cross if lit == 'front' else -g.cross
    sg = 1 if lit == 'front' else -1
    loose, tight = [], []
    for j in range(n):
        v = ((x - g.cx[j]) * g.Y + g.h * g.X) * sg
        loose.append(h.and_(v <= (g.r + m) * cr, -(g.r + m) * cr <= v))
        tight.append(h.and_(v <= (g.r - m) * cr, -(g.r - m) * cr <= v))
    grd = g.arr.ts_ground
    inside = []
    ends = []
    for k, el in enumerate(grd.shadow_elements):
        a, b = h.force(el.b1.x[0]), h.force(el.b2.x[0])
        ends.append((a, b))
        inn = h.and_(a + e < x, x + e < b)
        h.true('shaded ground has a row in its ray (%d)' % k,
               h.or_(h.not_(inn), *loose))
        inside.append(h.and_(a - e <= x, x <= b + e))
    h.true('ground with a row in its ray is shaded',
           h.or_(h.not_(h.or_(*tight)), *inside))
    for k in range(len(grd.shadow_elements) - 1):
        h.le('shadows do not overlap (%d)' % k,
             ends[k][1], ends[k + 1][0])


def scenarios(tier):
    out = []
    for n in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)):
        for tilt in ('L', 'R', 'flat'):
            for sun in ('L', 'R'):
                for lit in ('front', 'back'):
                    if lit == 'back' and (tilt == sun or tilt == 'flat'):
                        continue
                    if n > (3 if tier == 'quick' else 4) and (
                            tilt, sun, lit) not in (
                            ('L', 'L', 'front'), ('R', 'L', 'front'),
                            ('R', 'L', 'back'), ('flat', 'L', 'front')):
                        continue              # the others take minutes
                    out.append({
                        'name': 'n%d-tilt%s-sun%s-%s' % (n, tilt, sun, lit),
                        'fn': shadows,
                        'kw': dict(n=n, tilt=tilt, sun=sun, lit=lit),
                        'opts': dict(check_timeout=30)})
    for n in (1, 2):
        for tilt in ('L', 'R', 'flat'):
            for lit in ('front', 'back'):
                if tilt != 'R' and lit == 'back':
                    continue
                out.append({'name': 'low-n%d-tilt%s-%s' % (n, tilt, lit),
                            'fn': shadows,
                            'kw': dict(n=n, tilt=tilt, sun='L', lit=lit,
                                       zmax=89.98,
                                       fix=dict(r=1.0, D=5.0, h=1.5)),
                            'opts': dict(check_timeout=30)})
    return out
