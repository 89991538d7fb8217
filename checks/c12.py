"""C12: view factors are those of the crossed strings around the rows."""
from .geo import make_array
from .vf import (bounds_text, OUTSIDE, cut_layouts, three_rows, shallow_rows, fixture,
                 matrix, layouts, ite, PROBE, kinds, looks_left,
                 strings_to_ground, strings_between)

ASSUME = ['the shadow positions are free variables; which positions a '
          'sun position gives is decided by C05']

META = {
    'bounds': bounds_text(),
    'outside': OUTSIDE,
    'assumptions': ASSUME,
}


def factors(h, **kw):
    g = fixture(h, **kw)
    vf = matrix(h, g)
    n = len(g.L)
    what = kinds(g)
    tilt = kw['tilt']
    h.true('every surface has its own index',
           sorted(what) == list(range(n)))
    long_ = [h.pick(L >= 1e-6) for L in g.L]
    with ite(h):
        for i in range(n):
            a = what[i]
            for j in range(n):
                b = what[j]
                if a[0] == 'gnd':
                    if b[0] == 'gnd':
                        h.eq('ground does not see itself', vf[i, j, 0], 0)
                    continue
                F = vf[i, j, 0]
                if not long_[i] or not long_[j]:
                    h.eq('nothing to or from empty surfaces', F, 0)
                    continue
                left = looks_left(tilt, a[3])
                if b[0] == 'gnd':
                    s = b[1]
                    mid = s.b1.x[0]
                    c = g.pos['C%d' % a[2]]
                    on = h.pick(s.b2.x[0] <= c) if left \
                        else h.pick(s.b1.x[0] >= c)
                    if not on:
                        h.eq('ground behind the surface is not seen', F, 0)
                        continue
                    w = strings_to_ground(
                        h, g, a[1], a[2], left, (s.b1.x[0], 0),
                        (s.b2.x[0], 0))
                    h.eq('row to ground = crossed strings', 2 * g.L[i] * F, w)
                else:
                    nb = a[2] - 1 if left else a[2] + 1
                    if b[2] != nb or b[3] == a[3]:
                        h.eq('only the facing side of the next row is seen',
                             F, 0)
                        continue
                    h.eq('row to row = crossed strings', 2 * g.L[i] * F,
                         strings_between(h, a[1], b[1]))


def blocked(h, left):
    """the sign used for the string around the next row is right: the way
    from a point of a row to a ground point it can see crosses the next row
    exactly when the row point is on the far side of the line through the
    ground point and the lower edge of that row.  Coordinates along (v) and
    across (e) the next row, whose centre is the origin."""
    c, s = h.real('c', 0.05, 1), h.real('s', 0.05, 1)
    h.assume(h.and_(c * c + s * s <= 1, c * c + s * s >= 1))
    r = h.real('r', 0.05, 2.5)
    D = h.real('D', 0.1, 50)
    H = h.real('H', 0.06, 5)
    u = h.real('u', -1, 1) * r
    h.assume(D >= 2 * r)
    h.assume(H - r * s >= 0.001)
    x = h.real('x', -90, 90)
    # rows tilted to the left, next row on the left; the mirror image gives
    # the right
    k = 1 if left else -1
    # row point: row centre at D, ground point seen: left of the own plane
    ev, ee = D * c + u, -D * s
    pv, pe = x * c - H * s, -x * s - H * c
    seen = (pe - ee)
    h.assume(seen >= 1e-4)
    # cross product used by the oracle, in cartesian coordinates
    ax, ay = k * (D + u * c), H + u * s
    ox, oy = k * (-r * c), H - r * s
    px = k * x
    cr = (ox - px) * ay - oy * (ax - px)
    hit = k * cr
    # crossing with the line of the next row: v * seen, for 0 < t < 1
    v = ev * pe - pv * ee
    e = 1e-6
    h.eq('cross product is the position of the crossing', hit, v + r * seen)
    # the crossing is between both points when the ground point is in front
    # of the next row (pe > 0)
    h.implies_le('blocked: the crossing is between the points',
                 h.and_(hit >= 1e-4), 0, pe, 1e-5)
    h.implies_le('blocked: the crossing is below the upper edge',
                 h.and_(hit >= 1e-4), v, r * seen, 1e-4)


def scenarios(tier):
    return [{'name': nm, 'fn': factors, 'kw': kw, 'opts': PROBE}
            for nm, kw in layouts(tier) + cut_layouts(tier)
            + three_rows(tier, False) + shallow_rows(tier)] + [
        {'name': 'strings-%s' % ('left' if lf else 'right'), 'fn': blocked,
         'kw': {'left': lf}, 'opts': {'check_timeout': 60}}
        for lf in (True, False)]
