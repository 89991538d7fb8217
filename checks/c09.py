"""C09: shadows, cuts and projections on instant geometry follow the sets of
points of a straight line."""
import itertools
import math

import numpy as np

SHAPELY = True
META = {
    'bounds': 'lines of any position and length in fixed directions '
    '(horizontal, vertical, up, down, either orientation); every order and '
    'coincidence of the ends of two lines for the difference; sequences of '
    '1-3 shadows and cut points at arbitrary places of a segment or of a side '
    'of 1-4 segments; projections along arbitrary vectors (not to an end of the line exactly); rows of any '
    'centre, width and tilt with 1-4 segments per side',
    'outside': 'places closer than 1e-5 m to each other without being equal '
    '(the code has a tolerance of 1e-8 m); shadows that are not on the line '
    'of the side',
    'assumptions': ['shapely is replaced by a stand-in with its semantics in '
                    'symbolic runs; replays use the real library'],
}
TOL = 1e-6
GAP = 1e-5
DIRS = {'h': (1., 0.), 'v': (0., 1.), 'up': (.6, .8), 'down': (.8, -.6),
        'left': (-1., 0.), 'back': (-.8, .6)}


class Line(object):
    """an oriented line; places along it by name"""

    def __init__(self, h, d, order, lo=-20, hi=20):
        self.h = h
        self.d = DIRS[d]
        self.o = (h.real('ox', -50, 50), h.real('oy', -50, 50))
        self.t = {}
        last = None
        grid = [p for p in order.replace('=', ' ').split() if p[0] == 'g']
        if grid:
            # segments of the same length between e1 and e2
            a, w = h.real('e1', lo, hi), h.real('w', GAP, hi - lo)
            for k in range(len(grid) + 2):
                self.t['e2' if k > len(grid) else 'g%d' % k] = a + k * w
            self.t['e1'] = self.t.pop('g0')
        for p in order.split():
            x = [self.t[k] for k in p.split('=') if k in self.t]
            x = x[0] if x else h.real(p.split('=')[0], lo, hi)
            if last is not None:
                h.assume(x - last >= GAP)
            last = x
            for k in p.split('='):
                self.t[k] = x

    def at(self, t):
        if isinstance(t, str):
            t = self.t[t]
        return (self.o[0] + t * self.d[0], self.o[1] + t * self.d[1])

    def pos(self, q):
        """place of a point of the line"""
        x, y = (q.x, q.y) if hasattr(q, 'x') else (q[0], q[1])
        return (x - self.o[0]) * self.d[0] + (y - self.o[1]) * self.d[1]

    def off(self, q):
        x, y = (q.x, q.y) if hasattr(q, 'x') else (q[0], q[1])
        return (x - self.o[0]) * self.d[1] - (y - self.o[1]) * self.d[0]

    def probe(self):
        """an arbitrary place, away from all others"""
        p = self.h.real('p', -25, 25)
        for x in set(self.t.values()):
            self.h.assume(self.h.or_(p - x >= GAP / 2, x - p >= GAP / 2))
        return p

    def line(self, a, b):
        from shapely.geometry import LineString
        return LineString([self.at(a), self.at(b)])


def parts(g):
    """the line strings of a geometry, as lists of end points"""
    if g.is_empty:
        return []
    return [list(x.coords) for x in getattr(g, 'geoms', [g])]


def inside(h, p, a, b):
    """p strictly between a and b (ordered or not)"""
    return h.or_(h.and_(p >= a, p <= b), h.and_(p >= b, p <= a))


def pieces(h, what, L, lines):
    """places of the ends of lines, which have to be on the line"""
    out = []
    for c in lines:
        h.true('%s: two end points' % what, len(c) == 2)
        for q in c:
            h.eq('%s: on the line' % what, L.off(q), 0.)
        out.append((L.pos(c[0]), L.pos(c[1])))
    return out


def differ(h, d, order, rev):
    from pvfactors.geometry.base import PVSurface
    from pvfactors.geometry.utils import difference
    L = Line(h, d, order)
    u1, u2 = (L.t['u2'], L.t['u1']) if rev[0] else (L.t['u1'], L.t['u2'])
    v1, v2 = (L.t['v2'], L.t['v1']) if rev[1] else (L.t['v1'], L.t['v2'])
    u, v = L.line(u1, u2), L.line(v1, v2)
    g = difference(u, v)
    got = pieces(h, 'difference', L, parts(g))
    p = L.probe()
    n = sum([h.where(inside(h, p, a, b), 1, 0) for a, b in got], 0)
    want = h.where(h.and_(inside(h, p, u1, u2),
                          h.not_(inside(h, p, v1, v2))), 1, 0)
    h.eq('point of the difference', n, want)
    for a, b in got:
        h.le('difference keeps the orientation', 0.,
             (b - a) * (-1 if rev[0] else 1))
    s = PVSurface(coords=[L.at(u1), L.at(u2)])
    same = pieces(h, 'difference of a surface', L, parts(s.difference(v)))
    h.true('difference of a surface: same', len(same) == len(got))
    for (a, b), (c, e) in zip(got, same):
        h.eq('difference of a surface: same', a, c)
        h.eq('difference of a surface: same', b, e)


def crossing(h, d):
    """lines that are not collinear have no common part"""
    from pvfactors.geometry.utils import difference
    L = Line(h, d, 'u1 x u2')
    k = h.real('k', .1, 10)
    j = h.real('j', .1, 10)
    for a in ('x', 'u1', 'u2'):
        from shapely.geometry import LineString
        q = L.at(a)
        out = (q[0] + k * .6 * L.d[0] - k * .8 * L.d[1],
               q[1] + k * .6 * L.d[1] + k * .8 * L.d[0])
        far = (q[0] - j * .6 * L.d[0] + j * .8 * L.d[1],
               q[1] - j * .6 * L.d[1] - j * .8 * L.d[0])
        for v in (LineString([q, out]), LineString([out, q]),
                  LineString([far, out])):
            got = pieces(h, 'crossing', L,
                         parts(difference(L.line('u1', 'u2'), v)))
            h.true('difference of crossing lines: one line', len(got) == 1)
            h.eq('difference of crossing lines', got[0][0], L.t['u1'])
            h.eq('difference of crossing lines', got[0][1], L.t['u2'])


def within(h, d, order, side):
    from shapely.geometry import Point
    from pvfactors.geometry.utils import contains
    L = Line(h, d, order)
    q = L.at('x')
    if side:
        e = h.real('e', GAP, 10) * side
        q = (q[0] - e * L.d[1], q[1] + e * L.d[0])
    places = order.replace('=', ' ').split()
    want = not side and (
        '=x' in order or 'x=' in order
        or places.index('u1') < places.index('x') < places.index('u2'))
    for line in (L.line('u1', 'u2'), L.line('u2', 'u1')):
        h.true('a line contains its points only',
               bool(contains(line, Point(*q))) == want)


def project(h, d, order, flip):
    from shapely.geometry import Point
    from pvfactors.geometry.utils import projection
    L = Line(h, d, order)
    vx, vy = h.real('vx', -5, 5), h.real('vy', -5, 5)
    cr = vx * L.d[1] - vy * L.d[0]
    h.assume(h.abs(cr) >= .05)
    h.assume(h.abs(L.t['u2'] - L.t['u1']) >= .05)
    k = h.real('k', -10, 10)
    q = L.at('x')
    point = Point(q[0] - k * vx, q[1] - k * vy)
    line = L.line('u2', 'u1') if flip else L.line('u1', 'u2')
    places = order.replace('=', ' ').split()
    want = '=x' in order or 'x=' in order or \
        places.index('u1') < places.index('x') < places.index('u2')
    g = projection(point, [vx, vy], line)
    h.true('projection is on the line segment, or nothing',
           g.is_empty == (not want))
    if want:
        h.eq('projection', g.x, q[0], 1e-4)
        h.eq('projection', g.y, q[1], 1e-4)
    g = projection(point, [vx, vy], line, must_contain=False)
    h.eq('projection on the full line', g.x, q[0], 1e-4)
    h.eq('projection on the full line', g.y, q[1], 1e-4)


def parallel(h, d):
    from shapely.geometry import Point
    from pvfactors.geometry.utils import projection
    L = Line(h, d, 'u1 u2')
    c = h.real('c', -5, 5)
    x, y = h.real('x', -50, 50), h.real('y', -50, 50)
    for m in (True, False):
        g = projection(Point(x, y), [c * L.d[0], c * L.d[1]],
                       L.line('u1', 'u2'), must_contain=m)
        h.true('no projection along the line', g.is_empty)


def tiling(h, what, L, surfaces, ends, shade, normal, names):
    """surfaces tile the line between the ends; a point is on a shaded one
    iff it is in a shade interval"""
    p = L.probe()
    for s in surfaces:
        got = pieces(h, what, L, parts(s))
        h.true('%s: surface is one line' % what, len(got) == 1)
        for k in (0, 1):
            h.eq('%s: normal vector' % what, s.n_vector[k], normal[k])
        h.true('%s: parameters of the surfaces' % what,
               all(s.get_param(n) is None for n in names)
               and list(s.param_names) == list(names))
    pc = [(L.pos(s.coords[0]), L.pos(s.coords[1]), bool(s.shaded))
          for s in surfaces]
    on = inside(h, p, *ends)
    dark = h.or_(*([inside(h, p, a, b) for a, b in shade] or [False]))
    ns = sum([h.where(inside(h, p, a, b), 1, 0) for a, b, s in pc if s], 0)
    ni = sum([h.where(inside(h, p, a, b), 1, 0) for a, b, s in pc if not s],
             0)
    h.eq('%s: shaded where a shadow is, once' % what, ns,
         h.where(h.and_(on, dark), 1, 0))
    h.eq('%s: illuminated elsewhere, once' % what, ni,
         h.where(h.and_(on, h.not_(dark)), 1, 0))


def normal_of(L, a, b):
    """default normal vector: the direction turned to the left"""
    (x1, y1), (x2, y2) = L.at(a), L.at(b)
    return (-(y2 - y1), x2 - x1)


def build(h, L, kind, n, given):
    """a segment or a side from e1 to e2"""
    from pvfactors.geometry.base import PVSegment, BaseSide
    from pvfactors.geometry.pvrow import PVRowSide
    coords = [L.at('e1'), L.at('e2')]
    nv = None
    if given:
        nv = [-2 * L.d[1], 2 * L.d[0]]
    kw = dict(normal_vector=nv, param_names=['q', 'z'])
    if kind == 'segment':
        return PVSegment.from_linestring_coords(coords, index=4, **kw), nv
    cls = PVRowSide if kind == 'row' else BaseSide
    return cls.from_linestring_coords(coords, n_segments=n, **kw), nv


def cast(h, d, order, kind, n, ops, given=True):
    """ops: 's0' a shadow from s0a to s0b ('-s0': from s0b to s0a), 'c0' a
    cut at point c0, 'm': merge the shaded areas"""
    from shapely.geometry import Point
    L = Line(h, d, order)
    given = given or n > 1
    g, nv = build(h, L, kind, n, given)
    if nv is None:
        nv = normal_of(L, 'e1', 'e2')
    shade, cuts = [], []
    for i, op in enumerate(ops.split()):
        what = 'step %d' % i
        if op == 'm':
            g.merge_shaded_areas()
            if shade:
                lo, hi = shade[0]
                for a, b in shade[1:]:
                    lo, hi = h.min(lo, a), h.max(hi, b)
                merged = (lo, hi)
        elif op[0] == 'c':
            g.cut_at_point(Point(*L.at(op)))
            cuts.append(L.t[op])
        else:
            a, b = op.strip('-') + 'a', op.strip('-') + 'b'
            g.cast_shadow(L.line(b, a) if op[0] == '-' else L.line(a, b))
            shade.append((L.t[a], L.t[b]))
            cuts = []               # a new shadow is one surface
        ends = (L.t['e1'], L.t['e2'])
        if op != 'm':
            tiling(h, what, L, g.all_surfaces, ends, shade, nv, ['q', 'z'])
            h.true(what + ': number of surfaces',
                   g.n_surfaces == len(g.all_surfaces)
                   and len(g.surface_indices) == g.n_surfaces)
            tot = sum([s.length for s in g.all_surfaces], 0)
            h.eq(what + ': length', tot, ends[1] - ends[0])
            h.eq(what + ': length', g.length, ends[1] - ends[0])
            h.eq(what + ': shaded length', g.shaded_length,
                 sum([s.length for s in g.all_surfaces if s.shaded], 0))
            for c in cuts:
                for s in g.all_surfaces:
                    p1, p2 = L.pos(s.coords[0]), L.pos(s.coords[1])
                    h.true(what + ': no surface goes over a cut',
                           h.or_(h.and_(p1 - c >= -1e-6, p2 - c >= -1e-6),
                                 h.and_(c - p1 >= -1e-6, c - p2 >= -1e-6)))
        else:
            segs = g.list_segments
            h.true('merged: at most one shaded surface per segment', all(
                s.shaded_collection.n_surfaces <= 1 for s in segs))
            for k, s in enumerate(segs):
                for f in s.shaded_collection.list_surfaces:
                    p1, p2 = [L.pos(q) for q in f.coords]
                    for i in (0, 1):
                        h.eq('merged surfaces keep the normal vector',
                             f.n_vector[i], nv[i])
                    for q in f.coords:
                        h.eq('merged surfaces stay on the line', L.off(q), 0.)
                    x1 = ends[0] + (ends[1] - ends[0]) * k / n
                    x2 = ends[0] + (ends[1] - ends[0]) * (k + 1) / n
                    h.eq('merged: from the first to the last shaded point',
                         h.min(p1, p2), h.max(merged[0], x1))
                    h.eq('merged: from the first to the last shaded point',
                         h.max(p1, p2), h.min(merged[1], x2))


def segments(h, d, kind, n, shaded):
    """a side has equal segments, in the direction of its line"""
    from pvfactors.geometry.base import BaseSide
    from pvfactors.geometry.pvrow import PVRowSide
    L = Line(h, d, 'e1 e2')
    cls = PVRowSide if kind == 'row' else BaseSide
    g = cls.from_linestring_coords([L.at('e1'), L.at('e2')], shaded=shaded,
                                   index=0, n_segments=n, param_names=['q'])
    h.true('number of segments', len(g.list_segments) == n
           and g.n_surfaces == n)
    w = (L.t['e2'] - L.t['e1']) / n
    for k, s in enumerate(g.list_segments):
        col = s.shaded_collection if shaded else s.illum_collection
        other = s.illum_collection if shaded else s.shaded_collection
        h.true('segment has one surface of the shading asked for',
               col.n_surfaces == 1 and other.n_surfaces == 0
               and bool(col.list_surfaces[0].shaded) == shaded)
        (a, b), = pieces(h, 'segment', L, parts(col.list_surfaces[0]))
        h.eq('segment', a, L.t['e1'] + k * w)
        h.eq('segment', b, L.t['e1'] + (k + 1) * w)
        h.eq('length of a segment', s.length, w)
        nv = s.n_vector
        h.ge('normal vector to the left', nv[0] * -L.d[1] + nv[1] * L.d[0],
             w / 2)
        h.eq('normal vector', nv[0] * L.d[0] + nv[1] * L.d[1], 0.)
    h.eq('length of the side', g.length, n * w)
    h.eq('shaded length', g.shaded_length, n * w if shaded else 0)


def row(h, side, cf, cb, shaded):
    """an instant row from its centre, tilt and width"""
    from pvfactors.geometry.pvrow import PVRow
    cx, cy = h.real('cx', -50, 50), h.real('cy', -50, 50)
    w = h.real('w', .1, 10)
    az = h.angle('axis', -180, 180)
    if side == 'F':
        tilt, sg = 0., 1
        c, s = 1., 0.
    else:
        tilt = h.angle('tilt', 1, 89)
        sg = -1 if side == 'R' else 1
        c, s = h.cosd(tilt), h.sind(tilt)
    faz = az - 90 if side == 'R' else az + 90
    g = PVRow.from_center_tilt_width(
        (cx, cy), h.arr([tilt]) if side != 'F' else np.array([0.]), w,
        h.arr([faz]), az, shaded=shaded, index=7,
        cut={'front': cf, 'back': cb}, param_names=['q'])
    b1, b2 = [(q.x, q.y) for q in g.boundary]
    h.true('index of the row', g.index == 7)
    h.eq('centre', (b1[0] + b2[0]) / 2, cx)
    h.eq('centre', (b1[1] + b2[1]) / 2, cy)
    h.eq('right end', b2[0] - b1[0], w * c)
    rise = b2[1] - b1[1]
    # azimuth - axis > 180: the right end is the higher one
    right = ROT[side]
    h.eq('rise to the right', rise, w * s * right)
    for sd, n, up in ((g.front, cf, 1), (g.back, cb, -1)):
        h.true('segments of a side', len(sd.list_segments) == n)
        for k, x in enumerate(sd.list_segments):
            f = x.all_surfaces
            h.true('one surface per segment',
                   len(f) == 1 and bool(f[0].shaded) == shaded)
            for j, q in enumerate(f[0].coords):
                t = (k + j) * 1. / n
                h.eq('ends of a segment', q[0], b1[0] + t * (b2[0] - b1[0]))
                h.eq('ends of a segment', q[1], b1[1] + t * (b2[1] - b1[1]))
            nx, ny = f[0].n_vector
            h.eq('normal vector at a right angle',
                 nx * (b2[0] - b1[0]) + ny * (b2[1] - b1[1]), 0., 1e-4)
            h.ge('front up, back down', ny * up, 0)
        h.eq('length of a side', sd.length, w)
    hi, lo = g.highest_point, g.lowest_point
    if side != 'F':
        h.eq('highest point', hi.y, h.max(b1[1], b2[1]))
        h.eq('lowest point', lo.y, h.min(b1[1], b2[1]))


ROT = {'F': 0, 'R': 1, 'L': -1}


def collections(h, d):
    """segments made without one of the collections"""
    from pvfactors.geometry.base import PVSegment, ShadeCollection, PVSurface
    L = Line(h, d, 'e1 a b e2')

    def surf(p, q, shaded):
        return PVSurface(coords=[L.at(p), L.at(q)], shaded=shaded,
                         normal_vector=[-L.d[1], L.d[0]])
    one = PVSegment(illum_collection=ShadeCollection([surf('e1', 'e2',
                                                           False)]))
    two = PVSegment(illum_collection=ShadeCollection([surf('e1', 'e2',
                                                           False)]))
    one.cast_shadow(L.line('a', 'b'))
    h.eq('shadow on the first segment', one.shaded_length,
         L.t['b'] - L.t['a'])
    h.eq('no shadow on the second segment', two.shaded_length, 0.)
    h.true('surfaces of the second segment', two.n_surfaces == 1
           and len(two.all_surfaces) == 1)
    new = PVSegment(illum_collection=ShadeCollection([surf('e1', 'a',
                                                           False)]))
    h.true('surfaces of a new segment', new.n_surfaces == 1)
    new.shaded_collection = ShadeCollection([surf('a', 'b', True)])
    h.eq('length with a shaded part', new.length, L.t['b'] - L.t['e1'])
    h.true('surfaces with a shaded part', len(new.all_surfaces) == 2)
    new.illum_collection = ShadeCollection([surf('b', 'e2', False)])
    h.eq('length with a new illuminated part', new.length,
         L.t['e2'] - L.t['a'])
    del new.shaded_collection
    h.eq('length without the shaded part', new.length, L.t['e2'] - L.t['b'])
    h.eq('shaded length without the shaded part', new.shaded_length, 0.)
    del one.illum_collection
    h.eq('only the shaded part is left', one.length, L.t['b'] - L.t['a'])
    h.eq('normal of the shaded part', one.n_vector[0], -L.d[1])
    h.eq('normal of the shaded part', one.n_vector[1], L.d[0])


def orders():
    """all orders of u1 < u2 and v1 < v2 with coincidences"""
    out = set()
    for n in (2, 3, 4):
        for lv in itertools.product(range(n), repeat=4):
            if sorted(set(lv)) != list(range(n)):
                continue
            u1, u2, v1, v2 = lv
            if not (u1 < u2 and v1 < v2):
                continue
            pl = [[] for _ in range(n)]
            for k, x in zip(('u1', 'u2', 'v1', 'v2'), lv):
                pl[x].append(k)
            out.add(' '.join('='.join(p) for p in pl))
    return sorted(out)


def scenarios(tier):
    out = []
    dirs = sorted(DIRS)
    for i, o in enumerate(orders()):
        for r, rev in enumerate(itertools.product((0, 1), repeat=2)):
            d = dirs[(i + r) % len(dirs)]
            out.append({'name': 'difference-%s-%d%d-%s' % (
                o.replace(' ', ','), rev[0], rev[1], d), 'fn': differ,
                'kw': dict(d=d, order=o, rev=rev)})
    for d in dirs:
        out.append({'name': 'crossing-' + d, 'fn': crossing,
                    'kw': dict(d=d)})
        out.append({'name': 'parallel-' + d, 'fn': parallel,
                    'kw': dict(d=d)})
        out.append({'name': 'collections-' + d, 'fn': collections,
                    'kw': dict(d=d)})
    for i, o in enumerate(('u1 x u2', 'x u1 u2', 'u1 u2 x', 'u1=x u2',
                           'u1 u2=x')):
        # at an end exactly, projections depend on round-off
        for k, side in enumerate((0, 1, -1)):
            d = dirs[(i + k) % len(dirs)]
            out.append({'name': 'contains-%d-%d-%s' % (i, side, d),
                        'fn': within, 'kw': dict(d=d, order=o, side=side)})
        for d in dirs if i < 3 else ():
            out.append({'name': 'projection-%d-%s' % (i, d), 'fn': project,
                        'kw': dict(d=d, order=o, flip=i % 2)})
    C = [('e1 s0a s0b e2', 's0'), ('s0a e1 s0b e2', 's0'),
         ('e1 s0a e2 s0b', '-s0'), ('s0a e1 e2 s0b', 's0'),
         ('s0a s0b e1 e2', 's0'), ('e1=s0a s0b e2', '-s0'),
         ('e1=s0a e2=s0b', 's0'),
         ('e1 s0a s0b s1a s1b e2', 's0 s1'), ('e1 s0a s1a s0b s1b e2',
                                              's0 -s1'),
         ('e1 s1a s0a s0b s1b e2', 's0 s1'), ('e1 s0a s1a s1b s0b e2',
                                              's0 s1'),
         ('e1 s0a s0b=s1a s1b e2', 's0 s1'),
         ('s1a e1 s0a s0b e2 s1b', '-s0 s1'),
         ('e1 s0a s0b s1a s1b s2a s2b e2', 's1 s0 s2'),
         ('e1 s2a s0a s0b s1a s1b s2b e2', 's0 s1 -s2'),
         ('e1 s0a s0b c0 e2', 's0 c0'), ('e1 s0a c0 s0b e2', 's0 c0'),
         ('e1 s0a c0 s0b e2', 'c0 s0'), ('e1 c0 c1 e2', 'c0 c1'),
         ('e1 c0 c1 c2 e2', 'c1 c0 c2'), ('c0 e1 e2 c1', 'c0 c1'),
         ('e1=c0 e2=c1', 'c0 c1'), ('e1 c0 s0a=c1 s0b e2', 'c0 s0 c1'),
         ('e1 s0a c0 c1 s0b e2', 'c0 s0 c1')]
    for i, (o, ops) in enumerate(C):
        for k in (0, 1):
            d = dirs[(2 * i + 3 * k + i // 3) % len(dirs)]
            out.append({'name': 'cast%d-segment-%s' % (i, d), 'fn': cast,
                        'kw': dict(d=d, order=o, kind='segment', n=1,
                                   ops=ops, given=k == 0)})
    for i, (o, ops) in enumerate((
            ('e1 s0a s0b s1a s1b e2', 's0 s1 m'), ('e1 s0a s0b e2', 's0 m'),
            ('e1 s0a s0b=s1a s1b e2', 's1 s0 m'),
            ('e1 s0a s1a s0b s1b e2', 's0 s1 m'))):
        for d in dirs:
            out.append({'name': 'merge%d-%s' % (i, d), 'fn': cast,
                        'kw': dict(d=d, order=o, kind='side', n=1, ops=ops)})
    S = [('e1 s0a g1 s0b e2', 's0'), ('e1 s0a s0b g1 e2', '-s0'),
         ('e1 g1 s0a s0b e2', 's0'), ('s0a e1 g1 e2 s0b', 's0'),
         ('s0a e1 g1 s0b e2', '-s0'), ('e1 s0a g1=s0b e2', 's0'),
         ('e1 s0a g1 s0b g2 e2', 's0'), ('e1 s0a g1 g2 s0b e2', '-s0'),
         ('e1 g1 s0a s0b g2 e2', 's0'), ('e1 g1=s0a s0b=g2 e2', 's0'),
         ('e1 s0a g1 s0b g2 g3 s1a e2 s1b', 's0 -s1'),
         ('e1 s0a s0b g1 s1a s1b e2', 's0 s1'),
         ('e1 s0a s1a g1 s0b s1b e2', 's0 s1'),
         ('e1 s1a s0a g1 s0b s1b e2', 's0 s1'),
         ('e1 s0a g1 s1a s1b s0b e2', 's0 -s1'),
         ('e1 s0a s0b s1a s1b g1 s2a e2 s2b', 's0 s1 s2'),
         ('e1 s2a s0a s0b g1 s1a s1b s2b e2', 's0 s1 s2'),
         ('e1 c0 g1 e2', 'c0'), ('e1 g1=c0 c1 e2', 'c0 c1'),
         ('e1 s0a c0 g1 s0b e2', 's0 c0'), ('e1 s0a g1 c0 s0b e2', 'c0 s0'),
         ('e1 s0a g1 c0 s0b g2 c1 e2', 's0 c0 c1'),
         ('e1 s0a s0b s1a g1 s1b e2', 's0 s1 m'),
         ('e1 s0a g1 s0b s1a s1b g2 e2', '-s0 s1 m'),
         ('e1 g1 s0a g2 s0b e2', 's0 m')]
    for i, (o, ops) in enumerate(S):
        for k in (0, 1) if tier == 'quick' else range(len(dirs)):
            d = dirs[(2 * i + 3 * k + i // 3) % len(dirs)]
            out.append({'name': 'side%d-%s' % (i, d), 'fn': cast,
                        'kw': dict(d=d, order=o, n=1 + sum(
                            'g%d' % j in o for j in (1, 2, 3)),
                            kind='row' if k else 'side', ops=ops)})
    for i, (n, kind, sh) in enumerate(((1, 'row', False), (2, 'side', True),
                                       (3, 'row', False), (4, 'side', False),
                                       (2, 'row', False), (5, 'row', True))):
        for k in (0, 1):
            d = dirs[(i + 2 * k) % len(dirs)]
            out.append({'name': 'segments%d-%s-%s' % (n, kind, d),
                        'fn': segments, 'kw': dict(d=d, kind=kind, n=n,
                                                   shaded=sh)})
    for side in 'LRF':
        for cf, cb, sh in ((1, 1, False), (2, 1, True), (1, 3, False),
                           (4, 2, False)):
            out.append({'name': 'row-%s-%d-%d' % (side, cf, cb), 'fn': row,
                        'kw': dict(side=side, cf=cf, cb=cb, shaded=sh)})
    return out
