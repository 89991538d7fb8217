"""Stand-in for the part of shapely 1.8 that pvfactors uses, over symbolic
coordinates.  Installed in symbolic workers only; counterexamples and path
validation run with the real library."""
import sys
import types

import numpy as np

from . import core
from .core import SymError


def _num(v):
    if isinstance(v, np.ndarray):
        v = v.item()
    if isinstance(v, core.Sym):
        return v
    return float(v)


def _sqrt(v):
    if isinstance(v, core.Sym):
        return core.sqrt(v)
    return float(v) ** .5


def _xy(p):
    if isinstance(p, Point):
        return (p.x, p.y)
    p = list(p)
    return (_num(p[0]), _num(p[1]))


def _hypot(dx, dy):
    return _sqrt(dx * dx + dy * dy)


def _min(a, b):
    return a if a <= b else b


def _max(a, b):
    return b if a <= b else a


class _Geom(object):
    _is_line = False

    @property
    def bounds(self):
        pts = [p for l in self._all_lines() for p in l]
        if not pts:
            return ()
        x0 = x1 = pts[0][0]
        y0 = y1 = pts[0][1]
        for x, y in pts[1:]:
            x0, x1 = _min(x0, x), _max(x1, x)
            y0, y1 = _min(y0, y), _max(y1, y)
        return (x0, y0, x1, y1)

    @property
    def is_empty(self):
        return not self._all_lines()

    @property
    def length(self):
        tot = 0.
        for l in self._all_lines():
            for p, q in zip(l, l[1:]):
                tot = tot + _hypot(q[0] - p[0], q[1] - p[1])
        return tot

    def distance(self, other):
        if isinstance(other, Point):
            best = None
            for l in self._all_lines():
                for p, q in zip(l, l[1:]):
                    d = _point_segment((other.x, other.y), p, q)
                    best = d if best is None else _min(best, d)
            return best
        if isinstance(self, Point):
            return other.distance(self)
        raise SymError('shapely distance of %s' % type(other).__name__)

    def buffer(self, tol):
        return _Buffer(self._all_lines(), tol)

    @property
    def centroid(self):
        tot, cx, cy = 0., 0., 0.
        for l in self._all_lines():
            for p, q in zip(l, l[1:]):
                w = _hypot(q[0] - p[0], q[1] - p[1])
                tot = tot + w
                cx = cx + w * (p[0] + q[0]) / 2
                cy = cy + w * (p[1] + q[1]) / 2
        return Point(cx / tot, cy / tot)


def _point_segment(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    u = (p[0] - a[0]) * dx + (p[1] - a[1]) * dy
    L2 = dx * dx + dy * dy
    if u <= 0:
        return _hypot(p[0] - a[0], p[1] - a[1])
    if u >= L2:
        return _hypot(p[0] - b[0], p[1] - b[1])
    cr = (p[0] - a[0]) * dy - (p[1] - a[1]) * dx
    return _sqrt(cr * cr) / _sqrt(L2)


class Point(_Geom):
    def __init__(self, *a):
        if len(a) == 1:
            a = _xy(a[0])
        self.x, self.y = _num(a[0]), _num(a[1])

    @property
    def coords(self):
        return [(self.x, self.y)]

    @property
    def xy(self):
        return [self.x], [self.y]

    is_empty = False
    length = 0.

    def distance(self, other):
        if isinstance(other, Point):
            return _hypot(self.x - other.x, self.y - other.y)
        return other.distance(self)

    def _all_lines(self):
        return []


class _Multi(_Geom):
    @property
    def geoms(self):
        return self._members()

    def __iter__(self):
        return iter(self._members())

    def __len__(self):
        return len(self._members())

    def __getitem__(self, k):
        return self._members()[k]


class MultiPoint(_Multi):
    def __init__(self, pts=()):
        self._pts = [Point(p) for p in pts]

    def _members(self):
        return list(self._pts)

    @property
    def is_empty(self):
        return not self._pts

    def _all_lines(self):
        return []


class LineString(_Geom):
    def __init__(self, coords=None):
        if coords is None:
            pts = []
        elif isinstance(coords, LineString):
            pts = list(coords._pts)
        else:
            pts = [_xy(p) for p in coords]
        if len(pts) == 1:
            raise ValueError('LineStrings must have at least 2 coordinate '
                             'tuples')
        self._pts = pts

    def _all_lines(self):
        return [list(self._pts)] if self._pts else []

    @property
    def coords(self):
        return list(self._pts)

    @property
    def xy(self):
        return [p[0] for p in self._pts], [p[1] for p in self._pts]

    @property
    def boundary(self):
        if not self._pts:
            return MultiPoint()
        a, b = self._pts[0], self._pts[-1]
        if a[0] == b[0] and a[1] == b[1]:
            return MultiPoint()
        return MultiPoint([a, b])

    def interpolate(self, d, normalized=False):
        if len(self._pts) != 2:
            raise SymError('interpolate on a polyline')
        a, b = self._pts
        if not normalized:
            d = d / self.length
        if d < 0:
            d = d + 1
        if d <= 0:
            return Point(a)
        if d >= 1:
            return Point(b)
        return Point(a[0] + d * (b[0] - a[0]), a[1] + d * (b[1] - a[1]))

    @property
    def centroid(self):
        if len(self._pts) == 2:
            a, b = self._pts
            return Point((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        return _Geom.centroid.fget(self)

    def intersects(self, other):
        return _Buffer(self._all_lines(), 0.).intersects(other)


class MultiLineString(_Multi):
    def __init__(self, lines=()):
        self._lines = [LineString(l) for l in lines]

    def _members(self):
        return list(self._lines)

    def _all_lines(self):
        return [list(l._pts) for l in self._lines if l._pts]


class GeometryCollection(_Multi):
    def __init__(self, geoms=None):
        self._geom, self._ndim = collection(geoms or [])

    def _members(self):
        return [LineString(l) for l in self._geom]

    def _all_lines(self):
        return [list(l) for l in self._geom]


def collection(geoms):
    """copy of the lines of the members"""
    out = []
    for g in geoms:
        out += g._all_lines()
    return out, 2


def linemerge(lines):
    return MultiLineString(lines)


class _Buffer(_Geom):
    """everything within tol of some lines"""

    def __init__(self, lines, tol):
        self.lines, self.tol = lines, tol

    def _all_lines(self):
        return self.lines

    def intersects(self, other):
        for l in self.lines:
            for a, b in zip(l, l[1:]):
                for m in other._all_lines():
                    for c, d in zip(m, m[1:]):
                        if _segments(a, b, c, d, self.tol):
                            return True
        return False

    def intersection(self, other):
        out = []
        for m in other._all_lines():
            for c, d in zip(m, m[1:]):
                out += self._clip(c, d)
        if not out:
            return LineString()
        if len(out) == 1:
            return LineString(out[0])
        return MultiLineString(out)

    def _clip(self, c, d):
        """parts of the segment c, d near collinear lines"""
        dx, dy = d[0] - c[0], d[1] - c[1]
        L2 = dx * dx + dy * dy
        L = _sqrt(L2)
        ux, uy = dx / L, dy / L
        parts = []
        for l in self.lines:
            for a, b in zip(l, l[1:]):
                for p in (a, b):
                    cr = (p[0] - c[0]) * dy - (p[1] - c[1]) * dx
                    if not (cr * cr <= 1e-24 * L2):
                        raise SymError('intersection with a buffer: lines '
                                       'are not collinear')
                # places along the segment
                u, v = [(p[0] - c[0]) * ux + (p[1] - c[1]) * uy
                        for p in (a, b)]
                if u > v:
                    u, v = v, u
                u, v = u - self.tol, v + self.tol
                if u < 0:
                    u = 0.
                if v > L:
                    v = L
                if u < v:
                    parts.append((u, v))
        # union of the parts
        done = []
        for u, v in parts:
            rest = []
            for s, t in done:
                if t < u or v < s:
                    rest.append((s, t))
                else:
                    u, v = _min(u, s), _max(v, t)
            done = rest + [(u, v)]
        # in the direction of the segment
        order = []
        for q in done:
            k = 0
            while k < len(order) and order[k][0] <= q[0]:
                k += 1
            order.insert(k, q)
        return [[(c[0] + t * ux, c[1] + t * uy) for t in q] for q in order]


def _segments(a, b, c, d, tol):
    """do two segments come within tol"""
    def cross(o, p, q):
        return (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])
    par = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    par = core.lift(par)
    if not (par.is_const() and par.const() == 0):
        s1, s2 = cross(a, b, c), cross(a, b, d)
        s3, s4 = cross(c, d, a), cross(c, d, b)
        if s1 * s2 <= 0 and s3 * s4 <= 0 and not (
                s1 == 0 and s2 == 0):
            return True
    for p, q, r in ((a, c, d), (b, c, d), (c, a, b), (d, a, b)):
        if _point_segment(p, q, r) <= tol:
            return True
    return False


def install():
    """before pvfactors is imported"""
    for k in list(sys.modules):
        if k == 'shapely' or k.startswith('shapely.') \
                or k == 'pvfactors' or k.startswith('pvfactors.'):
            del sys.modules[k]

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    root = mod('shapely', __version__='1.8', __path__=[])
    geo = dict(Point=Point, LineString=LineString, MultiPoint=MultiPoint,
               MultiLineString=MultiLineString,
               GeometryCollection=GeometryCollection)
    root.geos = mod('shapely.geos', lgeos=types.SimpleNamespace(
        methods={}, geos_version=(3, 10, 0)))
    root.geometry = mod('shapely.geometry', __path__=[], **geo)
    root.geometry.collection = mod(
        'shapely.geometry.collection',
        geos_geometrycollection_from_py=collection,
        GeometryCollection=GeometryCollection)
    root.geometry.linestring = mod('shapely.geometry.linestring',
                                   LineString=LineString)
    root.geometry.point = mod('shapely.geometry.point', Point=Point)
    root.ops = mod('shapely.ops', linemerge=linemerge)
