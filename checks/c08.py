"""C08: the geometry generated for one step is the timeseries geometry at that
step."""
import numpy as np

from .steps import at, same

SHAPELY = True
META = {
    'bounds': 'rows: 1-3 segments per side, any centre, width, tilt up to 85 '
    'deg to either side or flat, any shaded lengths, 2-3 steps of different '
    'kind; ground: 1-3 shadows and 0-2 cut points anywhere in [-1000, 1000] '
    'm, overlapping or not, every combination of the merge and cut point '
    'options, 1-3 steps; arbitrary parameter values',
    'outside': 'surfaces shorter than 1e-6 m that are not empty; plotting',
    'assumptions': ['shapely is replaced by a stand-in with its semantics in '
                    'symbolic runs; replays use the real library'],
}
TOL = 1e-6


def pts(geom):
    return [tuple(p)[:2] for p in geom.coords]


def params(h, surfaces, T):
    """every kind of parameter value: series, numbers, nothing, dictionary"""
    for s in surfaces:
        k = s.index
        s.update_params({
            'q': h.arr([h.real('q%d_%d' % (k, t), -1e3, 1e3)
                        for t in range(T)]),
            'c': 3.5 + k, 'none': None, 'd': {'a': k}})


def sized(h, s, t):
    L = s.length[t]
    h.assume(h.or_(L >= 1e-6, L <= 0))
    return h.pick(L >= 1e-6)


def one(h, what, g, s, t, n_vector=True):
    """instant surface g is timeseries surface s at t"""
    h.true('%s: same shading flag' % what, bool(g.shaded) == bool(s.shaded))
    h.true('%s: same index' % what, g.index == s.index)
    p = pts(g)
    h.true('%s: two end points' % what, len(p) == 2)
    for (x, y), q in zip(p, (s.b1, s.b2)):
        h.eq('%s: end point' % what, x, at(q.x, t))
        h.eq('%s: end point' % what, y, at(q.y, t))
    if n_vector and s.n_vector is not None:
        for k in (0, 1):
            h.eq('%s: normal vector' % what, g.n_vector[k],
                 s.n_vector[k, t])
    for k, v in s.params.items():
        h.true('%s: parameter is there' % what, k in g.params)
        w = g.get_param(k)
        if v is None or isinstance(v, dict):
            h.true('%s: parameter %s' % (what, k), w is v or w == v)
        else:
            h.eq('%s: parameter %s' % (what, k), w, at(v, t))


def matches(h, what, geoms, series, t, n_vector=True):
    want = [s for s in series if sized(h, s, t)]
    h.true('%s: one surface per non empty timeseries surface' % what,
           len(geoms) == len(want))
    for g, s in zip(geoms, want):
        one(h, what, g, s, t, n_vector)
    return want


def rows(h, steps, cf, cb, shade):
    """shade: per step (front, back): number of segments reached by the
    shade, 0: none, k: it ends inside the k-th segment from the lower edge,
    k.0 (float): it ends with that segment"""
    from pvfactors.geometry.pvrow import TsPVRow
    T = len(steps)
    r = h.real('r', .05, 5)
    w = 2 * r
    cx, cy = h.real('cx', -50, 50), h.real('cy', .1, 20)
    rot, sf, sb = [], [], []
    for t, k in enumerate(steps):
        if k == 'F':
            rot.append(-0.)
        elif k in 'lr':
            rot.append(30. if k == 'l' else -30.)
        else:
            a = h.angle('tilt_%d' % t, 1, 85)
            rot.append(a if k == 'L' else -a)
        for lst, nm, j, n in ((sf, 'sf', shade[t][0], cf),
                              (sb, 'sb', shade[t][1], cb)):
            if not j or isinstance(j, float):
                lst.append(w * int(j) / n)
                continue
            v = h.real('%s_%d' % (nm, t), 0, 10)
            h.assume(v - w * (j - 1) / n >= 1e-6)
            h.assume(w * j / n - v >= 1e-6)
            lst.append(v)
    col = np.array(rot) if all(isinstance(v, float) for v in rot) \
        else h.arr(rot)
    row = TsPVRow.from_raw_inputs(
        (cx, cy), w, col, {'front': cf, 'back': cb}, h.arr(sf),
        h.arr(sb), index=3, param_names=['q'])
    for k, s in enumerate(row.all_ts_surfaces):
        s.index = 10 + k
    params(h, row.all_ts_surfaces, T)
    for t in range(T):
        for s in row.all_ts_surfaces:
            sized(h, s, t)
    for t in range(T):
        g = row.at(t)
        h.true('index of the row', g.index == 3)
        full = row.full_pvrow_coords
        b = [(p.x, p.y) for p in g.boundary]
        for (x, y), q in zip(b, (full.b1, full.b2)):
            h.eq('boundary of the row', x, q.x[t])
            h.eq('boundary of the row', y, q.y[t])
        if steps[t] != 'F':
            hi, lo = g.highest_point, g.lowest_point
            h.ge('highest point', hi.y, b[0][1])
            h.ge('highest point', hi.y, b[1][1])
            h.le('lowest point', lo.y, b[0][1])
            h.le('lowest point', lo.y, b[1][1])
        for nm, sd, ts in (('front', g.front, row.front),
                           ('back', g.back, row.back)):
            side(h, nm, sd, ts, t, w)
        idx = [s.index for s in row.all_ts_surfaces if sized(h, s, t)]
        h.true('surface indices of the row',
               sorted(g.surface_indices) == idx
               and sorted(s.index for s in g.all_surfaces) == idx)
        if all(s.index in idx for s in row.all_ts_surfaces):
            h.true('all surfaces in the order of the timeseries', True)
    # parameters set on the geometry of a step stay there
    g = row.at(0)
    g.update_params({'z': 5.})
    h.true('update of an instant geometry', all(
        s.get_param('z') == 5. for s in g.all_surfaces) and all(
        'z' not in s.params for s in row.all_ts_surfaces))


def side(h, nm, sd, ts, t, w):
    h.true('%s: number of segments' % nm,
           len(sd.list_segments) == len(ts.list_segments))
    tot, shd, ww = 0, 0, 0
    for a, b in zip(sd.list_segments, ts.list_segments):
        h.true('%s: index of the segment' % nm, a.index == b.index)
        il = matches(h, nm + ' illuminated',
                     a.illum_collection.list_surfaces,
                     b.illum.list_ts_surfaces, t)
        sh = matches(h, nm + ' shaded', a.shaded_collection.list_surfaces,
                     b.shaded.list_ts_surfaces, t)
        h.true('%s: number of surfaces' % nm,
               a.n_surfaces == len(il) + len(sh))
        seg = 0
        for s in il + sh:
            seg = seg + s.length[t]
            ww = ww + s.length[t] * s.params['q'][t]
        h.eq('%s: length of a segment' % nm, a.length, seg)
        sl = sum([s.length[t] for s in sh], 0)
        h.eq('%s: shaded length of a segment' % nm, a.shaded_length, sl)
        tot, shd = tot + seg, shd + sl
        for k in (0, 1):
            h.eq('%s: normal vector of a segment' % nm, a.n_vector[k],
                 ts.n_vector[k, t])
    h.eq('%s: length' % nm, sd.length, w)
    h.eq('%s: shaded length' % nm, sd.shaded_length, shd)
    h.eq('%s: shaded length' % nm, sd.shaded_length, ts.shaded_length[t])
    h.eq('%s: sum of a parameter' % nm, sd.get_param_ww('q'), ww, 1e-3)
    for k in (0, 1):
        h.eq('%s: normal vector' % nm, sd.n_vector[k], ts.n_vector[k, t])


def ground(h, n, m, orders, merge, cuts, extent=None):
    """orders: per step the order of the shadow ends a0 b0 a1 b1 ... (without
    b0: the first two shadows overlap, it ends at a1), cut points C0 ... and
    the end of the ground on the left (L) and right (R); x=y: same place"""
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsPointCoords
    from pvfactors.config import MIN_X_GROUND as XMIN, MAX_X_GROUND as XMAX
    T = len(orders)
    v, kinds = {}, []
    for t, order in enumerate(orders):
        pos, places = {}, order.split()
        if 'L' not in places:
            places = ['L'] + places + ['R']
        for p in places:
            x = {'L': XMIN, 'R': XMAX}.get(p)
            if x is None:
                x = h.real('%s_%d' % (p.split('=')[0], t), -1000, 1000)
            for k in p.split('='):
                pos[k] = x
        vals = [pos[p.split('=')[0]] for p in places]
        for p, q in zip(vals, vals[1:]):
            h.assume(q - p >= 2e-6)
        kinds.append('s' if all('b%d' % i in pos for i in range(n)) else 'o')
        for i in range(n):
            v['l', i, t] = pos['a%d' % i]
            # overlapping shadows: the end is somewhere in the next one
            v['r', i, t] = pos['b%d' % i] if 'b%d' % i in pos else \
                (pos['a%d' % (i + 1)] + pos['b%d' % (n - 1)]) / 2
        for i in range(m):
            v['c', i, t] = pos['C%d' % i]
    yg = h.real('yg', -5, 5)
    flag = np.array([k == 'o' for k in kinds])
    ys = [yg] * T
    sc = h.arr([[[[v['l', i, t] for t in range(T)], ys],
                 [[v['r', i, t] for t in range(T)], ys]] for i in range(n)])
    cp = [TsPointCoords(h.arr([v['c', i, t] for t in range(T)]), h.arr(ys))
          for i in range(m)]
    g = TsGround.from_ordered_shadows_coords(
        sc, flag_overlap=flag if 'o' in kinds else None,
        cut_point_coords=cp, param_names=['q'], y_ground=yg)
    for k, s in enumerate(g.all_ts_surfaces):
        s.index = k
    params(h, g.all_ts_surfaces, T)
    ps = {'q': h.arr([h.real('qs_%d' % t, 0, 1) for t in range(T)])}
    pi = {'q': h.arr([h.real('qi_%d' % t, 0, 1) for t in range(T)])}
    els = list(g.shadow_elements) + list(g.illum_elements)
    if not cuts:
        g.update_shaded_params(ps)
        g.update_illum_params(pi)
    for t in range(T):
        for s in g.all_ts_surfaces + [e.coords for e in els]:
            sized(h, s, t)
    for t, k in enumerate(kinds):
        sh = [s for e in g.shadow_elements for s in e.surface_list]
        il = [s for e in g.illum_elements for s in e.surface_list]
        matches(h, 'non point shaded', g.non_point_shaded_surfaces_at(t),
                sh, t)
        matches(h, 'non point illuminated',
                g.non_point_illum_surfaces_at(t), il, t)
        h.true('number of non point surfaces',
               g.n_non_point_surfaces_at(t) == len(
                   [s for s in sh + il if sized(h, s, t)]))
        p = g.at(t, x_min_max=extent, merge_if_flag_overlap=merge,
                 with_cut_points=cuts)
        shadows = [e.coords for e in g.shadow_elements]
        lo, hi = extent or (XMIN, XMAX)
        b = [(q.x, q.y) for q in p.boundary]
        for (px, py), w in zip(b, (lo, hi)):
            h.eq('extent of the ground', px, w)
            h.eq('extent of the ground', py, yg)
        h.true('one ground segment', len(p.list_segments) == 1)
        seg = p.list_segments[0]
        A = seg.shaded_collection.list_surfaces
        Z = seg.illum_collection.list_surfaces
        h.true('shading of the collections',
               all(s.shaded for s in A) and not any(s.shaded for s in Z))
        if cuts:
            want_il = il
        else:
            want_il = [e.coords for e in g.illum_elements]
        want_il = [s for s in want_il if sized(h, s, t)]
        h.true('illuminated surfaces', len(Z) == len(want_il))
        for a, s in zip(Z, want_il):
            if cuts:
                one(h, 'illuminated ground', a, s, t)
            else:
                h.eq('illuminated ground: parameter',
                     a.get_param('q'), pi['q'][t])
            for (px, py), q in zip(pts(a), (s.b1, s.b2)):
                h.eq('illuminated ground: end point', px, q.x[t])
                h.eq('illuminated ground: end point', py, q.y[t])
        if not (merge and k == 'o'):
            src = sh if cuts else [e.coords for e in g.shadow_elements]
            src = [s for s in src if sized(h, s, t)]
            h.true('shaded surfaces', len(A) == len(src))
            for a, s in zip(A, src):
                if cuts:
                    one(h, 'shaded ground', a, s, t)
                for (px, py), q in zip(pts(a), (s.b1, s.b2)):
                    h.eq('shaded ground: end point', px, q.x[t])
                    h.eq('shaded ground: end point', py, q.y[t])
        else:
            merged(h, g, A, shadows, cuts, t, v, m)
        if not cuts:
            for a in A:
                h.eq('shaded ground: parameter', a.get_param('q'),
                     ps['q'][t])
        tot = sum([s.length[t] for s in shadows], 0)
        h.eq('shaded length of the ground', seg.shaded_length, tot)
        h.eq('length of the ground', p.length, XMAX - XMIN)


def merged(h, g, A, sh, cuts, t, v, m):
    """the union of the shadows, split at the cut points only"""
    ok = [s for s in sh if sized(h, s, t)]
    if not ok:
        h.true('nothing shaded', len(A) == 0)
        return
    lo, hi = ok[0].b1.x[t], ok[-1].b2.x[t]
    ends = [pts(a) for a in A]
    h.true('union of the shadows is not empty', len(A) >= 1)
    h.eq('merged shadows start', ends[0][0][0], lo)
    h.eq('merged shadows end', ends[-1][1][0], hi)
    for p, q in zip(ends, ends[1:]):
        h.eq('merged shadows: no gap and no overlap', p[1][0], q[0][0])
    inner = [p[1][0] for p in ends[:-1]]
    for p in ends:
        h.le('merged shadows: left to right', p[0][0], p[1][0])
        for k in (0, 1):
            h.eq('merged shadows on the ground', p[k][1], g.y_ground)
    if not cuts:
        h.true('without cut points: one shadow', len(A) == 1)
        return
    for e in inner:
        h.true('merged shadows are split at cut points only', h.or_(*[
            h.abs(e - v['c', i, t]) <= 1e-6 for i in range(m)]))


def scenarios(tier):
    out = []
    for steps, cf, cb, shade in (
            ('LR', 1, 1, [(0, 1), (1, 0)]), ('FL', 2, 1, [(0, 0), (2, 1)]),
            ('RL', 1, 2, [(1, 1), (0, 2)]), ('LFR', 1, 1, [(0, 0), (0, 0),
                                                           (1, 1)]),
            ('Ll', 2, 2, [(1, 2), (1., 0)]), ('LR', 3, 2, [(2, 0), (1., 1)]),
            ('RL', 2, 3, [(2., 3.), (1, 2)]), ('RR', 1, 1, [(1., 1), (0, 1)]),
            ('LL', 4, 3, [(3, 1.), (2., 3)]), ('LRF', 2, 2, [
                (1, 1), (2, 1.), (0, 0)])):
        out.append({'name': 'rows-%s-%d-%d' % (steps, cf, cb),
                    'fn': rows, 'kw': dict(steps=steps, cf=cf, cb=cb,
                                           shade=shade)})
    G = [(1, 1, ['a0 b0 C0']), (1, 1, ['a0 C0 b0', 'C0 a0 b0']),
         (1, 2, ['a0 C0 C1 b0']), (1, 1, ['a0=b0 C0', 'a0 b0=C0']),
         (2, 1, ['a0 b0 a1 C0 b1']), (2, 1, ['a0 a1 C0 b1']),
         (2, 1, ['a0 C0 a1 b1', 'a0 a1 b1 C0']), (2, 2, ['a0 C0 a1 C1 b1']),
         (2, 2, ['a0 C0 C1 a1 b1', 'C0 a0 a1 b1 C1']),
         (2, 1, ['a0 b0=a1 C0 b1', 'a0 C0 a1 b1']),
         (3, 1, ['a0 a1 C0 a2 b2']), (3, 2, ['a0 C0 a1 a2 C1 b2']),
         (3, 2, ['a0 b0 C0 a1 b1 C1 a2 b2', 'C0 C1 a0 a1 a2 b2']),
         (3, 3, ['a0 C0 a1 C1 a2 C2 b2', 'a0 b0 C0 C1 a1 b1 a2 C2 b2']),
         (2, 1, ['a0 L b0 C0 a1 b1 R']), (2, 1, ['a0 b0 L C0 a1 R b1']),
         (2, 1, ['C0 a0 L a1 b1 R', 'L a0 a1 R b1 C0']),
         (2, 2, ['L a0 C0 a1 C1=b1 R', 'L a0 b0 R C0 a1 b1 C1']),
         (3, 1, ['a0 a1 L a2 C0 b2 R', 'L a0 R a1 a2 b2 C0'])]
    for i, (n, m, orders) in enumerate(G):
        for merge in (True, False):
            for cuts in (True, False):
                out.append({'name': 'ground%d-%s-%s' % (
                    i, 'merge' if merge else 'nomerge',
                    'cut' if cuts else 'nocut'), 'fn': ground,
                    'kw': dict(n=n, m=m, orders=orders, merge=merge,
                               cuts=cuts, extent=(-7., 12.) if i % 2
                               else None)})
    for n, o in ((1, 'a0 b0'), (2, 'a0 b0 a1 b1'), (2, 'a0 a1 b1')):
        out.append({'name': 'ground-nocutpoints-' + o.replace(' ', ''),
                    'fn': ground, 'kw': dict(n=n, m=0, orders=[o, o],
                                             merge=True, cuts=False)})
    return out
