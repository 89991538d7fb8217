"""C04: the ground surfaces tile the ground extent."""

META = {
    'bounds': '1-4 PV rows (shadow elements), 0-4 cut points, 1 time step; '
    'shadow edges, cut points, ground height and the tested ground point are '
    'arbitrary reals in [-1000, 1000]; ground extent as configured',
    'outside': 'floating point round-off; test points closer than 1e-3 m to '
    'a surface boundary',
    'assumptions': ['shadows are given ordered left to right; when the '
                    'overlap flag is false they do not overlap',
                    'cut points are ordered left to right'],
}


def build(h, n, m, overlap):
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsPointCoords
    from pvfactors.config import MIN_X_GROUND, MAX_X_GROUND
    B = 1000
    ls = [h.real('l%d' % i, -B, B) for i in range(n)]
    rs = [h.real('r%d' % i, -B, B) for i in range(n)]
    cs = [h.real('c%d' % i, -B, B) for i in range(m)]
    yg = h.real('yg', -5, 5)
    for i in range(n):
        h.assume(ls[i] <= rs[i])
    for i in range(n - 1):
        h.assume(ls[i] <= ls[i + 1])
        h.assume(rs[i] <= rs[i + 1])
    for i in range(m - 1):
        h.assume(cs[i] <= cs[i + 1])
    flag = None
    if overlap == 'none' or overlap == 'false':
        for i in range(n - 1):
            h.assume(rs[i] <= ls[i + 1])
        if overlap == 'false':
            flag = [False]
    else:
        flag = [True]
        for i in range(n - 1):
            h.assume(ls[i + 1] <= rs[i])
    if flag is not None:
        import numpy as np
        flag = np.array(flag)
    sc = h.arr([[[[ls[i]], [yg]], [[rs[i]], [yg]]] for i in range(n)])
    cuts = [TsPointCoords(h.arr([c]), h.arr([yg])) for c in cs]
    if m == 0:
        cuts = None
    g = TsGround.from_ordered_shadows_coords(
        sc, flag_overlap=flag, cut_point_coords=cuts, param_names=['q'],
        y_ground=yg)
    return g, ls, rs, cs, yg, MIN_X_GROUND, MAX_X_GROUND


def union_shadow(h, x, ls, rs):
    return h.or_(*[h.and_(l <= x, x <= r) for l, r in zip(ls, rs)])


def far(h, x, pts, d):
    for p in pts:
        h.assume(h.or_(x - p >= d, p - x >= d))


def tiles(h, n, m, overlap):
    g, ls, rs, cs, yg, xmin, xmax = build(h, n, m, overlap)
    x = h.real('x', xmin, xmax)
    far(h, x, ls + rs + cs + [xmin, xmax], 1e-3)
    surfs = g.all_ts_surfaces
    inside_s = 0
    inside_i = 0
    tot = 0
    for k, s in enumerate(surfs):
        b1, b2 = s.b1.x[0], s.b2.x[0]
        h.le('ordered%d' % k, b1, b2)
        h.le('in extent left %d' % k, xmin, b1)
        h.le('in extent right %d' % k, b2, xmax)
        h.eq('on ground b1 %d' % k, s.b1.y[0], yg)
        h.eq('on ground b2 %d' % k, s.b2.y[0], yg)
        inn = h.and_(b1 < x, x < b2)
        if s.shaded:
            inside_s = inside_s + h.where(inn, 1, 0)
        else:
            inside_i = inside_i + h.where(inn, 1, 0)
        tot = tot + s.length[0]
    h.eq('every ground point lies on exactly one surface',
         inside_s + inside_i, 1)
    h.eq('point is on shaded ground iff in a shadow', inside_s,
         h.where(union_shadow(h, x, ls, rs), 1, 0))
    h.eq('surface lengths add up to the extent', tot, xmax - xmin)
    h.eq('ground length', g.length[0], xmax - xmin)
    ns = sum(1 for s in surfs if s.shaded)
    h.true('collections match', len(g.shaded.list_ts_surfaces) == ns
           and len(g.illum.list_ts_surfaces) == len(surfs) - ns
           and g.n_ts_surfaces == len(surfs))
    sl = 0
    for s in surfs:
        if s.shaded:
            sl = sl + s.length[0]
    h.eq('shaded length', g.shaded_length[0], sl)
    # shadow elements themselves
    for i, el in enumerate(g.shadow_elements):
        h.le('el left', xmin, el.b1.x[0])
        h.le('el right', el.b2.x[0], xmax)
        tl = 0
        for s in el.all_ts_surfaces:
            tl = tl + s.length[0]
        h.eq('element is made of its surfaces', tl, el.length[0])


def scenarios(tier):
    out = []
    top = 3 if tier == 'quick' else 4
    for n in range(1, top + 1):
        for m in sorted({1, n, max(1, n - 1)}):
            for ov in ('none', 'false', 'true'):
                if ov == 'true' and n == 1:
                    continue
                out.append({'name': 'tiles-n%d-m%d-%s' % (n, m, ov),
                            'fn': tiles,
                            'kw': dict(n=n, m=m, overlap=ov),
                            'opts': dict(mode='ite', check_timeout=60)})
    return out
