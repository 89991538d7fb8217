"""C02: segments and shaded / illuminated parts tile each row side."""

META = {
    'bounds': '1 row, 1-3 segments per side and 5 or 6 (thorough: 1-6), 1 time step; width 0.1-10 m, '
    'any centre, rotation [-89, 89] deg (and exactly 0), shaded length of '
    'each side anywhere in [0, width]; arbitrary point on the side',
    'outside': 'side points closer than 1e-5 m to a surface boundary',
    'assumptions': [],
}


def tile(h, tilt, cf, cb, which):
    import numpy as np
    from pvfactors.geometry.pvrow import TsPVRow
    r = h.real('r', 0.05, 5)
    w = 2 * r
    cx = h.real('cx', -50, 50)
    cy = h.real('cy', 0.1, 20)
    if tilt == 'flat':
        rot = np.array([-0.0])
        c, s = 1, 0
    else:
        t = h.angle('tilt', 0, 89, strict=True)
        c, s = h.cosd(t), h.sind(t)
        if tilt == 'R':
            s = -s
        rot = h.arr([t if tilt == 'L' else -t])
    sf, sb = h.real('sf', 0, 10), h.real('sb', 0, 10)
    h.assume(sf <= w)
    h.assume(sb <= w)
    u = h.real('u', -5, 5)
    h.assume(u <= r)
    h.assume(-u <= r)
    row = TsPVRow.from_raw_inputs(
        (cx, cy), w, rot, {'front': cf, 'back': cb}, h.arr([sf]),
        h.arr([sb]), index=0, param_names=['q'])
    e = 1e-5
    for nm, side, cut, sl in (('front', row.front, cf, sf),
                              ('back', row.back, cb, sb)):
        if nm != which:
            continue
        if tilt == 'flat':
            sl = 0
        h.true('%s: number of segments' % nm, len(side.list_segments) == cut)
        # the lower edge: left end when tilted to the left
        dist_low = (u + r) if tilt != 'R' else (r - u)
        n_sh, n_il, n_seg = 0, 0, 0
        near = []
        tot_sh, tot = 0, 0
        for i, seg in enumerate(side.list_segments):
            q = [((p.x[0] - cx) * c + (p.y[0] - cy) * s,
                  -(p.x[0] - cx) * s + (p.y[0] - cy) * c)
                 for p in (seg.coords.b1, seg.coords.b2)]
            h.eq('%s: segment %d on row' % (nm, i), q[0][1], 0)
            h.eq('%s: segment %d on row' % (nm, i), q[1][1], 0)
            h.eq('%s: segment %d starts' % (nm, i), q[0][0],
                 -r + i * (w / cut))
            h.eq('%s: segment %d ends' % (nm, i), q[1][0],
                 -r + (i + 1) * (w / cut))
            h.eq('%s: segment %d length' % (nm, i), h.force(seg.length[0]), w / cut)
            for coll in (seg.illum, seg.shaded):
                for k, sf_ in enumerate(coll.list_ts_surfaces):
                    h.true('%s: flag of surface' % nm,
                           bool(sf_.shaded) == (coll is seg.shaded))
                    x1, y1 = h.force(sf_.b1.x[0]), h.force(sf_.b1.y[0])
                    x2, y2 = h.force(sf_.b2.x[0]), h.force(sf_.b2.y[0])
                    a = (x1 - cx) * c + (y1 - cy) * s
                    b = (x2 - cx) * c + (y2 - cy) * s
                    h.eq('%s: surface on row' % nm,
                         -(x1 - cx) * s + (y1 - cy) * c, 0)
                    h.eq('%s: surface on row' % nm,
                         -(x2 - cx) * s + (y2 - cy) * c, 0)
                    inn = h.or_(h.and_(a + e < u, u + e < b),
                                h.and_(b + e < u, u + e < a))
                    near += [h.abs(u - a) <= 2 * e, h.abs(u - b) <= 2 * e]
                    p = h.pick(inn)
                    if sf_.shaded:
                        n_sh += p
                        tot_sh = tot_sh + h.force(sf_.length[0])
                    else:
                        n_il += p
                    tot = tot + h.force(sf_.length[0])
        if n_sh + n_il == 0:
            h.true('%s: every point lies on a surface' % nm, h.or_(*near))
        else:
            h.true('%s: point on one surface only' % nm, n_sh + n_il == 1)
        if n_sh:
            h.le('%s: shade starts at the lower edge' % nm, dist_low, sl)
        if n_il:
            h.le('%s: rest is illuminated' % nm, sl, dist_low)
        h.eq('%s: shaded length' % nm, tot_sh, sl)
        h.eq('%s: shaded length property' % nm, h.force(side.shaded_length[0]), sl)
        h.eq('%s: total length' % nm, tot, w)
        h.eq('%s: length property' % nm, h.force(side.length[0]), w)


def scenarios(tier):
    out = []
    cuts = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    for tilt in ('L', 'R', 'flat'):
        for which in ('front', 'back'):
            for cut in cuts:
                cf, cb = (cut, 1) if which == 'front' else (1, cut)
                out.append({'name': 'tile-%s-%s-%d' % (tilt, which, cut),
                            'fn': tile,
                            'kw': dict(tilt=tilt, cf=cf, cb=cb, which=which),
                            'opts': dict(check_timeout=15, mode='ite')})
    for tilt, which, cut in (('L', 'front', 6), ('R', 'back', 5)):
        out.append({'name': 'many-%s-%s-%d' % (tilt, which, cut), 'fn': tile,
                    'kw': dict(tilt=tilt, which=which,
                               cf=cut if which == 'front' else 2,
                               cb=cut if which == 'back' else 2),
                    'opts': dict(check_timeout=15, mode='ite')})
    return out
