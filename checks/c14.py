"""C14: view factors with angle dependent absorption are integrals over the
wedge under which the other surface is seen."""
import math

import numpy as np

from .vf import (bounds_text, OUTSIDE, cut_layouts, three_rows, shallow_rows, fixture,
                 layouts, ite, PROBE, kinds, looks_left, lower_edge)

META = {
    'bounds': bounds_text() + '; arbitrary absorption values in [0, 1] of '
    'every angle section, front and back different; 2, 3 or 4 sections of '
    'the half circle (thorough: also 6)',
    'outside': OUTSIDE,
    'assumptions': ['a row surface is seen from its centroid (documented '
                    'approximation of the implementation)',
                    'the shadow positions are free variables; which '
                    'positions a sun position gives is decided by C05'],
}


def fns(h, N):
    val = {}
    out = []
    for nm in ('front', 'back'):
        # the same on both sides of the normal
        half = [h.real('%s%d' % (nm, k), 0, 1) for k in range((N + 1) // 2)]
        val[nm] = [half[min(k, N - 1 - k)] for k in range(N)]
        out.append(lambda angles, nm=nm: h.arr(val[nm]))
    return val, out


def angle_seen(h, s, u, p):
    """angle between the plane of a surface (direction u) and the direction
    from its centroid to a point"""
    ux, uy = u
    mx = (s.b1.x[0] + s.b2.x[0]) / 2
    my = (s.b1.y[0] + s.b2.y[0]) / 2
    vx, vy = p[0] - mx, p[1] - my
    cs = (ux * vx + uy * vy) / h.dist(0, 0, vx, vy)
    return h.acosd(cs)


def compare(h, name, F, cw):
    """cw: (no direction on the limit of a section, expected value)"""
    h.implies_eq(name, cw[0], F, cw[1])


def wedge(h, s, u, p, q, w, f):
    """integral of the absorption over the directions between p and q"""
    a, b = angle_seen(h, s, u, p), angle_seen(h, s, u, q)
    sw = a < b
    lo, hi = h.where(sw, a, b), h.where(sw, b, a)
    N = len(w)
    tot = 0
    clear = []
    for k in range(1, N):
        for x in (a, b):
            clear.append(h.or_(x <= 180. * k / N - 1e-6,
                               x >= 180. * k / N + 1e-6))
    for k in range(N):
        inside = h.and_(lo <= 180. * (k + 1) / N, hi > 180. * k / N)
        tot = tot + h.where(inside, w[k] * f[k], 0)
    return (h.and_(*clear) if clear else True,
            h.where(h.abs(hi - lo) < 1e-8, 0, tot))


def factors(h, N, raised=False, **kw):
    from pvfactors.viewfactors import VFCalculator
    if raised:
        kw['y_ground'] = h.real('ground', -50, 50)
    yg = kw.get('y_ground', 0)
    g = fixture(h, **kw)
    val, (ff, fb) = fns(h, N)
    calc = VFCalculator(faoi_fn_front=ff, faoi_fn_back=fb,
                        n_aoi_integral_sections=N)
    calc.fit(1)
    n = len(g.L)
    what = kinds(g)
    tilt = kw['tilt']

    def sees(i, j):
        if i == n or j == n or what[i][0] == 'gnd' or what[j][0] == 'gnd':
            return True
        nb = what[i][2] + (-1 if looks_left(tilt, what[i][3]) else 1)
        return what[j][2] == nb and what[j][3] != what[i][3]
    # pairs of row surfaces that do not face each other have none (C12)
    base = [[h.real('vf_%d_%d' % (i, j), 0, 1) if sees(i, j) else 0.
             for j in range(n + 1)] for i in range(n + 1)]
    calc.vf_matrix = h.arr([[[x] for x in row] for row in base])
    rho = h.arr([[[h.real('rho_%d' % i, 0, 1)] for j in range(n + 1)]
                 for i in range(n + 1)])
    with ite(h):
        out = calc.build_ts_vf_aoi_matrix(g.arr, rho)
    e = [math.cos(math.radians(180. * k / N)) for k in range(N + 1)]
    w = [(e[k] - e[k + 1]) / 2 for k in range(N)]
    long_ = [h.pick(L >= 1e-6) for L in g.L]
    tops = []
    for k in range(g.n):
        sg = 1 if tilt == 'L' else -1
        tops.append((g.cx[k] + sg * g.r * g.c, yg + g.h + sg * g.r * g.s))
    with ite(h):
        for i in range(n + 1):
            for j in range(n + 1):
                h.eq('view factors without losses are kept',
                     calc.vf_matrix[i, j, 0], base[i][j])
                if i == n or what[i][0] == 'gnd':
                    h.eq('rows of ground and sky are kept', out[i, j, 0],
                         base[i][j])
                    continue
                a = what[i]
                s, k = a[1], a[2]
                f = val[a[3]]
                F = out[i, j, 0]
                # the outward normal turned to the left
                u = (-g.c, -g.s) if a[3] == 'front' else (g.c, g.s)
                left = looks_left(tilt, a[3])
                nb = k - 1 if left else k + 1
                inner = 0 <= nb < g.n
                if j == n:
                    if not long_[i]:
                        h.eq('empty surfaces do not see the sky', F, 0)
                        continue
                    far = (tops[nb] if inner else
                           (-100 if left else 100, yg))
                    p, q = (far, tops[k]) if left else (tops[k], far)
                    compare(h, 'row to sky = absorbed part of the open wedge',
                            F, wedge(h, s, u, p, q, w, f))
                    continue
                b = what[j]
                if b[0] == 'gnd':
                    t = b[1]
                    c = g.pos['C%d' % k]
                    if not long_[i] or not long_[j]:
                        h.eq('nothing to or from empty surfaces', F, 0)
                        continue
                    on = h.pick(t.b2.x[0] <= c) if left \
                        else h.pick(t.b1.x[0] >= c)
                    if not on:
                        h.eq('ground behind the surface is not seen', F, 0)
                        continue
                    ps = []
                    for b_ in (t.b1, t.b2):
                        p = (b_.x[0], yg)
                        if inner:
                            o = lower_edge(g, nb)
                            o = (o[0], o[1] + yg)
                            mx = (s.b1.x[0] + s.b2.x[0]) / 2
                            my = (s.b1.y[0] + s.b2.y[0]) / 2
                            cr = ((o[0] - p[0]) * (my - yg)
                                  - (o[1] - yg) * (mx - p[0]))
                            hit = (cr > 0) if left else (cr < 0)
                            p = (h.where(hit, o[0], p[0]),
                                 h.where(hit, o[1], p[1]))
                        ps.append(p)
                    compare(h, 'row to ground = absorbed part of the visible '
                            'wedge', F, wedge(h, s, u, ps[0], ps[1], w, f))
                else:
                    if not sees(i, j):
                        h.eq('no view of other rows and sides', F, 0)
                        continue
                    t = b[1]
                    if not long_[i] or not long_[j]:
                        h.eq('nothing to or from empty surfaces', F, 0)
                        continue
                    compare(h, 'row to row = absorbed part of the wedge', F,
                            wedge(h, s, u, (t.b1.x[0], t.b1.y[0]),
                               (t.b2.x[0], t.b2.y[0]), w, f))


def diffuse(h, **kw):
    """no absorption functions: all losses are diffuse"""
    from pvfactors.viewfactors import VFCalculator
    g = fixture(h, **kw)
    calc = VFCalculator()
    calc.fit(1)
    n = len(g.L)
    base = [[h.real('vf_%d_%d' % (i, j), 0, 1) for j in range(n + 1)]
            for i in range(n + 1)]
    rho = [h.real('rho_%d' % i, 0, 1) for i in range(n + 1)]
    calc.vf_matrix = h.arr([[[x] for x in row] for row in base])
    out = calc.build_ts_vf_aoi_matrix(
        g.arr, h.arr([[[rho[i]] for j in range(n + 1)]
                      for i in range(n + 1)]))
    h.true('shape', tuple(np.shape(out)) == (n + 1, n + 1, 1))
    for i in range(n + 1):
        for j in range(n + 1):
            h.eq('view factors without losses are kept',
                 calc.vf_matrix[i, j, 0], base[i][j])
            h.eq('diffuse losses: (1 - reflectivity) x view factor',
                 out[i, j, 0], (1 - rho[i]) * base[i][j])


def scenarios(tier):
    out = [{'name': 'diffuse-' + nm, 'fn': diffuse, 'kw': kw}
           for nm, kw in layouts('quick', ns=(1,))]
    for x, (nm, kw) in enumerate(layouts(tier) + cut_layouts(tier)
                                 + three_rows(tier, False)[
                                     1:2 if tier == 'quick' else None]
                                 + shallow_rows(tier)[::3]):
        if kw['n'] == 3:
            kw.pop('fix')
        Ns = (2,) if kw['n'] == 3 else ((3, 2, 4)[x % 3],) if tier == 'quick' else (2, 3, 4, 6)
        for N in Ns:
            out.append({'name': 'N%d-%s' % (N, nm), 'fn': factors,
                        'kw': dict(N=N, **kw), 'opts': PROBE})
    for nm, kw in layouts('quick')[1::9 if tier == 'quick' else 2]:
        out.append({'name': 'raised-N3-' + nm, 'fn': factors,
                    'kw': dict(N=3, raised=True, **kw), 'opts': PROBE})
    return out
