"""C13: the view factors of the fast mode are those of the full mode."""
from .vf import (bounds_text, OUTSIDE, three_rows, shallow_rows, fixture, layouts, ite, PROBE, looks_left, ends, lower_edge,
                 strings_to_ground, string)

ASSUME = ['the shadow positions are free variables; which positions a '
          'sun position gives is decided by C05']

META = {
    'bounds': bounds_text(),
    'outside': OUTSIDE,
    'assumptions': ASSUME,
}


class _Line(object):
    def __init__(self, coords):
        self.b1, self.b2 = coords.b1, coords.b2


def fast(h, row, **kw):
    g = fixture(h, **kw)
    from pvfactors.viewfactors import VFCalculator
    calc = VFCalculator()
    calc.fit(1)
    arr = g.arr
    n, tilt = g.n, kw['tilt']
    left = looks_left(tilt, 'back')
    side = arr.ts_pvrows[row].back
    els = list(side.list_segments)
    els += [s for s in side.all_ts_surfaces]
    nb = row - 1 if left else row + 1
    edge = not (0 <= nb < n)
    own = lower_edge(g, row)
    o = None if edge else lower_edge(g, nb)
    for el in els:
        L = el.length[0]
        h.assume(h.or_(L >= 1e-6, L <= 0))
        if not h.pick(L >= 1e-6):
            continue
        line = _Line(el.coords)
        with ite(h):
            vf = calc.get_vf_ts_pvrow_element(
                row, el, arr.ts_pvrows, arr.ts_ground, arr.rotation_vec,
                arr.width)
            hi, lo = ends(h, g, line)
            shaded = 0
            for k in range(n):
                a = g.pos['a%d' % k]
                b = g.pos.get('b%d' % k, g.pos.get('a%d' % (k + 1)))
                c = g.pos['C%d' % row]
                if h.symbolic:
                    # order of shadow and cut point is fixed by the scenario
                    p, q = (a, h.min(b, c)) if left else (h.max(a, c), b)
                else:
                    p, q = (a, min(b, c)) if left else (max(a, c), b)
                seen = h.pick(p < q)
                F = vf['to_each_gnd_shadow'][k][0]
                if seen:
                    w = strings_to_ground(h, g, line, row, left, (p, 0),
                                          (q, 0))
                    h.eq('back to shadow = crossed strings', 2 * L * F, w)
                else:
                    h.eq('shadow behind the row is not seen', F, 0)
                shaded = shaded + F
            h.eq('shaded ground = all shadows', vf['to_gnd_shaded'][0],
                 shaded)
            tot = vf['to_gnd_total'][0]
            if edge:
                # whole ground on that side of the row
                c = g.pos['C%d' % row]
                if left:
                    p, q = -100, h.min(100, c)
                else:
                    p, q = h.max(-100, c), 100
                w = strings_to_ground(h, g, line, row, left, (p, 0), (q, 0))
            else:
                # ground seen between the own plane and the next row
                w = h.abs(h.dist(*hi, *own) + h.dist(*lo, *o)
                          - h.dist(*hi, *o) - h.dist(*lo, *own))
            h.eq('back to ground = crossed strings', 2 * L * tot, w)
            h.eq('illuminated ground is the rest of the ground',
                 vf['to_gnd_illum'][0], tot - vf['to_gnd_shaded'][0])
            if edge:
                h.eq('no row to see', vf['to_pvrow_total'][0], 0)
                h.eq('no shaded row to see', vf['to_pvrow_shaded'][0], 0)
            else:
                # whole neighbor and the shaded part at its lower end
                x = g.cx[nb]
                up = (2 * x - o[0], 2 * g.h - o[1])
                d = arr.ts_pvrows[nb].front.shaded_length[0]
                s = d / g.w
                cut = (o[0] + s * (up[0] - o[0]), o[1] + s * (up[1] - o[1]))
                for top, F in ((up, vf['to_pvrow_total'][0]),
                               (cut, vf['to_pvrow_shaded'][0])):
                    w = h.abs(h.dist(*hi, *o) + h.dist(*lo, *top)
                              - h.dist(*hi, *top) - h.dist(*lo, *o))
                    h.eq('back to row = crossed strings', 2 * L * F, w)
            h.eq('illuminated row is the rest of the row',
                 vf['to_pvrow_illum'][0],
                 vf['to_pvrow_total'][0] - vf['to_pvrow_shaded'][0])
            h.eq('the sky is the rest',
                 vf['to_sky'][0] + tot + vf['to_pvrow_total'][0], 1)


def scenarios(tier):
    out = []
    for nm, kw in layouts(tier) + three_rows(tier, False) + shallow_rows(tier):
        for row in range(kw['n']):
            if kw['n'] == 3 and tier == 'quick' and row != 1:
                continue
            k = dict(kw, row=row, cut={row: {'back': 2}})
            out.append({'name': 'row%d-%s' % (row, nm), 'fn': fast, 'kw': k,
                        'opts': PROBE})
    return out
