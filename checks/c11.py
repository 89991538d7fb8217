"""C11: view factors add up to one and connect only what can be seen."""
from .steps import Ordered
from .vf import (bounds_text, OUTSIDE, cut_layouts, three_rows, shallow_rows, fixture,
                 matrix, layouts, ite, PROBE, kinds, looks_left)

ASSUME = ['the shadow positions are free variables; which positions a '
          'sun position gives is decided by C05']

META = {
    'bounds': bounds_text(),
    'outside': OUTSIDE,
    'assumptions': ASSUME,
}


def closure(h, **kw):
    g = fixture(h, **kw)
    vf = matrix(h, g)
    n = len(g.L)
    long_ = [h.pick(L >= 1e-6) for L in g.L]
    h.true('one entry per pair of surfaces and the sky',
           vf.shape == (n + 1, n + 1, 1))
    h.true('the matrix is kept for later use',
           g.calc.vf_matrix is not None
           and g.calc.vf_matrix.shape == vf.shape)
    with ite(h):
        for i in range(n):
            h.eq('kept matrix is the one returned',
                 g.calc.vf_matrix[i, n, 0], vf[i, n, 0])
            tot = vf[i, n, 0]
            for j in range(n):
                tot = tot + vf[i, j, 0]
            if long_[i]:
                h.eq('view factors of a surface add up to one', tot, 1)
            else:
                h.eq('an empty surface sees nothing', tot, 0)
                h.eq('an empty surface does not see the sky', vf[i, n, 0], 0)
            h.eq('a surface does not see itself', vf[i, i, 0], 0)
        for j in range(n + 1):
            h.eq('nothing leaves from the sky', vf[n, j, 0], 0)


def several(h, n, steps, orders=None, fix=None):
    """closure at every step of several"""
    from pvfactors.viewfactors.calculator import VFCalculator
    T = len(steps)
    c = Ordered(h, n, steps, orders, fix=fix)
    arr = c.array(h, list(range(T)))
    calc = VFCalculator()
    with ite(h):
        vf = calc.build_ts_vf_matrix(arr)
    m = len(arr.all_ts_surfaces)
    h.true('one entry per pair of surfaces and the sky per step',
           vf.shape == (m + 1, m + 1, T))
    with ite(h):
        for t in range(T):
            for i, s in enumerate(arr.all_ts_surfaces):
                tot = vf[i, m, t]
                for j in range(m):
                    tot = tot + vf[i, j, t]
                if h.pick(s.length[t] >= 1e-6):
                    h.eq('view factors of a surface add up to one (several '
                         'steps)', tot, 1)
                else:
                    h.eq('an empty surface sees nothing (several steps)',
                         tot, 0)
                    h.eq('an empty surface does not see the sky (several '
                         'steps)', vf[i, m, t], 0)
            for j in range(m + 1):
                h.eq('nothing leaves from the sky', vf[m, j, t], 0)


def bounds(h, **kw):
    """edge rows looking away from the array: nothing in between"""
    g = fixture(h, **kw)
    vf = matrix(h, g)
    n = len(g.L)
    what = kinds(g)
    long_ = [h.pick(L >= 1e-6) for L in g.L]
    out = []
    with ite(h):
        for i in range(n):
            a = what[i]
            if a[0] != 'row' or not long_[i]:
                continue
            left = looks_left(kw['tilt'], a[3])
            for j in range(n):
                b = what[j]
                if not long_[j]:
                    continue
                if b[0] == 'gnd':
                    if a[2] != (0 if left else g.n - 1):
                        continue
                elif a[3] == b[3] or b[2] != a[2] + (-1 if left else 1):
                    continue
                p = [(s.b1.x[0], s.b1.y[0]) for s in (a[1], b[1])]
                q = [(s.b2.x[0], s.b2.y[0]) for s in (a[1], b[1])]
                out.append((vf[i, j, 0], g.L[i], p, q))
    for F, L, p, q in out:
        # triangle inequality (fact about the plane)
        d = [[h.dist(*u, *v) for v in (p[1], q[1])] for u in (p[0], q[0])]
        own = h.dist(*p[0], *q[0])
        h.set_lemmas([c for k in (0, 1) for c in
                      (d[0][k] <= own + d[1][k], d[1][k] <= own + d[0][k])])
        h.ge('view factor is not negative', F * L, 0)
        h.le('view factor is at most one', F * L, L)


def scenarios(tier):
    out = [{'name': nm, 'fn': closure, 'kw': kw, 'opts': PROBE}
           for nm, kw in layouts(tier) + cut_layouts(tier)
            + three_rows(tier) + shallow_rows(tier)]
    # shading at one step and not at the other, flat and tilted rows, ...
    one = [('lL', 'a0 b0 C0'), ('rR', 'C0 a0 b0'), ('FN', 'a0 b0'),
           ('lR', 'a0 C0 b0'), ('rN', 'a0 b0 C0')]
    # the other step has given positions
    given = [('FN', {'a0': 3., 'b0': 3., 'a1': 9., 'b1': 9.}),
             ('FN', {'a0': 1., 'b0': 2., 'a1': 9., 'b1': 9.})]
    two = [('FN', 'a0 b0 a1 b1')]
    for n, o in ((1, one), (2, two)):
        for i, u in enumerate(o):
            for j, v in enumerate(o if n == 1 else given):
                if n == 2 or i != j and (tier != 'quick'
                                         or (j - i) % 5 in (1, 3)):
                    out.append({'name': 'steps-n%d-%d%d' % (n, i, j),
                                'fn': several, 'opts': PROBE,
                                'kw': dict(n=n, steps=[u[0], v[0]],
                                           orders=[u[1], v[1]],
                                           fix=(1., 4., 1.5)
                                           if n > 1 else None)})
    out += [{'name': 'bounds-' + nm, 'fn': bounds, 'kw': kw, 'opts': PROBE}
            for nm, kw in layouts(tier) if kw['sun'] == 'noon']
    return out
