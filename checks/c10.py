"""C10: view factors are reciprocal."""
from .vf import (bounds_text, OUTSIDE, cut_layouts, three_rows, shallow_rows, fixture,
                 matrix, layouts, ite, PROBE)

ASSUME = ['the shadow positions are free variables; which positions a '
          'sun position gives is decided by C05']

META = {
    'bounds': bounds_text(),
    'outside': OUTSIDE,
    'assumptions': ASSUME,
}


def recip(h, **kw):
    g = fixture(h, **kw)
    vf = matrix(h, g)
    k = len(g.L)
    h.true('matrix shape', vf.shape == (k + 1, k + 1, 1))
    with ite(h):
        for i in range(k):
            for j in range(i):
                h.eq('length x view factor is symmetric', g.L[i] * vf[i, j, 0],
                     g.L[j] * vf[j, i, 0])


def scenarios(tier):
    return [{'name': nm, 'fn': recip, 'kw': kw, 'opts': PROBE}
            for nm, kw in layouts(tier) + cut_layouts(tier)
            + three_rows(tier) + shallow_rows(tier)]
