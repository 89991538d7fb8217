"""C25: what a side, segment, ground or row reports is the length-weighted
sum of its surfaces."""
import math

import numpy as np

from .vf import ORDERS, TOUCH, fixture, ite, PROBE

META = {
    'bounds': '1-2 rows of any width, tilt, height and spacing, sides of 1-3 '
    'segments, shaded and lit, ground with any shadow positions in the listed '
    'orders; arbitrary parameter values; 1 time step (2 with concrete '
    'geometry)',
    'outside': 'ratios over a total length below 1e-3 m',
    'assumptions': [],
}


def lengths(h, surfaces, t):
    out = []
    for s in surfaces:
        c = (s.b1.x[t], s.b1.y[t], s.b2.x[t], s.b2.y[t])
        if all(isinstance(v, (int, float)) for v in c):
            out.append(math.hypot(c[0] - c[2], c[1] - c[3]))
        else:
            out.append(h.dist(*c))
    return out


def rowside(side):
    return [s for sg in side.list_segments for c in (sg.illum, sg.shaded)
            for s in c.list_ts_surfaces]


def groups(arr):
    """(name, object, its surfaces, its shaded surfaces)"""
    out = []
    for k, r in enumerate(arr.ts_pvrows):
        for nm, sd in (('front', r.front), ('back', r.back)):
            out.append(('row %s' % nm, sd, rowside(sd),
                        [s for sg in sd.list_segments
                         for s in sg.shaded.list_ts_surfaces]))
            for sg in sd.list_segments:
                out.append(('segment', sg, sg.illum.list_ts_surfaces
                            + sg.shaded.list_ts_surfaces,
                            sg.shaded.list_ts_surfaces))
                for c in (sg.illum, sg.shaded):
                    out.append(('collection', c, c.list_ts_surfaces, None))
    g = arr.ts_ground
    sh = [s for e in g.shadow_elements for s in e.surface_list]
    il = [s for e in g.illum_elements for s in e.surface_list]
    out.append(('ground', g, sh + il, sh))
    out.append(('lit ground', g.illum, il, None))
    out.append(('shaded ground', g.shaded, sh, None))
    for e in list(g.shadow_elements) + list(g.illum_elements):
        out.append(('ground element', e, e.surface_list, None))
    return out


def concrete(T, n, cut):
    from pvfactors.geometry.pvarray import OrderedPVArray
    arr = OrderedPVArray.init_from_dict(
        {'axis_azimuth': 0., 'gcr': .6, 'pvrow_height': 1.5, 'n_pvrows': n,
         'pvrow_width': 2., 'cut': cut or {}})
    arr.fit(np.array([70., 50., 80.][:T]), np.array([90., 270., 90.][:T]),
            np.array([50., 10., 60.][:T]), np.array([90., 270., 270.][:T]))
    return arr


def weighted(h, kind, T=1, **kw):
    if kind == 'concrete':
        arr = concrete(T, **kw)
    else:
        arr = fixture(h, **kw).arr
    vals = {}
    for s in arr.all_ts_surfaces:
        v = [h.real('p%d_%d' % (s.index, t), -1e3, 1e3) for t in range(T)]
        vals[s.index] = v
        s.update_params({'p': h.arr(v), 'c': h.arr([7.] * T)})
    with ite(h):
        for t in range(T):
            for nm, o, surf, sh in groups(arr):
                L = lengths(h, surf, t)
                tot = 0
                ww = 0
                for s, x in zip(surf, L):
                    tot = tot + x
                    ww = ww + x * vals[s.index][t]
                h.eq('%s: weighted sum over the surfaces' % nm,
                     o.get_param_ww('p')[t], ww, 1e-4)
                # a length is the sum of the lengths
                h.eq('%s: total length' % nm, o.length[t], tot)
                if sh is not None:
                    x = 0
                    for y in lengths(h, sh, t):
                        x = x + y
                    z = o.shaded_length
                    h.eq('%s: shaded length' % nm,
                         z if isinstance(z, (int, float)) else z[t], x)
                big = tot >= 1e-3
                if isinstance(tot, float) and not tot >= 1e-3:
                    continue
                if not h.pick(big):
                    continue
                h.eq('%s: average x length = weighted sum' % nm,
                     o.get_param_weighted('p')[t] * tot, ww, 1e-4)


def update(h, n, cut, T=2):
    """updating a part of the array touches its surfaces and no others"""
    arr = concrete(T, n, cut)
    g = arr.ts_ground
    todo = groups(arr)
    for k, r in enumerate(arr.ts_pvrows):
        todo.append(('row', r, rowside(r.front) + rowside(r.back), None))
    allof = arr.all_ts_surfaces
    h.true('surfaces are numbered in order without gaps or repetition',
           [s.index for s in allof] == list(range(len(allof)))
           and list(arr.ts_surface_indices) == list(range(len(allof)))
           and arr.n_ts_surfaces == len(allof))
    h.true('every surface belongs to one row side or to the ground',
           sorted(s.index for nm, o, surf, _ in todo
                  if nm in ('row', 'ground') for s in surf)
           == list(range(len(allof))))
    todo.append(('array', arr, allof, None))
    i = 0
    for nm, o, surf, _ in todo:
        if nm == 'ground element' or not hasattr(o, 'update_params'):
            continue
        i += 1
        x = h.real('x%d' % i, -10, 10)
        v = h.arr([x] * T)
        for s in allof:
            s.params['q'] = h.arr([1e5] * T)
        o.update_params({'q': v})
        mine = set(s.index for s in surf)
        for s in allof:
            for t in range(T):
                h.eq('%s: update reaches its surfaces only' % nm,
                     s.get_param('q')[t], x if s.index in mine else 1e5)
    for nm, fn, surf in (
            ('lit ground', g.update_illum_params, todo[-1][2] and [
                s for e in g.illum_elements for s in e.surface_list]),
            ('shaded ground', g.update_shaded_params, [
                s for e in g.shadow_elements for s in e.surface_list])):
        x = h.real(nm.replace(' ', '_'), -10, 10)
        for s in allof:
            s.params['q'] = h.arr([1e5] * T)
        fn({'q': h.arr([x] * T)})
        mine = set(s.index for s in surf)
        for s in allof:
            for t in range(T):
                h.eq('%s: update reaches its surfaces only' % nm,
                     s.get_param('q')[t], x if s.index in mine else 1e5)


def report(h, n, cut, T, how):
    """the example report holds the averages of the middle row, step by
    step"""
    from pvfactors.report import ExampleReportBuilder, example_fn_build_report
    arr = concrete(T, n, cut)
    vals = {}
    for s in arr.all_ts_surfaces:
        vals[s.index] = {k: [h.real('%s%d_%d' % (k, s.index, t), 0, 1e3)
                             for t in range(T)]
                         for k in ('qinc', 'isotropic')}
        s.update_params({k: h.arr(v) for k, v in vals[s.index].items()})
    rep = (ExampleReportBuilder.build if how == 'class'
           else example_fn_build_report)(arr)
    for key, k, side in (('qinc_front', 'qinc', 'front'),
                         ('qinc_back', 'qinc', 'back'),
                         ('iso_front', 'isotropic', 'front'),
                         ('iso_back', 'isotropic', 'back')):
        surf = rowside(getattr(arr.ts_pvrows[1], side))
        h.true('example report: one number per step',
               isinstance(rep[key], list) and len(rep[key]) == T)
        for t in range(T):
            L = lengths(h, surf, t)
            ww = 0
            for s, x in zip(surf, L):
                ww = ww + x * vals[s.index][k][t]
            h.eq('example report: %s' % key, rep[key][t] * sum(L), ww, 1e-4)


def scenarios(tier):
    out = []
    for n, T, how, c in ((2, 1, 'class', {1: {'back': 2}}),
                         (3, 2, 'fn', {1: {'front': 2}}),
                         (3, 3, 'class', None)):
        out.append({'name': 'report-n%d-T%d' % (n, T), 'fn': report,
                    'kw': dict(n=n, T=T, how=how, cut=c)})
    cut = {0: {'front': 2, 'back': 3}, 1: {'back': 2}}
    for n in (1, 2, 3):
        for T in (1, 2):
            c = {k: v for k, v in cut.items() if k < n}
            out.append({'name': 'concrete-n%d-T%d' % (n, T), 'fn': weighted,
                        'kw': dict(kind='concrete', n=n, T=T, cut=c)})
            out.append({'name': 'update-n%d-T%d' % (n, T), 'fn': update,
                        'kw': dict(n=n, T=T, cut=c)})
    lay = [('L', ORDERS[2][1], 'noon', None), ('R', ORDERS[2][3], 'noon',
                                               {0: {'back': 2}}),
           ('L', TOUCH[2][0], 'normal', {1: {'front': 2}}),
           ('R', TOUCH[2][1], 'normal', None)]
    if tier == 'thorough':
        lay += [(a, o, 'noon', None) for a in 'LR' for o in ORDERS[2]]
    for i, (tilt, order, sun, c) in enumerate(lay):
        out.append({'name': 'any%d-%s-%s' % (i, tilt, order.replace(' ', '')),
                    'fn': weighted,
                    'kw': dict(kind='any', n=2, tilt=tilt, order=order,
                               sun=sun, cut=c), 'opts': PROBE})
    return out
