"""W02: saving grids and reading them back, from one file or several."""
import itertools
import os

import numpy as np

import build
import common as C
import gridgen

JUDGE = 'JudgeGridFile'
GEN = ['GenGridFile']
SECONDS = 25
COUNT = itertools.count()
OFF = 135140        # days from 1600-01-01 to 1970-01-01


def models(tier):
    return [('MCGridFile', 'MCGridFile' if tier == 'quick' else 'MCGridFile_t')]


def around(pts, q):
    return len(pts) == 1 and abs(pts[0]) >= 360 * q or len(pts) > 1 and abs(abs(pts[1] - pts[0]) * len(pts) - 360 * q) <= 4


def random_cases(rng, tier):
    from itertools import islice
    n = 110 if tier == 'quick' else 2300
    yield from islice(mixed_cases(rng), n)
    yield from islice((c for c in mixed_cases(rng) if c['hadgem'] and c['split']['cuts']), n // 10)


def mixed_cases(rng):
    while True:
        q = 4
        axes = gridgen.grid(rng, q, extra=(0, 1, 1, 2), bounds=0.5)[0] if rng.random() < 0.8 else [gridgen.other_axis(rng, rng.choice(['time', 'altitude']), q, rng.choice([1, 3, 5]))]
        axes = [{'std': a['std'], 'pts': a['pts'], 'bnds': a.get('bnds', []), 'circ': 0} for a in axes]
        shape = [len(a['pts']) for a in axes]
        size = int(np.prod(shape))
        vs = []
        for name in rng.sample(['aod', 'num', 'T', 'w10'], rng.choice([1, 1, 2, 3])):
            p = rng.choice([0, 0, 0.3, 1])
            dt = rng.choice(['float64', 'float32', 'int32', 'int16'])
            vs.append({'name': name, 'std': {'T': 'air_temperature'}.get(name, ''), 'long': 'long ' + name, 'units': rng.choice(['1', 'K', 'kg m-3']),
                       'history': rng.choice(['', 'first\nthen', 'made']), 'dtype': dt, 'v': [rng.randint(-9, 99) for _ in range(size)],
                       'm': [int(rng.random() < p) for _ in range(size)] if p else []})
        h = vs[0]['history']
        d = 0
        cuts, order = [], [1]
        if rng.random() < 0.5:
            d = rng.randint(1, len(axes))
            m = shape[d - 1]
            cuts = sorted(rng.sample(range(1, m), rng.randint(0, min(3, m - 1)))) if m > 1 else []
            # Iris takes a longitude axis which happens to go round the globe to be another kind of axis
            if axes[d - 1]['std'] == 'longitude' and any(around(axes[d - 1]['pts'][a:b], q) for a, b in zip([0] + cuts, cuts + [m])):
                cuts = []
            order = list(range(1, len(cuts) + 2))
            rng.shuffle(order)
        aux = []
        if rng.random() < 0.3:
            k = rng.randrange(len(axes))
            dims = [axes[k]['std']]
            if len(axes) > 1 and rng.random() < 0.5:
                dims = [a['std'] for a in axes if a['std'] in dims + [axes[k - 1]['std']]]
            if not (d and axes[d - 1]['std'] in dims and len(cuts) == shape[d - 1] - 1):
                aux.append({'var': 'extra', 'dims': dims, 'v': [rng.randint(0, 50) for _ in range(int(np.prod([shape[[a['std'] for a in axes].index(s)] for s in dims])))]})
        if rng.random() < 0.3:
            aux.append({'var': 'level', 'dims': [], 'v': [rng.randint(0, 50)]})
        if d:
            for v in vs:
                v['history'] = h
        stds = [a['std'] for a in axes]
        if 'time' not in stds and rng.random() < 0.4:
            k = rng.randrange(len(axes))
            if not (d == k + 1):
                dims = rng.choice([[], [stds[k]], [stds[k]]])
                aux.append({'var': 'time', 'std': 'time', 'units': str(build.t_unit()), 'dims': dims, 'v': [150000 * q + rng.randint(0, 40) for _ in range(shape[k] if dims else 1)]})
        field = {'kind': '', 'dims': [], 'v': [], 'extra': 0}
        if not d and not {'air_pressure', 'altitude'} <= set(stds) and rng.random() < 0.5:
            kind = rng.choice([x for x in ['air_pressure', 'geopotential', 'geopotential_height'] if (x if x[0] == 'a' else 'altitude') not in stds])
            dims = rng.sample(stds, rng.randint(1, len(stds)))
            field = {'kind': kind, 'dims': dims, 'v': [rng.randint(1, 99) for _ in range(int(np.prod([shape[stds.index(x)] for x in dims])))], 'extra': int(rng.random() < 0.15)}
        # one point of the cut axis per file, saved without that axis
        drop = int(bool(d) and len(cuts) == shape[d - 1] - 1 and len(cuts) > 0 and len(axes) > 1 and d == 1 and rng.random() < 0.7)
        yield {'q': q, 'axes': axes, 'aux': aux, 'tunit': rng.choice(['std', 'hours', 'days']), 'drop': drop, 'vars': vs, 'field': field,
               'split': {'d': d, 'cuts': cuts, 'order': order}, 'hadgem': int(min(shape) > 1 and not aux and rng.random() < 0.6 and whole(d, cuts, shape, drop))}


def whole(d, cuts, shape, drop):
    """axes of one point are left out of HadGEM's files"""
    if not d:
        return True
    sizes = set(b - a for a, b in zip([0] + cuts, cuts + [shape[d - 1]]))
    return 1 not in sizes or drop or sizes == {1} and d == 1 and len(cuts) > 0 and len(shape) > 1


def cubes(e):
    from cf_units import Unit
    out = []
    for d in e['vars']:
        axes = [dict(a) for a in e['axes']]
        g = build.cube({'axes': axes, 'aux': e['aux'], 'v': d['v'], 'm': d['m'], 'dtype': d['dtype'], 'name': d['name'], 'long': d['long'], 'units': d['units'],
                        'stdname': d['std']}, e['q'])
        if d['history']:
            g.attributes['history'] = d['history']
        if e['tunit'] != 'std' and g.coords('time'):
            t = g.coord('time')
            if not hasattr(t, 'circular'):
                t.points = t.points * 1.0
            per = 24 if e['tunit'] == 'hours' else 1
            b = (t.bounds - OFF) * per if t.has_bounds() else None
            t.bounds = None
            t.points = (t.points - OFF) * per
            t.bounds = b
            t.units = Unit('%s since 1970-01-01 00:00:00' % e['tunit'], calendar='gregorian')
        out.append(g)
    return out


def field(e, gs):
    """the field of pressure or height which lies in the same file"""
    import iris.coords
    from cis.data_io.gridded_data import GriddedData
    from scipy.constants import g as G
    f = e['field']
    if not f['kind']:
        return []
    cs = [gs[0].coord(x) for x in f['dims']]
    v = np.array([x / e['q'] for x in f['v']]) * (G if f['kind'] == 'geopotential' else 1)
    v = v.reshape([len(c.points) for c in cs])
    if f['extra']:
        cs.append(iris.coords.DimCoord([1., 2.], long_name='depth', var_name='depth', units='m'))
        v = np.repeat(v[..., np.newaxis], 2, axis=-1)
    return [GriddedData(v, var_name='fld', standard_name=f['kind'], units={'air_pressure': 'Pa', 'geopotential': 'm2 s-2'}.get(f['kind'], 'm'),
                        dim_coords_and_dims=[(c, k) for k, c in enumerate(cs)])]


def snap(g, q):
    s = build.snap_gd(g, q)
    t = [str(c.units) for c in g.coords('time')]
    return {'axes': [{'std': a['std'], 'pts': a['pts'], 'bnds': a['bnds']} for a in s['axes']],
            'aux': [{'std': a['std'], 'dims': a['dims'], 'v': a['v']} for a in s['aux']], 'v': s['v'], 'name': str(g.var_name), 'units': str(g.units),
            'long': str(g.long_name or ''), 'std': str(g.standard_name or ''), 'history': str(g.attributes.get('history', '')), 'dt': str(g.dtype),
            'tunits': t in ([], [str(build.t_unit())]), 'kind': bool(g.is_gridded)}


def save(gs, name, hadgem=0):
    from cis.data_io.gridded_data import GriddedDataList
    p = os.path.abspath('%s%d.nc' % (name if not hadgem else 'xglnwa.pm2007', next(COUNT)))
    (gs[0] if len(gs) == 1 else GriddedDataList(gs)).save_data(p)
    return p


def save_with(gs, name):
    import iris
    p = os.path.abspath('%s%d.nc' % (name, next(COUNT)))
    iris.save(gs, p)
    return p


def execute(e):
    import cis
    from cis.data_io.gridded_data import make_from_cube
    gs, sp = cubes(e), e['split']
    before = [repr(snap(g, e['q'])) for g in gs]
    paths = []
    if not sp['d']:
        paths.append(save(gs, 'g', e.get('hadgem')) if not e['field']['kind'] else save_with(gs + field(e, gs), 'g'))
    else:
        n = len(e['axes'][sp['d'] - 1]['pts'])
        edges = [0] + sp['cuts'] + [n]
        bare = sum(edges) % 2
        for a, b in zip(edges, edges[1:]):
            ix = [slice(None)] * len(e['axes'])
            ix[sp['d'] - 1] = a if e['drop'] else slice(a, b)
            parts = [make_from_cube(g[tuple(ix)]) for g in gs]
            if e.get('hadgem') and len(edges) > 2:
                for g in parts:
                    g.attributes['history'] = 'part %d' % a
                    if bare:
                        del g.attributes['history']
            paths.append(save(parts, 'g', e.get('hadgem')))
        paths = [paths[k - 1] for k in sp['order']]
    after = [repr(snap(g, e['q'])) for g in gs]
    objs = [cis.read_data(paths, d['name']) for d in e['vars']]
    read = [snap(g, e['q']) for g in objs]
    p = save(objs, 'h')
    again = [snap(cis.read_data(p, d['name']), e['q']) for d in e['vars']]
    return {'outcome': 'ok', 'before': before, 'after': after, 'read': read, 'again': again}


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and (len(rec['case']['split']['cuts']) > 0 if 'case' in rec else len(rec['split']['cuts']) > 0)
