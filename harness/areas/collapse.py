"""A03: collapse of gridded data."""
import build
import common as C
import numpy as np
from areas.evaluate import rats

JUDGE = 'JudgeCollapse'
GEN = ['GenCollapse']
SECONDS = 25


def models(tier):
    return [('MCCollapse', 'MCCollapse' if tier == 'quick' else 'MCCollapse_t')]


KEYS = {'latitude': ['latitude', 'y', 'lat'], 'longitude': ['longitude', 'x', 'lon'], 'time': ['time', 't'], 'air_pressure': ['air_pressure', 'p', 'pres'],
        'model_level_number': ['model_level_number']}
EDGES = [-90, -30, 0, 30, 90]


def lat(rng):
    if rng.random() < 0.35:
        return {'pts': rng.choice([[-60, 0, 60], [60, 0, -60], [0, 60], [-60, 0], [60], [-90], [10]]), 'bnds': []}
    lo = rng.randrange(3)
    e = EDGES[lo:lo + rng.randint(2, 5 - lo)]
    cells = [(a, b) for a, b in zip(e, e[1:])]
    if len(cells) > 2 and rng.random() < 0.2:
        del cells[1]
    if rng.random() < 0.4:
        cells = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in cells[::-1]]
        flip = rng.random() < 0.5
        cells = [(max(c), min(c)) if flip else (min(c), max(c)) for c in cells]
    return {'pts': [rng.randint(min(c) // 2 + 1, max(c) // 2 - 1) * 2 if max(c) - min(c) > 4 else sum(c) // 2 for c in cells], 'bnds': [x for c in cells for x in c]}


def lon(rng):
    if rng.random() < 0.2:
        return {'pts': rng.choice([[0, 120, 240], [-180, 0], [10, 190]]), 'bnds': [], 'circ': rng.random() < 0.6}
    if rng.random() < 0.15:
        return {'pts': [rng.choice([0, 180, 30])], 'bnds': rng.choice([[], [10, 40]])}
    p, x = [], rng.choice([-180, 0, 10, 350])
    for _ in range(rng.randint(2, 4)):
        p.append(x)
        x += rng.choice([2, 4, 6])
    a = {'pts': p[::-1] if rng.random() < 0.2 else p, 'bnds': []}
    if rng.random() < 0.3:
        a['bnds'] = [y for k in a['pts'] for y in (k - 1, k + rng.choice([1, 1, 2]))]
    return a


def random_cases(rng, tier):
    for _ in range(500 if tier == 'quick' else 9000):
        stds = rng.sample(list(KEYS), rng.choice([1, 2, 2, 3, 3, 4]))
        if rng.random() < 0.5:
            stds = [s for s in stds if s not in ('latitude', 'longitude')][:2] + ['latitude', 'longitude']
            rng.shuffle(stds)
        axes = []
        for s in stds:
            a = lat(rng) if s == 'latitude' else lon(rng) if s == 'longitude' else {'pts': sorted(rng.sample(range(0, 40, 2), rng.choice([1, 2, 2, 3]))), 'bnds': []}
            if s not in ('latitude', 'longitude') and rng.random() < 0.2:
                a['pts'] = a['pts'][::-1]
            axes.append({'std': s, 'pts': a['pts'], 'bnds': a['bnds'], 'circ': bool(a.get('circ'))})
        while np.prod([len(a['pts']) for a in axes]) > 48:
            b = max(axes, key=lambda a: len(a['pts']))
            b['pts'], b['bnds'], b['circ'] = b['pts'][:1], b['bnds'][:2], False
        m = len(axes)
        size = int(np.prod([len(a['pts']) for a in axes]))

        def aux(var, dims):
            return {'var': var, 'dims': dims, 'v': [rng.randint(-9, 30) for _ in range(int(np.prod([len(axes[d - 1]['pts']) for d in dims])) if dims else 1)]}
        auxs, hybrid = [], False
        for k in range(rng.choice([0, 1, 1, 2])):
            ds = sorted(rng.sample(range(1, m + 1), min(m, rng.choice([0, 1, 2, 2, 3]))))
            if len(ds) == 2 and rng.random() < 0.3:
                ds = ds[::-1]
            auxs.append(aux('extra%d' % k, ds))
        if 'model_level_number' in stds and m > 1 and rng.random() < 0.6:
            lev = stds.index('model_level_number') + 1
            others = [d for d in range(1, m + 1) if d != lev]
            auxs += [aux('level_height', [lev]), aux('sigma', [lev]), aux('surface_altitude', sorted(rng.sample(others, min(len(others), rng.choice([1, 2, 2])))))]
            hybrid = True
        over = [{'key': rng.choice(KEYS[stds[d - 1]]), 'std': stds[d - 1], 'dims': [d]} for d in rng.sample(range(1, m + 1), rng.choice([1, 1, 2, m]) if m > 1 else 1)]
        named = [a for a in auxs if a['dims'] and not any(stds[d - 1] == 'latitude' for d in a['dims']) and a['var'] in ('extra0', 'surface_altitude')]
        if named and rng.random() < 0.15:
            over.append({'key': named[0]['var'], 'std': '', 'dims': named[0]['dims']})
        if rng.random() < 0.1:
            over.append(over[0])
        vs = [{'name': n, 'v': [rng.randint(-15, 15) for _ in range(size)], 'm': [int(rng.random() < f) for _ in range(size)] if f else []}
              for n in rng.choice([['x'], ['x'], ['x', 'y'], ['x', 'b', 'c']]) for f in [rng.choice([0, 0.2, 0.5, 0.85])]]
        yield {'axes': axes, 'aux': auxs, 'hybrid': hybrid, 'vars': vs, 'over': over, 'kernel': rng.choice(['mean', 'moments', 'sum', 'min', 'max', '', 'mean', 'moments']),
               'lazy': rng.random() < 0.3, 'text': len(over) == 1 and rng.random() < 0.4}


def make(case):
    out = []
    stds = [a['std'] for a in case['axes']]
    for v in case['vars']:
        d = {'axes': [dict(a, circ=int(a['circ'])) for a in case['axes']], 'v': v['v'], 'm': v['m'], 'name': v['name'], 'long': 'long ' + v['name'],
             'aux': [{'var': a['var'], 'dims': [stds[k - 1] for k in a['dims']], 'v': a['v'], 'units': 'm' if a['var'] in ('level_height', 'surface_altitude') else '1'} for a in case['aux']]}
        g = build.cube(d, q=1)
        if case['hybrid']:
            from iris.aux_factory import HybridHeightFactory
            g.add_aux_factory(HybridHeightFactory(*[g.coord(var_name=n) for n in ('level_height', 'sigma', 'surface_altitude')]))
        if case['lazy']:
            import dask.array as da
            g.data = da.from_array(g.data, chunks=-1)
        out.append(g)
    return out


def snap(g):
    """a grid as it is, to be compared with itself"""
    cs = [(c.name(), g.coord_dims(c), np.asarray(c.points).tolist(), c.bounds.tolist() if c.has_bounds() else None, bool(getattr(c, 'circular', False))) for c in g.coords()]
    return [g.shape, g.var_name, g.long_name, str(g.units), np.ma.getmaskarray(g.data).tolist(), np.ma.filled(g.data, -999).tolist(), cs, sorted(map(str, g.attributes.items())), str(g.cell_methods)]


def result(g):
    axes = [{'std': a['std'], 'pts': a['pts'], 'bnds': a['bnds']} for a in build.snap_gd(g, 1, 1, rounded=True, aux=False)['axes']]
    aux = [{'name': str(c.var_name), 'dims': [int(x) + 1 for x in g.coord_dims(c)], 'v': rats(c.points)} for c in g.coords(dim_coords=False) if c.var_name]
    h = [c for c in g.derived_coords if c.standard_name == 'altitude']
    return {'name': str(g.var_name), 'shape': [int(s) for s in g.shape], 'axes': axes, 'aux': aux, 'v': rats(g.data ** 2 if str(g.var_name).endswith('_std_dev') else g.data),
            'height': {'dims': [int(x) + 1 for x in g.coord_dims(h[0])], 'v': rats(h[0].points)} if h else {'dims': [], 'v': []}}


def execute(case):
    from cis.data_io.gridded_data import GriddedDataList
    gs = make(case)
    before = [snap(g) for g in make(dict(case, lazy=False))]
    over = [o['key'] for o in case['over']]
    d = gs[0] if len(gs) == 1 else GriddedDataList(gs)
    r = d.collapsed(over[0] if case['text'] else over, how=case['kernel'])
    return {'outcome': 'ok', 'res': [result(g) for g in r], 'same': [snap(g) for g in gs] == before}


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and any(len(x) == 2 for r in rec['out']['res'] for x in r['v'])
