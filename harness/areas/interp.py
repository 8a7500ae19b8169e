"""C05: interpolation of gridded data onto ungridded points."""
import numpy as np

import build
import common as C

JUDGE = 'JudgeInterp'
GEN = ['GenInterp']
NONE = {'std': '', 'dims': [], 'v': [], 'kind': ''}
DAY0 = 149000


def models(tier):
    return [('MCInterp', 'MCInterp' if tier == 'quick' else 'MCInterp_t')]


def axis(rng, std, q):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    if std == 'longitude' and rng.random() < 0.4:       # right round the globe
        n = rng.choice([3, 4, 5, 6])
        start = rng.choice([-180, 0, 5, -90, 30]) * q
        p = [start + k * 360 * q // n for k in range(n)]
        circ = int(rng.random() < 0.75)
    else:
        circ = 0
        step = rng.choice([1, 2, 3])
        gaps = [rng.choice([1, 2, 3, 5]) if rng.random() < 0.5 else step for _ in range(n)]
        start = {'latitude': rng.randint(-20, 15), 'longitude': rng.choice([-180, 178, 0, -3, 357, 170, 90]),
                 'time': DAY0}.get(std, rng.randint(1, 9)) * q
        p = [start + sum(gaps[:k]) for k in range(n)]
    if std != 'time' and rng.random() < 0.35:
        p.reverse()
    return {'std': std, 'pts': p, 'circ': circ}


def position(rng, a, q, far):
    """a sample coordinate: at a point of the axis, between two, or outside"""
    p = sorted(a['pts'])
    if far and rng.random() < 0.12:
        x = rng.choice([p[0] - rng.randint(1, 3), p[-1] + rng.randint(1, 3)])
    elif len(p) == 1:
        x = p[0]
    else:
        k = rng.randrange(len(p) - (0 if a['circ'] else 1))
        lo, hi = p[k], (p + [p[0] + 360 * q])[k + 1]
        d = hi - lo
        cuts = [0, d] + ([d // 2] if d % 2 == 0 else []) + ([d // 3, 2 * d // 3] if d % 3 == 0 else [])
        x = lo + (rng.choice(cuts) if d > 12 else rng.randint(0, d))
    if a['std'] == 'longitude':
        x += rng.choice([0, 0, 0, -360, 360]) * q
    return x


def shape_of(axes, dims):
    return [len(axes[k - 1]['pts']) for k in dims]


def column(rng, axes, lev, std):
    """heights (or pressures) of the levels over a leading part of the other axes"""
    other = [k for k in range(1, len(axes) + 1) if k != lev]
    dims = sorted(other[:rng.randint(0, len(other))] + [lev])
    shp = shape_of(axes, dims)
    pos = dims.index(lev)
    nl = shp[pos]
    kind = 'fac' if std == 'altitude' and rng.random() < 0.4 and len(dims) > 1 else 'aux'
    v = np.zeros(shp, int)
    steps = [0]
    for _ in range(nl - 1):
        steps.append(steps[-1] + rng.randint(4, 9))
    if kind == 'fac':
        orog = np.array([rng.randint(0, 4) for _ in range(v.size // nl)])
        sigma = [int(rng.random() < 0.6) for _ in range(nl)]
        steps = [s + 2 * k for k, s in enumerate(steps)]
        moved = np.moveaxis(v, pos, -1)
        for k in range(nl):
            moved[..., k] = steps[k] + sigma[k] * orog.reshape(moved.shape[:-1])
        return {'std': std, 'dims': dims, 'v': [int(x) for x in v.ravel()], 'kind': kind, 'delta': steps, 'sigma': sigma,
                'orog': [int(x) for x in orog]}
    down = rng.random() < 0.3
    moved = np.moveaxis(v, pos, -1)
    for ix in np.ndindex(*moved.shape[:-1]):
        off = rng.randint(1, 6)
        s = [off + x + (rng.randint(0, 2) if rng.random() < 0.3 else 0) for x in steps]
        moved[ix] = s[::-1] if down else s
    return {'std': std, 'dims': dims, 'v': [int(x) for x in v.ravel()], 'kind': kind, 'delta': [], 'sigma': [], 'orog': []}


def random_cases(rng, tier):
    for _ in range(500 if tier == 'quick' else 8000):
        q = rng.choice([1, 2])
        hyb = rng.random() < 0.35
        stds = rng.sample(['latitude', 'longitude', 'time'] if hyb else
                          ['latitude', 'longitude', 'time', 'altitude', 'air_pressure'], rng.choice([1, 2, 2, 3]))
        if rng.random() < 0.6 and 'longitude' not in stds:
            stds[0] = 'longitude'
        axes = [axis(rng, s, q) for s in stds]
        lev, col, extra = 0, dict(NONE, delta=[], sigma=[], orog=[]), []
        if hyb:
            lev = rng.randint(1, len(axes) + 1)
            n = rng.choice([1, 2, 3, 4])
            p = list(range(1, n + 1))
            axes.insert(lev - 1, {'std': 'model_level_number', 'pts': p if rng.random() < 0.8 else p[::-1], 'circ': 0, 'q': 1})
            col = column(rng, axes, lev, rng.choice(['altitude', 'air_pressure']))
        size = int(np.prod([len(a['pts']) for a in axes]))
        ns = rng.choice([1, 2, 4, 6])
        far, extrap = rng.random() < 0.6, int(rng.random() < 0.25)
        sc = [{'std': a['std'], 'v': [position(rng, a, q, far and not (hyb and extrap)) for _ in range(ns)]} for a in axes if a['std'] != 'model_level_number']
        if hyb:
            lo, hi = min(col['v']), max(col['v'])
            sc.append({'std': col['std'], 'v': [rng.randint(lo - (far and rng.random() < 0.2), hi + (far and rng.random() < 0.2))
                                                if rng.random() < 0.7 else rng.choice(col['v']) for _ in range(ns)]})
        have = {c['std'] for c in sc}
        for s in ('latitude', 'longitude', 'altitude', 'time', 'air_pressure'):
            if s not in have and rng.random() < 0.25:
                sc.append({'std': s, 'v': [rng.randint(1, 9) + (DAY0 * q if s == 'time' else 0) for _ in range(ns)]})
                if s not in ('latitude', 'longitude') and not hyb and rng.random() < 0.5:
                    extra.append({'std': s, 'v': rng.randint(1, 9)})
        rng.shuffle(sc)
        nv = rng.choice([1, 1, 1, 2])
        vs = []
        for k in range(nv):
            p = rng.choice([0, 0, 0.15, 0.5, 1.0])
            vs.append({'name': 'v%d' % k, 'v': [rng.randint(-9, 19) for _ in range(size)],
                       'm': [int(rng.random() < p) for _ in range(size)] if p else []})
        sm = [int(rng.random() < 0.4) for _ in range(ns)] if rng.random() < 0.4 else []
        kind = rng.choice(['f8', 'f8', 'f4', 'i4'])
        base = 0 if kind == 'f4' or rng.random() < 0.6 else rng.choice([2 ** 25 + 1, -2 ** 24 - 3, 10 ** 9])
        yield {'q': q, 'base': base, 'axes': axes, 'lev': lev, 'col': col, 'scalars': extra, 'method': rng.choice(['lin', 'lin', 'nn']),
               'extrap': extrap, 'missing': int(rng.random() < 0.5), 'sc': sc, 'sm': sm,
               'sv': [rng.randint(-9, 9) for _ in range(ns)] if sm or rng.random() < 0.5 else [],
               'vars': vs, 'out_name': rng.choice(['', '', '', 'renamed']), 'kind': kind}


def data_cube(case, var):
    from iris.coords import AuxCoord, DimCoord
    q = case['q']
    aux = [{'std': x['std'], 'var': x['std'][:3], 'dims': [], 'v': [x['v']], 'units': build.std_units(x['std'])} for x in case['scalars']]
    col, names = case['col'], [a['std'] for a in case['axes']]
    if col.get('kind') == 'aux':
        aux.append({'std': col['std'], 'var': 'height', 'dims': [names[k - 1] for k in col['dims']], 'v': col['v'],
                    'units': build.std_units(col['std'])})
    g = build.cube({'axes': case['axes'], 'aux': aux, 'v': [x + case.get('base', 0) for x in var['v']], 'm': var['m'], 'name': var['name'],
                    'dtype': {'f8': 'float64', 'f4': 'float32', 'i4': 'int32'}[case.get('kind', 'f8')]}, q=q)
    if col.get('kind') == 'fac':
        from iris.aux_factory import HybridHeightFactory
        delta = AuxCoord(np.array(col['delta']) / q, long_name='level_height', units='m')
        sigma = AuxCoord(np.array(col['sigma'], float), long_name='sigma')
        dims = [k - 1 for k in col['dims'] if k != case['lev']]
        orog = AuxCoord((np.array(col['orog']) / q).reshape([g.shape[d] for d in dims]), standard_name='surface_altitude', units='m')
        g.add_aux_coord(delta, case['lev'] - 1)
        g.add_aux_coord(sigma, case['lev'] - 1)
        g.add_aux_coord(orog, dims)
        g.add_aux_factory(HybridHeightFactory(delta, sigma, orog))
    return g


def execute(case):
    from cis.data_io.gridded_data import GriddedDataList
    q = case['q']
    objs = [data_cube(case, v) for v in case['vars']]
    data = GriddedDataList(objs) if len(objs) > 1 else objs[0]
    if case['sv']:
        sample = build.ungridded({'coords': case['sc'], 'v': case['sv'], 'm': case['sm'], 'name': 'smp'}, q=q)
    else:
        sample = build.coords_only({'coords': case['sc']}, q=q)

    def snap():
        r = [build.snap_gd(o, q) for o in objs]
        if case['sv']:
            s = build.snap_ug(sample, q)
            for c in s['coords']:
                if c['std'] == 'longitude':     # may be reported in another convention
                    c['v'] = [v % (360 * q) for v in c['v']]
            r.append(dict(s, axes=[], aux=[], shape=[]))
        return r
    before = snap()
    kw = {}
    if case['out_name']:
        kw['var_name'] = case['out_name']
    if case['extrap']:
        kw['extrapolate'] = True
    if case['method'] != 'lin' or len(case['vars'][0]['v']) % 2:
        kw['how'] = case['method']
    res = data.collocated_onto(sample, missing_data_for_missing_sample=bool(case['missing']), **kw)
    after = snap()
    for b in before + after:
        b.setdefault('coords', [])
    out = []
    for r in (res if isinstance(res, list) else [res]):
        out.append({'v': C.enc_arr(r.data - np.float64(case.get('base', 0)), 100, True), 'coords': build.snap_ug(r, q, 1, True)['coords'], 'name': r.var_name})
    return {'outcome': 'ok', 'res': out, 'before': before, 'after': after}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(x != C.MASKED for x in r['out']['res'][0]['v'])


def matches_finding(f, case, out, clauses):
    return case.get('tag', '') == f.get('tag') and set(clauses) <= {'values'}
