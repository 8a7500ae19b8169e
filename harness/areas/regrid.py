"""C06: collocation of gridded data onto a grid."""
import numpy as np

import build
import common as C
import gridgen
from areas.interp import axis

JUDGE = 'JudgeRegrid'
GEN = ['GenRegrid']
DAY0 = 149000


def models(tier):
    return [('MCRegrid', 'MCRegrid' if tier == 'quick' else 'MCRegrid_t')]


def target(rng, a, q):
    """an axis of the sample: points at, between and beyond those of the data"""
    p = sorted(a['pts'])
    n = rng.choice([1, 2, 2, 3])
    lo, hi = p[0] - rng.choice([0, 0, 1]), p[-1] + rng.choice([0, 0, 1])
    big = hi - lo > 30
    d = (p[1] - p[0]) if len(p) > 1 else 1
    opts = set()
    for k in range(len(p)):
        opts.add(p[k])
        if big:
            opts.update([p[k] + d // 2] if d % 2 == 0 else [])
            opts.update([p[k] + d // 3] if d % 3 == 0 else [])
    if not big:
        opts = set(range(lo, hi + 1))
    if a['std'] == 'latitude':
        opts = {x for x in opts if -90 * q <= x <= 90 * q}
    pts = sorted(rng.sample(sorted(opts), min(n, len(opts))))
    if a['std'] == 'longitude':
        t = rng.choice([0, 0, -360, 360]) * q
        pts = [x + t for x in pts]
        if max(pts) - min(pts) >= 360 * q:
            pts = pts[:1]
    if a['std'] != 'time' and rng.random() < 0.3:
        pts.reverse()
    return {'std': a['std'], 'pts': pts, 'bnds': []}


def random_cases(rng, tier):
    for _ in range(400 if tier == 'quick' else 6000):
        q = 2
        stds = rng.sample(['latitude', 'longitude', 'time', 'altitude', 'air_pressure'], rng.choice([1, 2, 2, 3, 3]))
        if rng.random() < 0.6 and 'longitude' not in stds:
            stds[0] = 'longitude'
        axes = [axis(rng, s, q) for s in stds]
        for a in axes:
            a['bnds'] = []
        size = int(np.prod([len(a['pts']) for a in axes]))
        sample = [target(rng, a, q) for a in axes if rng.random() < 0.85] or [target(rng, axes[0], q)]
        if rng.random() < 0.2:
            other = [s for s in ('latitude', 'time', 'altitude') if s not in stds]
            if other:
                a = axis(rng, rng.choice(other), q)
                sample.append({'std': a['std'], 'pts': a['pts'], 'bnds': []})
        for a in sample:
            if len(a['pts']) > 1 and rng.random() < 0.4 and a['std'] != 'latitude':
                p = [2 * x for x in a['pts']]       # midway bounds on a finer grid
                if all((p[k] + p[k + 1]) % 4 == 0 for k in range(len(p) - 1)):
                    a['bnds'] = gridgen.guess_bounds(a, q)
        rng.shuffle(sample)
        ns = int(np.prod([len(a['pts']) for a in sample]))
        vs, extrap = [], int(rng.random() < 0.2)
        for k in range(rng.choice([1, 1, 1, 2])):
            # iris does not extrapolate masks linearly (their weights cancel), so extrapolate from complete data only
            p = 0 if extrap else rng.choice([0, 0, 0.15, 0.5])
            vs.append({'name': 'v%d' % k, 'v': [rng.randint(-9, 19) for _ in range(size)],
                       'm': [int(rng.random() < p) for _ in range(size)] if p else []})
        yield {'q': q, 'axes': axes, 'sample': sample, 'method': rng.choice(['lin', 'lin', 'nn']), 'extrap': extrap,
               'missing': int(rng.random() < 0.5), 'sm': [int(rng.random() < 0.4) for _ in range(ns)] if rng.random() < 0.4 else [],
               'sv': [rng.randint(-9, 9) for _ in range(ns)], 'vars': vs, 'out_name': rng.choice(['', '', 'renamed']),
               'out_long': rng.choice(['', '', 'new long name']), 'out_units': rng.choice(['', '', 'm'])}


def execute(case):
    from cis.data_io.gridded_data import GriddedDataList
    q = case['q']
    objs = [build.cube({'axes': case['axes'], 'v': v['v'], 'm': v['m'], 'name': v['name']}, q=q) for v in case['vars']]
    data = GriddedDataList(objs) if len(objs) > 1 else objs[0]
    sample = build.cube({'axes': case['sample'], 'v': case['sv'], 'm': case['sm'], 'name': 'smp', 'long': 'sample'}, q=q)

    def snap():
        return [build.snap_gd(o, q) for o in objs + [sample]]
    before = snap()
    kw = {}
    for k, o in (('var_name', 'out_name'), ('var_long_name', 'out_long'), ('var_units', 'out_units')):
        if case[o]:
            kw[k] = case[o]
    if case['extrap']:
        kw['extrapolate'] = True
    if case['method'] != 'lin' or case['sv'][0] % 2:
        kw['how'] = case['method']
    if not case['missing'] or case['sv'][0] % 3:
        kw['missing_data_for_missing_sample'] = bool(case['missing'])
    res = data.collocated_onto(sample, **kw)
    after = snap()
    out = []
    for r in (res if isinstance(res, list) else [res]):
        s = build.snap_gd(r, q, aux=False)
        out.append({'v': C.enc_arr(r.data, 100, True), 'axes': s['axes'], 'name': str(r.var_name), 'long': str(r.long_name), 'units': str(r.units)})
    return {'outcome': 'ok', 'res': out, 'before': before, 'after': after}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(x != C.MASKED for x in r['out']['res'][0]['v'])


def matches_finding(f, case, out, clauses):
    return False
