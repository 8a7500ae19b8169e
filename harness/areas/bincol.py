"""C04: collocating ungridded data onto a grid (bin)."""
import build
import common as C
import gridgen

JUDGE = 'JudgeBin'
GEN = ['GenBin']
KERNELS = ['moments', 'mean', 'sum', 'min', 'max', 'stddev']


def models(tier):
    return [('MCBin', 'MCBin' if tier == 'quick' else 'MCBin_t')]


def turn_ok(a, q):
    p = a['pts']
    if a['std'] != 'longitude':
        return True
    if a['bnds']:
        return max(a['bnds']) - min(a['bnds']) <= 360 * q
    lo, hi = (3 * p[0] - p[1]) / 2, (3 * p[-1] - p[-2]) / 2
    return abs(hi - lo) <= 360 * q


def random_cases(rng, tier):
    q = 4
    for _ in range(400 if tier == 'quick' else 5000):
        axes, n = gridgen.grid(rng, q, extra=(0, 0, 1, 1), bounds=0.5)
        for a in axes:
            if len(a['pts']) == 1 and not a['bnds']:
                a['bnds'] = [a['pts'][0] - q, a['pts'][0] + q]
            if a['bnds'] and rng.random() < 0.2:      # gaps between the cells
                d = 1
                a['bnds'] = [b + (d if (k % 2 == 0) == (a['bnds'][0] < a['bnds'][1]) else -d) for k, b in enumerate(a['bnds'])]
            if a['bnds'] and rng.random() < 0.2:      # pairs the other way round
                b = a['bnds']
                a['bnds'] = [b[k ^ 1] for k in range(len(b))]
        if not all(turn_ok(a, q) for a in axes):
            continue
        stds = [a['std'] for a in axes]
        dstds = list(stds)
        if rng.random() < 0.2:
            dstds = [s for s in dstds if s in ('latitude', 'longitude') or rng.random() < 0.5]
        if rng.random() < 0.2:
            dstds += rng.sample([s for s in ('altitude', 'time', 'air_pressure') if s not in dstds], 1)
        rng.shuffle(dstds)
        m = rng.choice([1, 3, 6, 10])
        coords = []
        for s in dstds:
            ax = [a for a in axes if a['std'] == s]
            if ax:
                p = ax[0]['pts'] + ax[0]['bnds']
                mids = [(x + y) // 2 for x, y in zip(ax[0]['pts'], ax[0]['pts'][1:])]
                vals = [rng.choice(p + mids) + rng.choice([0, 0, 0, 1, -1, q]) for _ in range(m)]
            else:
                vals = [rng.randint(0, 8) for _ in range(m)] if s != 'time' else [gridgen.DAY0 * q + k for k in range(m)]
            if s == 'latitude':
                vals = [min(max(v, -90 * q), 90 * q) for v in vals]
            if s == 'longitude' and rng.random() < 0.6:
                off = rng.choice([0, 360, -360]) * q
                vals = [v + off if rng.random() < 0.8 else v for v in vals]
            coords.append({'std': s, 'v': vals, 'name': gridgen.VAR[s]})
        lists = int(rng.random() < 0.25)
        vs = []
        for k in range(2 if lists else 1):
            p = rng.choice([0, 0, 0.3, 0.3, 1.0]) if rng.random() < 0.9 else 0
            vs.append({'name': 'v%d' % k, 'v': [rng.randint(-9, 9) for _ in range(m)],
                       'm': [int(rng.random() < p) for _ in range(m)] if p else []})
        s = gridgen.values(rng, n, pmask=0.6, masked=0.3)
        yield {'q': q, 'axes': axes, 'sv': s['v'], 'sm': s['m'], 'kernel': rng.choice(KERNELS[:1] * 2 + KERNELS + ['own']),
               'missing': int(rng.random() < 0.5), 'list': lists, 'shape': [m], 'coords': coords, 'vars': vs}


def own(q):
    """a kernel which someone else wrote: the sum of the values, of the values times their latitudes, and the latitude and longitude of the cell"""
    from cis.collocation.col_framework import Kernel

    class Own(Kernel):
        return_size = 3

        def get_value(self, point, data):
            if len(data) == 0:
                raise ValueError
            return (sum(p.val[0] for p in data), sum(p.val[0] * round(p.latitude * q) for p in data), round(point.latitude * q) + round(point.longitude * q))

        def get_variable_details(self, var_name, var_long_name, var_standard_name, var_units):
            return tuple((var_name + x, var_long_name, None, var_units) for x in ('', '_std_dev', '_num_points'))
    return Own()


def execute(case):
    from cis.data_io.ungridded_data import UngriddedDataList
    q = case['q']
    objs = [build.ungridded({'shape': case['shape'], 'coords': case['coords'], 'v': v['v'], 'm': v['m'],
                             'name': v['name']}, q=q) for v in case['vars']]
    data = UngriddedDataList(objs) if case['list'] else objs[0]
    sample = build.cube({'axes': case['axes'], 'v': case['sv'], 'm': case['sm'], 'name': 'smp'}, q=q)

    def snap():
        return [build.snap_ug(o, q) for o in objs] + \
               [{'v': C.enc_arr(sample.data), 'coords': [{'std': a['std'], 'v': a['pts']}
                                                         for a in build.snap_gd(sample, q)['axes']]}]
    before = snap()
    kw = {} if case['kernel'] == 'moments' and case['missing'] else {'kernel': case['kernel'] if case['kernel'] != 'own' else own(q)}
    if case.get('src') == 'spec' or not case['list']:
        kw['how'] = 'bin'
    res = data.collocated_onto(sample, missing_data_for_missing_sample=bool(case['missing']), **kw)
    after = snap()
    out = []
    for r in (res if isinstance(res, list) else [res]):
        s = build.snap_gd(r, 2 * q, 100, True)
        out.append({'axes': s['axes'], 'v': s['v'], 'name': r.var_name})
    return {'outcome': 'ok', 'res': out, 'before': before, 'after': after}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(x != C.MASKED for x in r['out']['res'][0]['v'])


def matches_finding(f, case, out, clauses):
    return False
