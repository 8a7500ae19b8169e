"""A01 / A02: aggregation of ungridded data onto a regular grid."""
import datetime

import build
import common as C
from areas.subset_u import KEYS, VAR, ByStd

JUDGE = 'JudgeAgg'
GEN = ['GenAgg']
ABSENT = -88888888
PROP = ['A01']
KERNELS = ['moments', 'mean', 'sum', 'min', 'max', 'stddev']


def for_property(prop):
    PROP[0] = prop


def models(tier):
    m = 'MCAggGrid' if PROP[0] == 'A01' else 'MCBin'
    return [(m, m if tier == 'quick' else m + '_t')]


def random_cases(rng, tier):
    a01 = PROP[0] == 'A01'
    for _ in range(400 if tier == 'quick' else 5000):
        q = rng.choice([4, 4, 10, 1]) if a01 else 4
        n = rng.choice([1, 2, 5, 8, 11] if a01 else [1, 2, 5, 8, 11, 24, 24])
        shape = [n] if n < 8 or rng.random() < 0.7 else {8: [2, 4], 11: [11, 1], 24: [4, 6]}[n]
        stds = ['latitude', 'longitude'] + rng.sample(['altitude', 'time', 'air_pressure'], rng.choice([0, 1, 1, 2]))
        if rng.random() < 0.3:
            rng.shuffle(stds)
        if rng.random() < 0.12 and len(stds) > 2:
            stds.remove('latitude')
        day0 = 149000 if q < 10 else 14900
        base = {'latitude': -40, 'longitude': rng.choice([-180, 0, -20, 150]), 'altitude': 0, 'time': day0,
                'air_pressure': rng.choice([0, 100])}
        span = {'latitude': 80, 'longitude': rng.choice([40, 359]), 'altitude': rng.choice([3, 8]), 'time': 3, 'air_pressure': 5}
        edge = rng.random() < 0.5
        coords, grid = [], []
        gridded = rng.sample(stds, rng.choice([1, 1, 2, 2, min(3, len(stds))]))
        lists = int(rng.random() < 0.25)
        for s in stds:
            lo, hi = base[s] * q, (base[s] + span[s]) * q
            g = None
            if s in gridded:
                a = rng.randint(lo, hi - 1)
                b = rng.randint(a + 1, hi)
                step = rng.choice([1, 2, 3, rng.randint(1, max(1, (b - a))), (b - a)])
                step = max(step, -(-(b - a) // 5))            # at most five cells
                g = {'std': s, 'key': rng.choice(KEYS[s] + [VAR[s]]), 'lo': a, 'hi': b, 'step': step}
                if rng.random() < 0.15:
                    g['step'] = ABSENT
                lo, hi = a - step, b + step
                if s == 'latitude':
                    lo, hi = max(lo, -90 * q), min(hi, 90 * q)
            vals = [rng.randint(lo, hi) for _ in range(n)]
            if g and not a01 and rng.random() < 0.7:        # many points inside the grid
                vals = [min(max(rng.randint(g['lo'], g['hi']), lo), hi) if rng.random() < 0.9 else v for v in vals]
            if g and edge:
                st = g['step'] if g['step'] != ABSENT else g['hi'] - g['lo']
                vals = [min(max(g['lo'] + rng.randint(-1, 6) * st, lo), hi) if rng.random() < 0.7 else v for v in vals]
            if s == 'longitude' and g:
                vals = [v + rng.choice([0, 0, 360, -360]) * q if rng.random() < 0.5 else v for v in vals]
                if g['lo'] + 360 * q < g['lo'] + 5 * 0:
                    pass
            coords.append({'std': s, 'v': vals, 'name': VAR[s]})
            if g:
                r = rng.random()
                mn, mx = min(vals), max(vals)
                if r < 0.12 and s != 'longitude' and mn < g['hi'] and g['hi'] - mn <= 8 * g['step'] and g['step'] > 0:
                    g['lo'] = ABSENT
                elif r < 0.24 and s != 'longitude' and mx > g['lo'] and mx - g['lo'] <= 8 * g['step'] and g['step'] > 0:
                    g['hi'] = ABSENT
                if g['step'] == ABSENT and ABSENT in (g['lo'], g['hi']):
                    g['step'] = 1 + abs(mx - mn) // 3
                if s == 'time':
                    g['as'] = rng.choice(['datetime', 'datetime', 'number', 'partial', 'td', 'td'])
                    if g['as'] == 'td' and q > 1 and g['step'] != ABSENT and rng.random() < 0.5:
                        g['step'] = q + rng.randint(1, q - 1)     # a day and some hours
                    if g['as'] == 'partial':
                        d = rng.randint(0, 2) + day0
                        g['lo'], g['hi'] = d * q, (d + 1) * q
                        if g['step'] != ABSENT:
                            g['step'] = max(g['step'], 1)
                grid.append(g)
        rng.shuffle(grid)
        form = rng.choice(['slice', 'list'])
        if any(g['step'] == ABSENT for g in grid):      # only the command line allows this
            form = 'cli'
            for g in grid:
                g.pop('as', 0)
        vs = []
        for k in range(rng.choice([2, 3]) if lists else 1):
            p = rng.choice([0, 0, 0.3, 1.0])
            vs.append({'name': 'v%d' % k, 'v': [rng.randint(-9, 9) for _ in range(n)],
                       'm': [int(rng.random() < p) for _ in range(n)] if p else []})
        if not lists and form != 'cli' and rng.random() < 0.1:    # a variable named like a coordinate
            vs[0]['name'] = rng.choice(stds)
        yield {'q': q, 'shape': shape, 'list': lists, 'form': form, 'coords': coords,
               'vars': vs, 'grid': grid, 'kernel': rng.choice(KERNELS[:1] * 3 + KERNELS) if not a01 else 'moments'}


def arg(g, form, q):
    from cis.time_util import PartialDateTime
    kind = g.get('as', 'number')
    day0 = datetime.datetime(1600, 1, 1)

    def conv(x):
        if x == ABSENT:
            return None
        if kind in ('datetime', 'td'):
            return day0 + datetime.timedelta(days=x / q)
        return x / q
    step = None if g['step'] == ABSENT else g['step'] / q
    if kind in ('td', 'partial') and step is not None:
        step = datetime.timedelta(days=step)
    if kind == 'partial':
        d = day0 + datetime.timedelta(days=g['lo'] / q)
        return [PartialDateTime(d.year, d.month, d.day), step]
    a, b = conv(g['lo']), conv(g['hi'])
    return slice(a, b, step) if form == 'slice' else [a, b, step]


def cli_grid(grid, q):
    """the grid as the command line understands it"""
    from cis.parse import parse_args
    open('dummy.nc', 'w').close()

    def num(x):
        return 'None' if x == ABSENT else repr(x / q)
    spec = ','.join('%s=[%s]' % (g['key'], ','.join([num(g['lo']), num(g['hi'])] +
                                                    ([num(g['step'])] if g['step'] != ABSENT else []))) for g in grid)
    return parse_args(['aggregate', 'v0:dummy.nc', spec, '-o', 'out']).grid


def execute(case):
    from cis.data_io.ungridded_data import UngriddedDataList
    q = case['q']
    objs = [build.ungridded({'shape': case['shape'], 'coords': case['coords'], 'v': v['v'], 'm': v['m'],
                             'name': v['name']}, q=q) for v in case['vars']]
    data = UngriddedDataList(objs) if case['list'] else objs[0]
    before = [build.snap_ug(o, q) for o in objs]
    if case['form'] == 'cli':
        grid = cli_grid(case['grid'], q)
    else:
        grid = {g['key']: arg(g, case['form'], q) for g in case['grid']}
    res = data.aggregate(how=case['kernel'], **grid)
    after = [build.snap_ug(o, q) for o in objs]
    out = []
    for r in (res if isinstance(res, list) else [res]):
        s = build.snap_gd(r, 2 * q, 100, True)
        for a, c in zip(s['axes'], r.coords(dim_coords=True)):
            if a['std'] == 'time':      # the end of a partial date is one second before midnight
                a['pts'] = C.enc_arr(c.points, 2 * q) if True else 0
        out.append({'axes': s['axes'], 'v': s['v'], 'name': r.var_name})
    return {'outcome': 'ok', 'res': out, 'before': before, 'after': after}


def project(r):
    r = dict(r)
    r['prop'] = PROP[0]
    return r


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(x != C.MASKED for x in r['out']['res'][0]['v'])


def matches_finding(f, case, out, clauses):
    return False
