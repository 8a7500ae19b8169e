"""C07: what every collocator has in common."""
import numpy as np

import build
import common as C

JUDGE = 'JudgeColloc'
GEN = ['GenColloc']
DAY0 = 149000
ABSENT = -88888888


def models(tier):
    return [('MCColloc', 'MCColloc' if tier == 'quick' else 'MCColloc_t')]


def random_cases(rng, tier):
    for _ in range(250 if tier == 'quick' else 4000):
        sk, dk = rng.choice('uucgg'), rng.choice('ug')
        stds = ['latitude', 'longitude'] + (['time'] if rng.random() < 0.4 else [])
        cen = {'latitude': rng.randint(-60, 60), 'longitude': rng.choice([0, 10, 175, -178, 355]), 'time': DAY0}

        def points(n, std, turn=0):
            return [cen[std] + rng.randint(0, 4) + (rng.choice([0, 360, -360]) if std == 'longitude' and turn else 0) for _ in range(n)]

        def axis(std, lo, hi, nmax):
            v = sorted(rng.sample(range(cen[std] + lo, cen[std] + hi), rng.randint(2, nmax)))
            return {'std': std, 'v': v[::-1] if rng.random() < 0.3 and std != 'time' else v}
        sstds = list(stds)
        if sk == 'g' and rng.random() < 0.2:
            sstds.remove(rng.choice(stds))
        rng.shuffle(sstds)
        if sk == 'g':
            sc = [axis(s, 0, 5, 3) for s in sstds]
            ns = int(np.prod([len(a['v']) for a in sc]))
        else:
            ns = rng.choice([1, 3, 6])
            sc = [{'std': s, 'v': points(ns, s, 1)} for s in sstds]
        kern = '' if dk == 'g' else rng.choice(['moments', 'moments', 'mean', 'sum', 'max', 'min', 'stddev'])
        how = rng.choice({'gg': ['', 'lin', 'nn'], 'gu': ['', 'bin', 'box'], 'ug': ['', 'lin', 'nn']}.get(('g' if sk == 'g' else 'u') + dk, ['', 'box']))
        if how != 'box' and dk == 'u' and sk == 'g':
            pass
        elif dk == 'u' and rng.random() < 0.3:
            kern = rng.choice(['nn_h', 'nn_t'] if 'time' in sstds else ['nn_h'])
            if not {'latitude', 'longitude'} <= set(sstds):
                kern = 'mean'
        data = []
        same = rng.random() < 0.7
        for w in range(rng.choice([1, 1, 2, 3])):
            if w and same:
                cs, n = data[0]['cs'], len(data[0]['v'])
            else:
                # the variables of a list have coordinates of one shape, at possibly different places
                if not w:
                    dstds = list(stds)
                    rng.shuffle(dstds)
                if dk == 'g':
                    cs = [axis(s, -2, 7, 4) if not w else dict(a, v=[x + d for x in a['v']]) for s, a, d in
                          zip(dstds, data[0]['cs'] if w else dstds, rng.choices([0, 0, 1, -1], k=3))]
                    n = int(np.prod([len(a['v']) for a in cs]))
                else:
                    n = len(data[0]['v']) if w else rng.choice([1, 4, 8])
                    cs = [{'std': s, 'v': points(n, s, 1)} for s in dstds]
            p = rng.choice([0, 0.2, 0.4])
            data.append({'name': 'v%d' % w, 'long': rng.choice(['long x', 'l%d' % w]), 'units': rng.choice(['1', 'm', 'K']),
                         'stdname': rng.choice(['', '', 'air_temperature', 'mass_concentration_of_ozone_in_air']),
                         'cs': cs, 'v': [rng.randint(-9, 19) for _ in range(n)],
                         'm': [int(rng.random() < p) for _ in range(n)] if p else []})
        yield {'skind': sk, 'dkind': dk, 'how': how, 'kern': kern, 'knames': [rng.choice(['', w]) for w in ('centre', 'spread', 'n')] if kern == 'moments' and rng.random() < 0.5 else ['', '', ''], 'sshape': [2, 3] if sk != 'g' and ns == 6 and rng.random() < 0.4 else [], 'dkern': int(kern == 'moments' and rng.random() < 0.5),
               'missing': rng.choice([-1, 0, 1]), 'sc': sc, 'sv': [rng.randint(-9, 9) for _ in range(ns)],
               'sm': [int(rng.random() < 0.4) for _ in range(ns)] if sk != 'c' and rng.random() < 0.7 else [],
               'scalar': int(rng.random() < 0.3), 'name': rng.choice(['', 'renamed']), 'long': rng.choice(['', 'new long']),
               'units': rng.choice(['', 'kg']), 'fill': rng.choice([ABSENT, ABSENT, -999, 0, 7]), 'via': rng.randint(0, 1), 'data': data}


def variable(case, d):
    if case['dkind'] == 'u':
        return build.ungridded({'coords': d['cs'], 'v': d['v'], 'm': d['m'], 'name': d['name'], 'long': d['long'],
                                'units': d['units'], 'stdname': d['stdname'] or None, 'history': 'made'}, q=1)
    return build.cube({'axes': [{'std': a['std'], 'pts': a['v']} for a in d['cs']], 'v': d['v'], 'm': d['m'], 'name': d['name'],
                       'long': d['long'], 'units': d['units'], 'stdname': d['stdname']}, q=1)


def sample_of(case):
    if case['skind'] == 'g':
        aux = [{'std': 'altitude', 'var': 'alt', 'dims': [], 'v': [3]}] if case['scalar'] else []
        return build.cube({'axes': [{'std': a['std'], 'pts': a['v']} for a in case['sc']], 'aux': aux, 'v': case['sv'],
                           'm': case['sm'], 'name': 'smp'}, q=1)
    if case['skind'] == 'u':
        return build.ungridded({'shape': case.get('sshape') or None, 'coords': case['sc'], 'v': case['sv'], 'm': case['sm'], 'name': 'smp'}, q=1)
    return build.coords_only({'shape': case.get('sshape') or None, 'coords': case['sc']}, q=1)


def turn(coords):
    for c in coords:        # longitudes may be reported in another convention
        if c['std'] == 'longitude':
            c['v'] = [v % 360 if v not in C.SPECIAL else v for v in c['v']]
    return coords


def snap(o, kind):
    if kind == 'g':
        return dict(build.snap_gd(o, 1), coords=[])
    if kind == 'c':
        return {'axes': [], 'aux': [], 'v': [], 'shape': [], 'coords': turn(sorted(
            [{'std': c.standard_name, 'v': C.enc_arr(c.data)} for c in o.coords()], key=lambda c: c['std']))}
    s = build.snap_ug(o, 1)
    return {'axes': [], 'aux': [], 'shape': [int(x) for x in o.data.shape], 'v': s['v'], 'coords': turn(s['coords'])}


def collocate(case, data, sample, **kw):
    if case['how']:
        kw['how'] = case['how']
    if case['kern'] and not case['dkern']:
        kw['kernel'] = case['kern']
    if any(case['knames']):
        from cis.collocation.col_framework import get_kernel
        kw['kernel'] = get_kernel('moments')(**{k: v for k, v in zip(('mean_name', 'stddev_name', 'nopoints_name'), case['knames']) if v})
    if case['dkind'] == 'u' and case['how'] == 'box' or (case['skind'] != 'g' and case['dkind'] == 'u'):
        if 'nn' not in case['kern'] and {'latitude', 'longitude'} <= {c['std'] for c in case['sc']}:
            kw['h_sep'] = 400
    res = data.collocated_onto(sample, **kw) if case['via'] else sample.sampled_from(data, **kw)
    return list(res) if isinstance(res, list) else [res]


def execute(case):
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    cls = UngriddedDataList if case['dkind'] == 'u' else GriddedDataList
    objs = [variable(case, d) for d in case['data']]
    data = cls(objs) if len(objs) > 1 else objs[0]
    sample = sample_of(case)

    def state():
        return [snap(o, case['dkind']) for o in objs] + [snap(sample, case['skind'])]
    before = state()
    kw = {}
    for k, o in (('var_name', 'name'), ('var_long_name', 'long'), ('var_units', 'units')):
        if case[o]:
            kw[k] = case[o]
    if case['fill'] != ABSENT:
        kw['fill_value'] = case['fill']
    if case['missing'] >= 0:
        kw['missing_data_for_missing_sample'] = bool(case['missing'])
    res = collocate(case, data, sample, **kw)
    after = state()
    out = []
    for r in res:
        gridded = case['skind'] == 'g'
        coords = [{'std': a['std'], 'v': a['pts']} for a in build.snap_gd(r, 1, aux=False)['axes']] if gridded else \
            turn(build.snap_ug(r, 1)['coords'])
        md = np.ma.asarray(r.data)
        hist = r.attributes.get('history', '') if gridded else r.history
        out.append({'name': str(r.var_name), 'long': str(r.long_name), 'units': str(r.units), 'std': str(r.standard_name or ''),
                    'coords': coords, 'v': C.enc_arr(r.data, 1000, True), 'filled': C.enc_arr(md.filled()),
                    'hist': int('Collocated onto sampling from' in hist)})
    ref = [[C.enc_arr(r.data, 1000, True) for r in collocate(case, variable(case, d), sample_of(case), missing_data_for_missing_sample=False)]
           for d in case['data']]
    return {'outcome': 'ok', 'res': out, 'ref': ref, 'before': before, 'after': after,
            'scoords': before[-1]['coords']}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(x != C.MASKED for x in r['out']['res'][0]['v'])


def matches_finding(f, case, out, clauses):
    return False
