"""D03: set_longitude_range."""
import build
import common as C
import gridgen
from areas import subset_g

JUDGE = 'JudgeLonRange'
GEN = ['GenLonRange']


def models(tier):
    return [('MCLonRange', 'MCLonRange' if tier == 'quick' else 'MCLonRange_t')]


def random_cases(rng, tier):
    q = 4
    for _ in range(300 if tier == 'quick' else 6000):
        starts = [rng.choice([-180, 0, -180, 0, -90, 30, 180, -360, 100]) * q + rng.choice([0, 0, 1, -1])
                  for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.6:
            axes, n = gridgen.grid(rng, q, extra=(0, 0, 1, 2))
            aux = []
            for j in range(rng.choice([0, 0, 1, 2])):
                dims = rng.sample([a['std'] for a in axes], rng.choice([1, 2]))
                dims.sort(key=[a['std'] for a in axes].index)
                m = 1
                for d in dims:
                    m *= len([a for a in axes if a['std'] == d][0]['pts'])
                v = [rng.randint(0, 99) for _ in range(m)]
                aux.append({'var': 'aux%d' % j, 'dims': dims, 'v': v,
                            'b': [y for x in v for y in (x - 2, x + 3)] if rng.random() < 0.5 else []})
            if rng.random() < 0.2:
                starts.append(starts[0] + rng.choice(axes[[a['std'] for a in axes].index('longitude')]['pts']))
            yield {'kind': 'g', 'q': q, 'axes': axes, 'aux': aux, 'list': int(rng.random() < 0.2), 'starts': starts,
                   'vars': [gridgen.values(rng, n)]}
        else:
            shape = rng.choice([[1], [5], [8], [2, 3]])
            n = 1
            for s in shape:
                n *= s
            base = rng.choice([-180, 0, -360, 100]) * q
            coords = [{'std': 'latitude', 'v': [rng.randint(-90 * q, 90 * q) for _ in range(n)], 'name': 'lat'},
                      {'std': 'longitude', 'v': [rng.choice([base, base + 360 * q, base + 180 * q,
                                                             base + rng.randint(0, 360 * q)]) for _ in range(n)],
                       'name': 'lon'}]
            yield {'kind': 'u', 'q': q, 'shape': shape, 'coords': coords, 'lazy': rng.choice([0, 0, 1, 2]) if shape[0] > 1 else 0, 'starts': starts,
                   'via': rng.choice(['data', 'data', 'list', 'coords', 'coord', 'flat']), 'vars': [gridgen.values(rng, n)]}


def execute(case):
    from cis.data_io.ungridded_data import UngriddedDataList
    q = case['q']
    obs = []
    if case['kind'] == 'g':
        objs, data = subset_g.make(case)
        for s in case['starts']:
            data.set_longitude_range(s / q)
            r = gridgen.norm_gd(objs[0], case['axes'], case['aux'], q)
            for x, a in zip(r['aux'], case['aux']):
                c = objs[0].coord(a['var'])
                x['b'] = C.enc_arr(c.bounds, q) if c.has_bounds() else []
            obs.append(r)
    else:
        v = case['vars'][0]
        u = build.ungridded({'shape': case['shape'], 'coords': case['coords'], 'v': v['v'], 'm': v['m']}, q=q,
                            lazy=case['lazy'])
        for s in case['starts']:
            via = case['via']
            if via in ('data', 'flat'):
                u.set_longitude_range(s / q)
            elif via == 'list':
                UngriddedDataList([u]).set_longitude_range(s / q)
            elif via == 'coords':
                from cis.data_io.ungridded_data import UngriddedCoordinates
                UngriddedCoordinates(u.coords()).set_longitude_range(s / q)
            else:
                u._coords.get_coord(standard_name='longitude').set_longitude_range(s / q)
            snap = build.snap_ug(u, q)
            if via == 'flat':           # the flattened views have to follow
                snap['coords'] = [{'std': c['std'], 'v': C.enc_arr(u.coord(standard_name=c['std']).data_flattened, q)}
                                  for c in snap['coords']]
            obs.append(snap)
    return {'outcome': 'ok', 'obs': obs}


def nontrivial(r):
    if r['out'].get('outcome') != 'ok':
        return False
    if r['kind'] == 'u':
        return any(c['v'] != [d['v'] for d in r['out']['obs'][0]['coords'] if d['std'] == c['std']][0] for c in r['coords'])
    return any(a['pts'] != b['pts'] for a, b in zip(r['axes'], r['out']['obs'][0]['axes']))


def matches_finding(f, case, out, clauses):
    return False
