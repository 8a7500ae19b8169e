"""D01, D02: ungridded datasets, what they expose and how copies behave."""
import numpy as np

import build
import common as C

JUDGE = 'JudgeUngridded'
GEN = ['GenUngridded']
STDS = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']
PROP = 'D02'


def for_property(prop):
    global PROP
    PROP = prop


def models(tier):
    return [('MCUngridded', 'MCUngridded' if tier == 'quick' else 'MCUngridded_t')]


class Sim(object):
    """sizes and shapes only: what a program may do next"""
    def __init__(self, shape):
        self.shape = list(shape)

    @property
    def n(self):
        return int(np.prod(self.shape))


def random_cases(rng, tier):
    for n_ in range(450 if tier == 'quick' else 6000):
        two = rng.random() < 0.4
        shape = [rng.choice([1, 2, 3]), rng.choice([1, 2, 4])] if two else [rng.choice([1, 2, 3, 5, 8])]
        n = int(np.prod(shape))
        stds = rng.sample(STDS, rng.choice([1, 2, 3, 5, 5]))
        miss = rng.choice([0, 0.15, 0.4, 1.0]) if PROP == 'D01' or rng.random() < 0.3 else 0
        cs, gone = [], [0] * n
        for s in stds:
            base = 149000 if s == 'time' else 0
            v = [base + rng.randint(-9, 9) for _ in range(n)]
            m = []
            if rng.random() < 0.6:
                for k in range(n):
                    if rng.random() < miss * 0.5:
                        v[k] = C.NAN
                        gone[k] = 1
            if rng.random() < 0.6:
                m = [int(rng.random() < miss * 0.5) for _ in range(n)]
                gone = [int(a or b) for a, b in zip(gone, m)]
            cs.append({'std': s, 'v': v, 'm': m})
        kind = 'c' if PROP == 'D01' and rng.random() < 0.2 else 'd'
        p = rng.choice([0, 0.3, 0.6, 1.0])
        case = {'shape': shape, 'cs': cs, 'v': [] if kind == 'c' else [rng.randint(-9, 9) for _ in range(n)],
                'm': [int(rng.random() < p) for _ in range(n)] if p and kind == 'd' else [], 'name': 'x',
                'dtype': rng.choice(['f8', 'f8', 'f4', 'i4']), 'kind': kind, 'first': rng.randint(0, 8), 'twin': rng.choice([0, 0, 1]),
                'lazy': rng.choice([0, 0, 1, 2]) if kind == 'd' and shape[0] > 1 else rng.choice([0, 1]) if kind == 'd' else 0, 'ops': []}
        left = n - sum(gone)
        heap = [Sim(shape if left == n else [left])]
        if kind == 'd' and left:
            shared = False
            derive = n_ % 4 == 0        # something is made of the first, and then either is changed
            for k_ in range(rng.choice([2, 3]) if derive else rng.choice([0, 1, 2, 4, 6])):
                o = rng.randrange(len(heap))
                h = heap[o]
                opts = ['slice', 'slice', 'copy', 'bool', 'with', 'like']
                if len(h.shape) == 2:
                    opts.append('row')
                if not shared and h.n:
                    opts += ['setv', 'maskv', 'data', 'setc', 'setc', 'setc', 'lon', 'name', 'units', 'note', 'att', 'hist', 'cname', 'look']
                if derive:
                    opts = opts[:6] if not k_ else opts[6:] or opts
                op = rng.choice(opts)
                a, s = [], ''
                if not h.n:
                    continue
                if op == 'slice':
                    r = h.shape[0]
                    x, y = rng.randint(0, r), rng.randint(0, r)
                    a = [min(x, y), max(x, y), rng.choice([1, 1, 2])] if x != y else [r - 1, -1, -1]
                    rows = len(range(*a))
                    if not rows:
                        continue
                    heap.append(Sim([rows] + h.shape[1:]))
                elif op == 'row':
                    a = [rng.randrange(h.shape[0])]
                    heap.append(Sim(h.shape[1:]))
                elif op == 'bool':
                    a = [int(rng.random() < 0.6) for _ in range(h.n)]
                    if not sum(a):
                        continue
                    heap.append(Sim([sum(a)]))
                elif op == 'copy':
                    heap.append(Sim(h.shape))
                elif op == 'with':
                    a = [rng.randint(-9, 9) for _ in range(h.n)]
                    heap.append(Sim(h.shape))
                elif op == 'like':
                    a, s = [rng.randint(-9, 9) for _ in range(h.n)], 'other'
                    heap.append(Sim([h.n]))
                    shared = True           # on the very coordinates of the first
                elif op == 'setv':
                    a = [rng.randrange(h.n), rng.randint(20, 40)]
                elif op == 'maskv':
                    a = [rng.randrange(h.n)]
                elif op == 'data':
                    a = [rng.randint(-9, 9) for _ in range(h.n)]
                elif op == 'setc':
                    a = [rng.randrange(len(stds)), rng.randrange(h.n), rng.randint(20, 40)]
                    if rng.random() < 0.3:
                        a[2] = C.NAN
                        h.shape = [h.n - 1]
                elif op == 'cname':
                    a, s = [rng.randrange(len(stds))], 'other'
                elif op == 'lon':
                    if 'longitude' not in stds:
                        continue
                    a = [rng.choice([-180, 0, 3, 100])]
                else:
                    s = rng.choice(['renamed', 'again']) if op in ('name', 'note', 'att') else rng.choice(['m', 'K'])
                case['ops'].append({'op': op, 'o': o + 1, 'a': a, 's': s})
        yield case


def view(u, case):
    """everything the dataset shows; case['first'] says where to begin looking"""
    from cis.time_util import cis_standard_time_unit as unit
    r = {}

    def order(d):
        return [{'std': c.standard_name, 'v': d[c.standard_name]} for c in u.coords()]

    def data():
        r['v'] = C.enc_arr(u.data)
        r['shape'] = [int(s) for s in u.data.shape]

    def coords():
        r['cs'] = [{'std': c.standard_name, 'v': C.enc_arr(c.data)} for c in u.coords()]

    def flat():
        r['flat'] = C.enc_arr(u.data_flattened)

    def cflat():
        r['cflat'] = [{'std': c.standard_name, 'v': C.enc_arr(c.data_flattened)} for c in u.coords()]
        by = dict(zip(STDS, u.coords_flattened))
        r['cflat'] = order({s: C.enc_arr(by[s]) for s in by if by[s] is not None})

    def df():
        t = u.as_data_frame(time_index=False, name='vals')
        r['df'] = {'cs': [{'std': c.standard_name, 'v': C.enc_arr(t[c.standard_name].values)} for c in u.coords()],
                   'v': C.enc_arr(t['vals'].values) if 'vals' in t else []}

    def tix():
        r['tix'] = []
        if any(c.standard_name == 'time' for c in u.coords()):
            r['tix'] = [C.enc(unit.date2num(x)) for x in u.as_data_frame().index]

    def points():
        ps = list(u.get_all_points())
        r['pts'] = {'cs': order({s: [C.enc(p[k]) for p in ps] for k, s in enumerate(STDS)}),
                    'v': [C.MASKED if p.val[0] is np.ma.masked else C.enc(p.val[0]) for p in ps if len(p.val)]}

    def nonmasked():
        r['nm'] = [C.enc(p.val[0]) for p in u.get_non_masked_points() if len(p.val)]

    def rest():
        r['count'] = int(u.count())
        r['name'] = str(u.var_name)
        r['note'], r['att'] = str(u.metadata.misc.get('note', '')), str(u.attributes.get('note', ''))
        r['hist'] = len(u.metadata.history.splitlines())
        r['units'] = str(u.units) if hasattr(u, 'units') else ''
        r['hyper'] = []
        if len(u.coords()) == 5 and u.coords()[0].data.size:
            p = u.hyper_point(u.coords()[0].data.size - 1)
            r['hyper'] = order({s: [C.enc(p[k])] for k, s in enumerate(STDS)})
    r['cn'] = [str(c.var_name) for c in u.coords()]
    looks = [data, coords, flat, cflat, df, tix, points, nonmasked, rest]
    if case['kind'] == 'c':
        looks = [coords, cflat, df, points, tix]
        r.update(shape=[int(s) for s in u.coords()[0].data.shape], v=[], flat=[], nm=[], count=0, name='', units='', hyper=[])
    f = case['first'] % len(looks)
    for look in looks[f:] + looks[:f]:
        look()
    return r


def execute(case):
    src = {'shape': case['shape'], 'coords': [dict(c) for c in case['cs']], 'v': case['v'], 'm': case['m'], 'name': case['name'],
           'dtype': {'f8': 'float64', 'f4': 'float32', 'i4': 'int32'}[case['dtype']]}
    if case['kind'] == 'c':
        heap = [build.coords_only(src, q=1)]
    else:
        coords = build.ug_coords(src, 1, case['lazy'])
        if case.get('twin'):        # another variable on the same coordinates
            build.ungridded(src, q=1, lazy=case['lazy'], coords=coords).coords()
        heap = [build.ungridded(src, q=1, lazy=case['lazy'], coords=coords)]
    obs = [[view(u, case) for u in heap]]
    for p in case['ops']:
        u, a = heap[p['o'] - 1], p['a']
        if p['op'] in ('setv', 'maskv', 'setc') and a[-2 if p['op'] != 'maskv' else 0] >= u.data.size:
            p = dict(p, op='look')
        if p['op'] == 'slice':
            heap.append(u[slice(a[0], None if a[1] < 0 else a[1], a[2])])
        elif p['op'] == 'row':
            heap.append(u[a[0]])
        elif p['op'] == 'bool':
            heap.append(u[np.array(a, bool).reshape(u.data.shape)])
        elif p['op'] == 'copy':
            heap.append(u.copy())
        elif p['op'] == 'with':
            heap.append(u.copy(data=np.array(a, float).reshape(u.data.shape)))
        elif p['op'] == 'like':
            heap.append(u.make_new_with_same_coordinates(data=np.array(a, float).reshape(u.data.shape), var_name=p['s'], units=u.units, flatten=True))
        elif p['op'] == 'setv':
            u.data[np.unravel_index(a[0], u.data.shape)] = a[1]
        elif p['op'] == 'maskv':
            d = np.ma.array(u.data)
            d[np.unravel_index(a[0], d.shape)] = np.ma.masked
            u.data = d
        elif p['op'] == 'data':
            u.data = np.array(a, float).reshape(u.data.shape)
        elif p['op'] == 'setc':
            u.coords()[a[0]].data[np.unravel_index(a[1], u.data.shape)] = float('nan') if a[2] == C.NAN else a[2]
            u.coords()
        elif p['op'] == 'lon':
            u.set_longitude_range(a[0])
        elif p['op'] == 'name':
            u.var_name = p['s']
        elif p['op'] == 'note':
            u.metadata.misc['note'] = p['s']
        elif p['op'] == 'att':
            u.add_attributes({'note': p['s']})
        elif p['op'] == 'hist':
            u.add_history('looked at')
        elif p['op'] == 'cname':
            u.coords()[a[0]].var_name = p['s']
        elif p['op'] == 'units':
            u.units = p['s']
        obs.append([view(x, case) for x in heap])
    return {'outcome': 'ok', 'obs': obs}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and len(r['out']['obs'][0][0]['cs'][0]['v']) > 0


def matches_finding(f, case, out, clauses):
    return False
