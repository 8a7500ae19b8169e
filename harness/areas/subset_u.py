"""S01: subsetting ungridded data by limits."""
import datetime

import build
import common as C

JUDGE = 'JudgeSubsetU'
GEN = ['GenSubsetU']
ABSENT = -88888888
KEYS = {'latitude': ['latitude', 'y', 'lat', 'Y'], 'longitude': ['longitude', 'x', 'lon'],
        'altitude': ['altitude', 'z'], 'time': ['time', 't'], 'air_pressure': ['air_pressure', 'pres']}
VAR = {'latitude': 'lat', 'longitude': 'lon', 'altitude': 'alt', 'time': 'time', 'air_pressure': 'pres'}
DAY0 = 149000     # days since 1600 of the base date of time coordinates


def models(tier):
    return [('MCSubset', 'MCSubset' if tier == 'quick' else 'MCSubset_t')]


def scale(case):
    """units of time in a day, and the day which times count from"""
    tq = case.get('tq', case['q'])
    return tq, DAY0 if tq <= 256 else 5000


def day0(base=DAY0):
    return datetime.datetime(1600, 1, 1) + datetime.timedelta(days=base)


def random_cases(rng, tier):
    q = 4
    for _ in range(500 if tier == 'quick' else 8000):
        shape = rng.choice([[1], [2], [5], [9], [2, 3], [3, 4]])
        n = 1
        for s in shape:
            n *= s
        stds = ['latitude', 'longitude'] + rng.sample(['altitude', 'time', 'air_pressure'], rng.choice([0, 1, 2]))
        if rng.random() < 0.3:
            rng.shuffle(stds)
        lo = rng.choice([-180, 0, -180, 0, -90]) * q
        grain = rng.choice([q * 45, q * 30, q * 10, 1])
        coords = []
        # a quarter of a day, or 10.546875 seconds: just as exact, both as days and as a date with microseconds
        tq, base = scale({'q': q, 'tq': rng.choice([q, q, 8192])})
        for s in stds:
            if s == 'longitude':
                v = [lo + rng.randrange(0, 360 * q + 1, grain) for _ in range(n)]
            elif s == 'latitude':
                v = [rng.randrange(-90 * q, 90 * q + 1, grain) for _ in range(n)]
            elif s == 'time':
                v = [base * tq + rng.choice([0, 0, tq]) + rng.randint(0, 3 * q) for _ in range(n)]
            else:
                v = [rng.randint(0, 8) * q for _ in range(n)]
            coords.append({'std': s, 'v': v, 'name': VAR[s], 'q': tq if s == 'time' else q})
        is_list = 1 if rng.random() < 0.3 else 0
        vs = [{'v': [rng.randint(-50, 50) for _ in range(n)],
               'm': [int(rng.random() < 0.3) for _ in range(n)] if rng.random() < 0.5 else []}
              for _ in range(rng.choice([2, 3]) if is_list else 1)]
        lims, form = [], rng.choice(['slice', 'list', 'tuple'])
        for s in rng.sample(stds, rng.choice([1, 1, 2, min(3, len(stds))])):
            vals = ByStd(coords, s)
            if s == 'longitude':
                a = rng.choice([-180, -90, 0, 30, 90, 180, 270]) * q + rng.choice([0, 0, 1, -1])
                if rng.random() < 0.4:
                    a = rng.choice(vals) + rng.choice([-360, 0, 0, 360]) * q
                b = a + rng.choice([0, grain, 20 * q, 90 * q, 180 * q, 270 * q, 360 * q])
                b = min(b, a + 360 * q)
            else:
                a = rng.choice(vals) + rng.choice([0, 0, 0, 1, -1])
                b = rng.choice(vals) + rng.choice([0, 0, 0, 1, -1])
                a, b = min(a, b), max(a, b)
            if rng.random() < 0.12 and s != 'longitude':
                a = ABSENT
            elif rng.random() < 0.12 and s != 'longitude':
                b = ABSENT
            lim = {'std': s, 'key': rng.choice(KEYS[s]), 'lo': a, 'hi': b}
            if s == 'time':
                lim['as'] = rng.choice(['datetime', 'number', 'partial'])
                if lim['as'] == 'partial':      # a whole day
                    d = rng.randint(0, 2)
                    lim['lo'], lim['hi'] = (base + d) * tq, (base + d + 1) * tq - 1
            lims.append(lim)
        yield {'q': q, 'tq': tq, 'shape': shape, 'list': is_list, 'form': form, 'coords': coords, 'vars': vs, 'lims': lims}


def ByStd(coords, s):
    return [c for c in coords if c['std'] == s][0]['v']


def limit(lim, form, case):
    from cis.time_util import PartialDateTime
    case = case if isinstance(case, dict) else {'q': case}
    tq, base = scale(case)
    q = tq if lim['std'] == 'time' else case['q']
    kind = lim.get('as', 'number')
    if kind == 'partial':
        d = day0(base) + datetime.timedelta(days=lim['lo'] // q - base)
        p = PartialDateTime(d.year, d.month, d.day)
        return p if form == 'slice' else [p]

    def conv(x):
        if x == ABSENT:
            return None
        if kind == 'datetime':
            return day0(base) + datetime.timedelta(days=(x - base * q) / q)
        return x / q
    a, b = conv(lim['lo']), conv(lim['hi'])
    return slice(a, b) if form == 'slice' else [a, b] if form == 'list' else (a, b)


def execute(case):
    from cis.data_io.ungridded_data import UngriddedDataList
    q = case['q']
    objs = [build.ungridded({'shape': case['shape'], 'coords': case['coords'], 'v': v['v'], 'm': v['m'],
                             'name': 'v%d' % k}, q=q) for k, v in enumerate(case['vars'])]
    data = UngriddedDataList(objs) if case['list'] else objs[0]
    qd = dict({x: q for x in VAR}, time=scale(case)[0])
    before = [build.snap_ug(o, qd) for o in objs]
    res = data.subset(**{l['key']: limit(l, case['form'], case) for l in case['lims']})
    after = [build.snap_ug(o, qd) for o in objs]
    if res is None:
        return {'outcome': 'none', 'before': before, 'after': after}
    res = res if isinstance(res, list) else [res]
    return {'outcome': 'ok', 'vars': [build.snap_ug(r, qd) for r in res], 'before': before, 'after': after}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and len(r['out']['vars'][0]['v']) < len(r['vars'][0]['v'])


def matches_finding(f, case, out, clauses):
    return False
