"""T02: conversion of times to the standard time axis and back."""
import datetime

import numpy as np

import build
import common as C

JUDGE = 'JudgeTimes'
GEN = ['GenTimes']
SECS = {'days': 86400, 'hours': 3600, 'minutes': 60, 'seconds': 1}
STYLES = ['{u} since {d}', '{U} since {d}', '{u} since: {d}', '{U} Since, {d}', '{u} since {d}']
WORDS = ['{u}', '{U}', '{u} from the file time reference', '{U} since the start', '{u}']


def models(tier):
    return [('MCCalendar', 'MCCalendar' if tier == 'quick' else 'MCCalendar_t')]


def random_cases(rng, tier):
    qs = {'days': [1, 2, 4, 8, 24, 48, 1440], 'hours': [1, 2, 4, 60], 'minutes': [1, 2, 3, 60], 'seconds': [1]}
    for _ in range(400 if tier == 'quick' else 8000):
        conv = rng.choice(['unit', 'unit', 'stamp', 'word', 'tai', 'tai', 'dates', 'julian', 'cube', 'cube'])
        u = rng.choice(list(SECS))
        if conv in ('tai', 'dates'):
            u = 'seconds'
        if conv == 'julian':
            u = 'days'
        q = rng.choice(qs[u])
        y = rng.choice([1600, 1601, 1700, 1858, 1899, 1900, 1950, 1970, 1992, 1993, 2000, 2001, 2008, 2024, 2100])
        mo = rng.choice([1, 2, 2, 3, 6, 12])
        last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        ref = [y, mo, rng.choice([1, 2, 15, last])] + rng.choice([[0, 0, 0], [12, 0, 0], [18, 45, 30], [0, 0, 1], [23, 59, 59]])
        shape = rng.choice([[1], [3], [5], [2, 2], [2, 3], [4]])
        size = int(np.prod(shape))
        span = min(rng.choice([5, 400, 40000]) * 86400 // SECS[u] * q, 2000000000)
        # nothing before the calendar begins
        low = 0 if y == 1600 else -min(span, 360 * 86400 // SECS[u] * q)
        n = [rng.randint(low, span) for _ in range(size)]
        if conv == 'julian':
            ref = [1600, 1, 1, 0, 0, 0]
            n = [rng.randint(2305448 * q, 2460000 * q) for _ in range(size)] if q <= 48 else [rng.randint(1200 * q, 1400 * q) for _ in range(size)]
            if q > 48:
                q, n = 1, [rng.randint(2305448, 2460000) for _ in range(size)]
        case = {'conv': conv, 'u': u, 'ref': ref, 'q': q, 'm': [], 'shape': shape, 'lazy': rng.choice([0, 0, 1, 2]), 'style': rng.randint(0, 4),
                'look': rng.randint(0, 1), 'int': int(q == 1 and rng.random() < 0.5), 'desc': 0, 'pos': rng.randint(0, 2), 'b': [], 'n': n}
        if conv == 'cube':
            case['shape'] = [size]
            case['n'] = sorted(set(n))
            case['shape'] = [len(case['n'])]
            if rng.random() < 0.5:
                case['n'].reverse()
            if rng.random() < 0.5:
                case['b'] = [v + e for v in case['n'] for e in (-1, 1)] if y > 1600 else [v + e for v in case['n'] for e in (0, 1)]
        elif rng.random() < 0.5:
            case['m'] = [int(rng.random() < 0.4) for _ in range(size)]
            if conv != 'dates' and rng.random() < 0.3:
                case['nan'] = 1
        if conv in ('unit', 'cube') and rng.random() < 0.35:
            model_calendar(rng, case)
        if conv != 'dates' and not case['int'] and all(float(np.float32(v / q)) == v / q for v in case['n']):
            case['f4'] = int(conv != 'cube' and rng.random() < 0.5)
        yield case


MONTHS = {'365_day': [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], '366_day': [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], '360_day': [30] * 12}


def model_calendar(rng, case):
    """count in the calendar of a model, leaving out the dates which no other calendar has"""
    cal = rng.choice(list(MONTHS))
    months, per = MONTHS[cal], 86400 // SECS[case['u']] * case['q']
    case['ref'][2] = min(case['ref'][2], 28)
    y, m, d = case['ref'][:3]
    sec = case['ref'][3] * 3600 + case['ref'][4] * 60 + case['ref'][5]
    start = (y - 1600) * sum(months) + sum(months[:m - 1]) + d - 1

    def exists(n):
        if per < 1 or n < 0 and y == 1600:
            return False
        day = start + (n * (86400 // per) + sec) // 86400
        year, r, k = 1600 + day // sum(months), day % sum(months), 0
        while r >= months[k]:
            r, k = r - months[k], k + 1
        leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
        return r < [31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][k]
    if 86400 % per == 0 and all(exists(n) for n in case['n'] + case['b']):
        case['cal'] = cal


def instant(x):
    if x is np.ma.masked or np.ma.is_masked(x):
        return []
    x = float(x)
    if np.isnan(x):
        return []
    if abs(x) > 1e7:
        return [C.BAD]
    day = int(np.floor(x))
    s = (x - day) * 86400
    if abs(s - round(s)) > 1e-3:
        return [C.BAD, 0]
    return [day + int(round(s)) // 86400, int(round(s)) % 86400]


def instants(a):
    return [instant(x) for x in np.ma.asanyarray(a).reshape(-1)]


def fields(d):
    if d is np.ma.masked or d is None:
        return []
    if d.microsecond >= 999000:
        d = d + datetime.timedelta(microseconds=1000000 - d.microsecond)
    elif d.microsecond > 1000:
        return [C.BAD]
    return [d.year, d.month, d.day, d.hour, d.minute, d.second]


def values(case, garbage):
    if case['int']:
        a = np.array(case['n'], dtype='int64')
    else:
        a = np.array([n / case['q'] for n in case['n']])
    if case.get('f4'):
        a = a.astype(np.float32)
    a = a.reshape(case['shape'])
    if case['m']:
        m = np.array(case['m'], dtype=bool).reshape(case['shape'])
        if case.get('nan') and not case['int']:
            a[m] = float('nan')
            return a
        if garbage:
            a[m] = -999 if case['int'] else 9.96921e36
        a = np.ma.array(a, mask=m)
    return a


def stamp(ref):
    return '%04d-%02d-%02d %02d:%02d:%02d' % tuple(ref)


def coordinate(case, a, units):
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import Metadata
    lazy = case['lazy'] if len(case['n']) > 1 else 0
    return Coord(build.Part(a).split(min(lazy, a.shape[0])) if lazy else a, Metadata(name='t', standard_name='time', units=units), 'T', build.read_part if lazy else None)


def execute(case):
    from cis.time_util import cis_standard_time_unit
    conv, u = case['conv'], case['u']
    if conv == 'cube':
        return cube(case)
    words = {'u': u, 'U': u.capitalize(), 'd': stamp(case['ref'])}
    ref = datetime.datetime(*case['ref'])
    out = {'outcome': 'ok'}
    if conv == 'dates':
        a = np.empty(case['shape'], dtype=object)
        dts = [ref + datetime.timedelta(seconds=n) for n in case['n']]
        a.reshape(-1)[:] = dts
        if case['m']:
            a = np.ma.array(a, mask=np.array(case['m'], dtype=bool).reshape(case['shape']))
        else:
            from cis.data_io.hyperpoint import HyperPoint
            out['points'] = [instant(HyperPoint(1, 2, 3, 4, d, [5]).time) for d in dts]
        c = coordinate(case, a, 'DateTime Object')
    else:
        units = {'unit': STYLES[case['style']].format(**words), 'stamp': WORDS[case['style'] % 2].format(**words), 'word': WORDS[case['style']].format(**words),
                 'tai': 'seconds', 'julian': 'Julian Date'}[conv]
        if case.get('cal'):
            from cf_units import Unit
            units = Unit('%s since %s' % (u, stamp(case['ref'])), calendar=case['cal'])
        c = coordinate(case, values(case, True), units)
    if case['look']:
        c.data_flattened
    if conv == 'unit':
        c.convert_to_std_time()
    elif conv in ('stamp', 'word'):
        c.convert_to_std_time(stamp(case['ref']))
    elif conv == 'tai':
        c.convert_TAI_time_to_std_time(ref)
    elif conv == 'julian':
        c.convert_julian_to_std_time()
    elif case['style'] % 2:
        c.convert_datetime_to_standard_time()
    else:
        c.convert_to_std_time()
    out.update(std=instants(c.data), units=int(c.units == cis_standard_time_unit), shape=[int(x) for x in c.data.shape], flat=instants(c.data_flattened))
    c.convert_standard_time_to_datetime()
    out['dates'] = [fields(d) for d in np.ma.asanyarray(c.data).reshape(-1)]
    c.convert_to_std_time()
    out['again'] = instants(c.data)
    return out


def cube(case):
    from cis.time_util import cis_standard_time_unit, convert_cube_time_coord_to_standard_time
    n = len(case['n'])
    axes = [{'std': 'latitude', 'pts': [0, 4]}, {'std': 'longitude', 'pts': [0, 4, 8], 'bnds': [-2, 2, 2, 6, 6, 10]}]
    t = {'std': 'time', 'pts': case['n'], 'bnds': case['b'], 'q': case['q'], 'units': '%s since %s' % (case['u'], stamp(case['ref']))}
    if case.get('cal'):
        from cf_units import Unit
        t['units'] = Unit(t['units'], calendar=case['cal'])
    axes.insert(case['pos'], t)
    g = build.cube({'axes': axes, 'v': list(range(6 * n)), 'm': [int(k % 5 == 0) for k in range(6 * n)], 'name': 'x'}, q=4)

    def rest(x):
        cs = [[c.name(), str(c.var_name), C.enc_arr(c.points, 4), C.enc_arr(c.bounds, 4) if c.has_bounds() else [], [int(d) for d in x.coord_dims(c)]]
              for c in x.coords() if c.name() != 'time']
        tc = x.coord('time')
        return [sorted(cs), str(x.name()), str(x.units), C.enc_arr(x.data), [str(tc.standard_name), str(tc.var_name)], [int(d) for d in x.coord_dims(tc)],
                [c.name() for c in x.coords(dim_coords=True)]]
    before = rest(g)
    r = convert_cube_time_coord_to_standard_time(g)
    tc = r.coord('time')
    out = {'outcome': 'ok', 'std': instants(tc.points), 'units': int(tc.units == cis_standard_time_unit), 'shape': [len(tc.points)], 'before': before,
           'after': rest(r)}
    if case['b']:
        out['bounds'] = instants(tc.bounds)
    return out


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and sum(r['m']) < len(r['n'])


def matches_finding(f, case, out, clauses):
    return False
