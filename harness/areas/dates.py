"""T03: partial dates, durations and limits."""
import argparse
import contextlib
import io
import os
import tempfile

import numpy as np

import build
import common as C
from areas.times import instant

JUDGE = 'JudgeDates'
GEN = ['GenDates']
FORMS = ['noclose', 'noopen', 'trail', 'nodim', 'empty', 'blank', 'double', 'extra']
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def models(tier):
    return [('MCDates', 'MCDates' if tier == 'quick' else 'MCDates_t')]


def fields(rng, years=(1600, 1899, 1900, 1996, 2000, 2004, 2010, 2019, 2100), bad=0.0):
    y = rng.choice(years)
    m = rng.choice([1, 2, 2, 3, 4, 6, 11, 12])
    d = rng.choice([1, 2, LEN[m - 1], 28])
    if m == 2 and rng.random() < 0.3:
        d = 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28
    f = [y, m, d, rng.choice([0, 5, 12, 23]), rng.choice([0, 30, 59]), rng.choice([0, 9, 59])]
    if rng.random() < bad:
        k = rng.randint(1, 5)
        f[k] = rng.choice([[0], [0, 13], [0, 29, 30, 31, 32], [24], [60], [60, 61]][k])
        return f[:rng.randint(k + 1, 6)]
    return f[:rng.randint(1, 6)]


def text(f, sep, w=2):
    s = '%04d' % f[0]
    for k, v in enumerate(f[1:], 1):
        s += ['', '-', '-', sep, ':', ':'][k] + ('%0*d' % (w, v))
    return s


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(0, len(s))
        op = rng.random()
        c = rng.choice('0123456789-:T P')
        if op < 0.4 and k < len(s):
            s[k] = c
        elif op < 0.7:
            s.insert(k, c)
        elif k < len(s) and len(s) > 1:
            del s[k]
    return ''.join(s)


def duration(rng):
    d = [str(rng.choice([0, 1, 2, 7, 15, 30, 90])) + u for u in 'YMD' if rng.random() < 0.4]
    t = [str(rng.choice([0, 1, 5, 24, 30, 90])) + u for u in 'HMS' if rng.random() < 0.4]
    if rng.random() < 0.2:
        rng.shuffle(d)
        rng.shuffle(t)
    s = 'P' + ''.join(d) + ((rng.choice('TTT: ') + ''.join(t)) if t else '')
    if rng.random() < 0.3:
        k = rng.randint(0, len(s) - 1)
        op = rng.random()
        c = rng.choice('0123456789YMDTHSPQ: -')
        s = s[:k] + (c if op < 0.6 else '') + s[k + (0 if op < 0.3 else 1):]
    if rng.random() < 0.2:
        s = s.lower()
    return s


def random_cases(rng, tier):
    for _ in range(700 if tier == 'quick' else 12000):
        kind = rng.choice(['date', 'date', 'date', 'lib', 'dur', 'num', 'sub', 'sub', 'agg'])
        sep = rng.choice('TT: ')
        if kind == 'lib':
            yield {'kind': kind, 'f': fields(rng, bad=0.3)}
        elif kind == 'dur':
            yield {'kind': kind, 'd': list(duration(rng))}
        elif kind == 'date':
            s = text(fields(rng, bad=0.15), sep, rng.choice([1, 2]))
            e = text(fields(rng, bad=0.15), sep, 2) if rng.random() < 0.7 else ''
            if rng.random() < 0.2:
                s = mutate(rng, s)
            if e and rng.random() < 0.2:
                e = mutate(rng, e)
            cmd = rng.choice(['subset', 'aggregate'])
            d = duration(rng) if (cmd == 'aggregate' and e and rng.random() < 0.6) or rng.random() < 0.05 else ''
            if not e:
                d = ''
            form = 'ok' if rng.random() < 0.85 else rng.choice(FORMS)
            if not s or any(not x.strip() for x in (s,)):
                continue
            yield {'kind': kind, 'cmd': cmd, 'dim': rng.choice(['t', 't', 'time', 'T', 'Time', 'foo']), 'form': form, 's': list(s), 'e': list(e), 'd': list(d)}
        elif kind == 'num':
            n = rng.choice([0, 1, 2, 2, 2, 3, 3, 3, 4])
            v = [rng.choice([-720, -361, -1, 0, 1, 359, 720, 1080, 1440, 1441, rng.randint(-1500, 1500)]) for _ in range(n)]
            if n > 2:
                v[2] = rng.choice([1, 2, 4, 40])
            yield {'kind': kind, 'cmd': rng.choice(['subset', 'aggregate']), 'dim': rng.choice(['x', 'x', 'X', 'y', 'z', 'p', 'longitude', 'foo']),
                   'form': 'ok' if rng.random() < 0.85 else rng.choice(FORMS), 'v': v, 'sp': rng.randint(0, 2)}
        else:
            a, b = fields(rng, (1900, 2000, 2004, 2010)), fields(rng, (2000, 2004, 2010))
            if kind == 'sub':
                e = text(b, sep) if rng.random() < 0.6 else ''
                pts = [day(rng, a, b) for _ in range(12)]
                yield {'kind': kind, 'cmd': 'subset', 'dim': rng.choice(['t', 'time']), 'form': 'ok', 's': list(text(a, sep)), 'e': list(e), 'd': [],
                       'n': [[p // 86400, p % 86400] for p in (sorted(set(pts)))], 'g': rng.randint(0, 1)}
            else:
                y = rng.choice([2000, 2003, 2004])
                a, b = sorted([fields(rng, (y,)), fields(rng, (y,))])
                d = rng.choice(['P1M', 'P10D', 'P1Y', 'P20DT12H', 'P30DT1M1S', 'P15DT30M'])
                if last(b) <= secs(a):
                    continue
                yield {'kind': kind, 'cmd': 'aggregate', 'dim': 't', 'form': 'ok', 's': list(text(a, sep)), 'e': list(text(b, sep)),
                       'd': list(d) if rng.random() < 0.8 else [], 'lib': rng.randint(0, 1)}


def secs(f):
    """seconds since 1600 of the first instant of a partial date (only used to place points, not to judge)"""
    import datetime
    g = list(f) + [1, 1, 0, 0, 0][len(f) - 1:]
    x = datetime.datetime(*g) - datetime.datetime(1600, 1, 1)
    return x.days * 86400 + x.seconds


def last(f):
    import datetime
    if len(f) == 1:
        return secs([f[0] + 1]) - 1
    if len(f) == 2:
        return secs([f[0] + f[1] // 12, f[1] % 12 + 1]) - 1
    return secs(f) + {3: 86400, 4: 3600, 5: 60, 6: 1}[len(f)] - 1


def day(rng, a, b):
    base = rng.choice([secs(a), last(a), secs(b), last(b)])
    return base + rng.choice([-86400, -3600, -60, -1, 0, 0, 1, 60, 3600, 86400])


def segment(case, vals):
    dim, form = case['dim'], case['form']
    inner = ','.join(vals)
    return {'ok': '%s=[%s]' % (dim, inner), 'noclose': '%s=[%s' % (dim, inner), 'noopen': '%s=%s]' % (dim, inner), 'trail': '%s=[%s]1' % (dim, inner),
            'nodim': '=[%s]' % inner, 'empty': '%s=[]' % dim, 'blank': '%s=[%s,,%s]' % (dim, inner, '1'), 'double': '%s==[%s]' % (dim, inner),
            'extra': '%s=[%s,1,2,3]' % (dim, inner)}[form]


def parse(case, vals):
    from cis.parse import parse_args
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.nc')
        open(f, 'w').close()
        with contextlib.redirect_stderr(io.StringIO()):
            a = parse_args([case['cmd'], 'v:' + f, segment(case, vals), '-o', os.path.join(d, 'out')])
    return a.limits if case['cmd'] == 'subset' else a.grid


def dt(x):
    if x is None:
        return []
    return [x.year, x.month, x.day, x.hour, x.minute, x.second] if not x.microsecond else [C.BAD]


def delta(x):
    return [x.days, x.seconds] if not x.microseconds else [C.BAD]


def execute(case):
    try:
        return run(case)
    except (SystemExit, argparse.ArgumentTypeError, ValueError) as e:
        if case['kind'] in ('sub', 'agg'):
            return {'outcome': 'error', 'exc': type(e).__name__, 'msg': str(e)[:100]}
        return {'outcome': 'refused'}


def run(case):
    from cis.time_util import PartialDateTime
    out = {'outcome': 'ok'}
    if case['kind'] == 'lib':
        p = PartialDateTime(*case['f'])
        out['lim'] = [dt(p.min()), dt(p.max())]
        if list(p.range()) != [p.min(), p.max()]:
            out['lim'] = []
        return out
    if case['kind'] == 'dur':
        from cis.parse_datetime import parse_as_number_or_datetime_delta, parse_datetimestr_delta_to_float_days
        s = ''.join(case['d'])
        try:
            f = parse_datetimestr_delta_to_float_days(s)
        except ValueError:
            f = None
        try:
            d = parse_as_number_or_datetime_delta(s)
        except argparse.ArgumentTypeError:
            if f is None:
                raise
            return {'outcome': 'ok', 'dur': [C.BAD]}
        out['dur'] = delta(d) if f is not None and instant(f) == delta(d) else [C.BAD]
        return out
    if case['kind'] == 'num':
        vals = [[repr(v / 4), '%.2f' % (v / 4), str(v // 4) if v % 4 == 0 else repr(v / 4)][case['sp']] for v in case['v']]
        r = parse(case, vals)[case['dim']]
        if r is None:
            return {'outcome': 'ok', 'num': [], 'nstep': []}
        enc = lambda x: C.BAD if x is None else C.enc(x, 4)
        if case['cmd'] == 'subset':
            out.update(num=[enc(x) for x in r], nstep=[])
        else:
            out.update(num=[enc(r.start), enc(r.stop)], nstep=[enc(r.step)])
        return out
    vals = [''.join(x) for x in (case['s'], case['e'], case['d']) if x]
    parsed = parse(case, vals)
    if case['kind'] == 'date':
        if set(parsed) != {case['dim']}:
            return {'outcome': 'ok', 'lim': [], 'step': []}
        r = parsed[case['dim']]
        if r is None:
            return {'outcome': 'ok', 'lim': [], 'step': []}
        if isinstance(r, PartialDateTime):
            out.update(lim=[dt(r.min()), dt(r.max())], step=[])
        elif case['cmd'] == 'subset':
            out.update(lim=[dt(x) if hasattr(x, 'year') else [C.BAD] for x in r], step=[])
        else:
            out.update(lim=[dt(x) if hasattr(x, 'year') else [C.BAD] for x in (r.start, r.stop)],
                       step=delta(r.step) if hasattr(r.step, 'days') else [C.BAD])
        return out
    if case['kind'] == 'sub':
        n = [a + b / 86400. for a, b in case['n']]
        v = list(range(1, len(n) + 1))
        if case['g']:
            import iris.coords
            from cis.data_io.gridded_data import GriddedData
            data = GriddedData(np.array(v, float), var_name='x', dim_coords_and_dims=[(iris.coords.DimCoord(
                n, standard_name='time', var_name='time', units=build.t_unit()), 0)])
        else:
            data = build.ungridded({'shape': [len(n)], 'coords': [{'std': 'time', 'v': [0] * len(n)}], 'v': v})
            data.coord('time').data = np.array(n)
        r = data.subset(**parsed)
        out['kept'] = [] if r is None else [int(x) for x in np.ma.asanyarray(r.data).reshape(-1)]
        return out
    from datetime import timedelta
    g = parsed['t']
    a, b = [(x.toordinal() - 584023) + (x.hour * 3600 + x.minute * 60 + x.second) / 86400. for x in (g.start, g.stop)]
    data = build.ungridded({'shape': [3], 'coords': [{'std': 'time', 'v': [0] * 3}], 'v': [1, 2, 3]})
    data.coord('time').data = np.array([a, (a + b) / 2, b])
    if case['lib']:
        parsed = {'t': [g.start, g.stop, g.step]}
    r = data.aggregate(how='max', **parsed)
    bnds = r.coord('time').bounds
    out.update(lo=[instant(x) for x in bnds[:, 0]], hi=[instant(x) for x in bnds[:, 1]])
    return out


def nontrivial(r):
    return r['out'].get('outcome') in ('ok', 'refused')


def matches_finding(f, case, out, clauses):
    return False
