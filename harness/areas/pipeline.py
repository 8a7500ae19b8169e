"""P03: what commands write, step by step, against the same work done with the library."""
import contextlib
import datetime
import io
import json
import os
import re
import shutil
import tempfile

import numpy as np

import build
import areas.output as O

JUDGE = 'JudgePipeline'
GEN = ['GenPipeline']
SECONDS = 100
DAY0 = 146097                  # 2000-01-01 in days since 1600-01-01
BASE = datetime.datetime(2000, 1, 1)
PAST = '2001-02-03T04:05:06Z made elsewhere\n with care'


def models(tier):
    return [('MCPipeline', 'MCPipeline' if tier == 'quick' else 'MCPipeline_t')]


def blank(**kw):
    s = {'cmd': '', 'groups': [], 'kernel': '', 'lims': [], 'grid': [], 'dims': [], 'samp': {'file': '', 'var': ''}, 'how': '', 'opts': [],
         'expr': '', 'ov': '', 'units': '', 'attrs': [], 'out': ''}
    s.update(kw)
    return s


KIND = {'g.nc': 'g', 'h.nc': 'g', 'gt.nc': 'g', 'u.nc': 'u', 'u2.nc': 'u', 'v.nc': 'u'}


def random_cases(rng, tier):
    for _ in range(40 if tier == 'quick' else 2500):
        kinds, names, steps = dict(KIND), {f: ['a', 'b', 'c'] for f in KIND}, []
        for n in range(rng.choice([2, 3, 4])):
            made = [f for f in kinds if f not in KIND]
            f = rng.choice(made if made and rng.random() < 0.75 else list(kinds))
            k, vs = kinds[f], rng.sample(names[f], rng.choice([1, min(2, len(names[f]))]))
            cmd = rng.choice(['subset', 'aggregate' if k == 'u' else 'collapse', 'col', 'col', 'eval'])
            s = blank(cmd=cmd, groups=[{'files': [f], 'vars': vs}], out='f%d.nc' % (n + 1))
            lat = [rng.randint(-60, 0), rng.randint(5, 60)]
            nk, nn = k, vs
            kern = rng.choice(['', 'moments', 'mean', 'min', 'max', 'sum' if k == 'u' or cmd == 'collapse' else 'mean', 'stddev'])
            fan = [v + e for v in vs for e in ('', '_std_dev', '_num_points')] if kern in ('', 'moments') else vs
            if cmd == 'subset':
                s['lims'] = rng.choice([[['y'] + lat], [['latitude'] + lat, ['x', 0, 90]], [['x', rng.randint(-10, 20), rng.randint(50, 120)]]])
            elif cmd == 'aggregate':
                s.update(grid=rng.choice([[['y', -90, 90, 30], ['x', 0, 360, 45]], [['latitude', -90, 90, 60]], [['t', 0, 24, 6], ['y', -90, 90, 90]]]), kernel=kern)
                nk, nn = 'g', fan
            elif cmd == 'collapse':
                s.update(dims=rng.choice([['x'], ['latitude'], ['y', 'x']]), kernel=kern)
                nn = fan
            elif cmd == 'col':
                sf = rng.choice([q for q in KIND if q != 'gt.nc'])
                how = rng.choice(['', 'nn', 'lin']) if k == 'g' else rng.choice(['', 'bin']) if kinds[sf] == 'g' else 'box'
                opts = [['h_sep', str(rng.choice([300, 1000, 3000]))]] if how == 'box' else []
                if how and rng.random() < 0.3:
                    opts.append(['missing_data_for_missing_sample', rng.choice(['True', 'False', 'maybe', 'bare'])])
                s.update(samp={'file': sf, 'var': rng.choice(['', 'a', 'b'])}, how=how, opts=opts, kernel=kern if k == 'u' else '')
                nk, nn = kinds[sf], fan if k == 'u' else vs
            else:
                s.update(expr=rng.choice(['{0} * 3', '{0} - {1}', 'sin({0}) + {1}', '{0} * 0 + 5']).format(vs[0], vs[-1]), units='1', ov=rng.choice(['', 'a', 'r']))
                nn = [s['ov'] or 'calculated_variable']
            steps.append(s)
            kinds[s['out']], names[s['out']] = nk, nn
        yield {'steps': steps}


_T = []


def make(d):
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList

    def grid(name, lats, lons, times, shift):
        ax = ([{'std': 'time', 'pts': [4 * (DAY0 + t) for t in times]}] if times else []) + \
             [{'std': 'latitude', 'pts': [4 * x for x in lats]}, {'std': 'longitude', 'pts': [4 * x for x in lons]}]
        n = len(lats) * len(lons) * max(1, len(times))
        vs = GriddedDataList()
        for j, v in enumerate('abc'):
            c = build.cube({'dims': [], 'axes': ax, 'name': v, 'long': 'long ' + v, 'v': [shift + (k * k + j * 7) % 23 + j for k in range(n)],
                            'm': [int(v == 'b' and k % 5 == 1) for k in range(n)] if v == 'b' else []}, units='K' if v == 'c' else '1')
            if v == 'c':
                c.attributes['history'] = PAST
            vs.append(c)
        vs.save_data(os.path.join(d, name))

    def track(name, lats, lons, times, shift):
        cs = build.ug_coords({'v': lats, 'coords': [{'std': 'latitude', 'v': [4 * x for x in lats]}, {'std': 'longitude', 'v': [4 * x for x in lons]},
                                                    {'std': 'time', 'v': [4 * DAY0 + t for t in times]}]})
        n = len(lats)
        UngriddedDataList([build.ungridded({'coords': [], 'name': v, 'long': 'long ' + v, 'v': [shift + (k * k + j * 5) % 17 + 1 for k in range(n)],
                                            'm': [int(k % 4 == 2) for k in range(n)] if v == 'b' else [], 'history': PAST if v == 'c' else ''},
                                           units='K' if v == 'c' else '1', coords=cs)
                           for j, v in enumerate('abc')]).save_data(os.path.join(d, name))
    grid('g.nc', [-40, -10, 20, 50], [0, 30, 60, 90], [], 1)
    grid('h.nc', [-30, 0, 30], [10, 40, 70], [], 4)
    grid('gt.nc', [-40, 0, 40], [0, 40, 80], [0, 5, 10, 15], 2)
    track('u.nc', [-35, -20, -5, 10, 10, 25, 40], [5, 20, 35, 50, 55, 70, 85], [0, 4, 9, 17, 40, 52, 71], 3)
    track('u2.nc', [-30, 0, 15, 22], [8, 30, 52, 66], [2, 8, 16, 60], 5)
    track('v.nc', [-30, -6, 11, 26, 38], [12, 33, 49, 68, 80], [1, 9, 33, 50, 70], 2)
    return ['written', '', 0]


def templates():
    if not _T:
        d = os.path.join(os.getcwd(), 'ptmpl')
        os.makedirs(d)
        r = O.in_child(lambda: make(d))
        assert r[0] == 'written', r
        _T.append(d)
    return _T[0]


def axis_limit(a, x):
    """how a limit is typed"""
    return (BASE + datetime.timedelta(days=x)).isoformat() if a in ('t', 'time') else str(x)


def argv(s):
    groups = [','.join(g['vars']) + ':' + ','.join(g['files']) for g in s['groups']]
    opt = [k for k in ['kernel=' + s['kernel']] if s['kernel'] and s['cmd'] in ('aggregate', 'collapse')]
    groups = [':'.join([g] + opt) for g in groups]
    cmd = s['cmd']
    r = [cmd] + groups
    if cmd == 'subset':
        r.append(','.join('%s=[%s,%s]' % (a, axis_limit(a, lo), axis_limit(a, hi)) for a, lo, hi in s['lims']))
    elif cmd == 'aggregate':
        r.append(','.join(['%s=[%s,%s,%s]' % (a, axis_limit(a, lo), axis_limit(a, hi), 'P%dD' % st if a in ('t', 'time') else st)
                           for a, lo, hi, st in s['grid']] + s['dims']))
    elif cmd == 'collapse':
        r.append(','.join(s['dims']))
    elif cmd == 'col':
        o = []
        if s['samp']['var']:
            o.append('variable=' + s['samp']['var'])
        if s['how'] or s['opts']:
            o.append('collocator=' + s['how'] + ('[' + ','.join(k if v == 'bare' else '%s=%s' % (k, v) for k, v in s['opts']) + ']' if s['opts'] else ''))
        if s['kernel']:
            o.append('kernel=' + s['kernel'])
        r.append(s['samp']['file'] + (':' + ','.join(o) if o else ''))
    elif cmd == 'eval':
        r += [s['expr'], s['units']]
        if s['attrs']:
            r += ['-a', ','.join('%s=%s' % (k, v) for k, v in s['attrs'])]
    return r + ['-o', (s['ov'] + ':' if s['ov'] else '') + s['out']]


def command(s):
    from cis.cis_main import parse_and_run_arguments
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            parse_and_run_arguments(argv(s))
    except SystemExit as e:
        return ['error' if e.code else 'ok', 'exit', '']
    except Exception as e:
        return ['error', '%s %s' % (type(e).__name__, str(e)[:200]), '']
    return ['ok', '', text.getvalue()]


def library(s, out):
    """the same through the documented library interface"""
    import cis
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    cmd, text = s['cmd'], ''
    try:
        data = [cis.read_data_list(list(g['files']), list(g['vars'])) for g in s['groups']]
        day = lambda x: BASE + datetime.timedelta(days=x)
        if cmd == 'subset':
            res = data[0].subset(**{a: [day(lo), day(hi)] if a in ('t', 'time') else [lo, hi] for a, lo, hi in s['lims']})
            if res is None:
                raise ValueError('nothing left')
        elif cmd == 'aggregate' and isinstance(data[0], UngriddedDataList):
            res = data[0].aggregate(how=s['kernel'] or 'moments',
                                    **{a: slice(day(lo), day(hi), datetime.timedelta(days=st)) if a in ('t', 'time') else slice(lo, hi, st)
                                       for a, lo, hi, st in s['grid']})
        elif cmd in ('aggregate', 'collapse'):
            res = data[0].collapsed(list(s['dims']), how=s['kernel'] or 'moments')
        elif cmd == 'col':
            f, v = s['samp']['file'], s['samp']['var']
            from cis.data_io.data_reader import DataReader
            sample = cis.read_data(f, v) if v else DataReader().read_coordinates(f)
            o = dict(s['opts'])
            mask = {'': bool(v), 'bare': True, 'true': True, 'false': False}[o.pop('missing_data_for_missing_sample', '').lower()]
            kw = {}
            for k, x in o.items():
                kw[k] = float(x) if k in ('fill_value', 'h_sep') else {'bare': True, 'true': True, 'false': False}[x.lower()] if k == 'extrapolate' else x
            sk = 'g' if isinstance(sample, GriddedDataList) or sample.is_gridded else 'u'
            for d in data:
                dk = 'g' if isinstance(d, GriddedDataList) else 'u'
                how = s['how'] or {'gg': 'lin', 'gu': 'lin', 'ug': 'bin', 'uu': 'box'}[dk + sk]
                kern = s['kernel'] or ('moments' if how in ('bin', 'box') else None)
                d.res = d.collocated_onto(sample, how=how, kernel=kern, missing_data_for_missing_sample=mask, **kw)
            res = (GriddedDataList if sk == 'g' else UngriddedDataList)([x for d in data for x in d.res])
        elif cmd == 'eval':
            from cis.evaluate import Calculator
            res = Calculator().evaluate([x for d in data for x in d], s['expr'], s['ov'] or None, s['units'], dict(s['attrs']))
        elif cmd == 'stats':
            from cis.stats import StatsAnalyzer
            results = StatsAnalyzer(*[x for d in data for x in d]).analyze()
            text = '\n'.join(r.pprint() for r in results)
            res = GriddedDataList([r.as_cube() for r in results])
        res.save_data(out)
    except Exception as e:
        return ['error', '%s %s' % (type(e).__name__, str(e)[:200]), '']
    return ['ok', '', text]


STAMP = re.compile(r'^(?=\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ )', re.M)


def entries(h):
    return [e.rstrip('\n') for e in STAMP.split(h) if e]


def dump(f):
    """everything in a file: [[variable, type, dims, attributes, values]], histories and the attributes of the file"""
    import netCDF4
    if not os.path.exists(f):
        return None
    n = netCDF4.Dataset(f)
    n.set_auto_maskandscale(False)
    every = n.getncattr('history') if 'history' in n.ncattrs() else ''
    out, hist = [], []
    for v in n.variables.values():
        at = {k: v.getncattr(k) for k in v.ncattrs()}
        h = at.pop('history', every)
        out.append([v.name, str(v.dtype), ['%s %d' % (q, len(n.dimensions[q])) for q in v.dimensions],
                    sorted('%s=%r' % (k, str(x) if isinstance(x, str) else np.asarray(x).tolist()) for k, x in at.items()), repr(np.asarray(v[:]).tolist())])
        hist.append([v.name, entries(h)])
    glob = sorted('%s=%r' % (k, n.getncattr(k)) for k in n.ncattrs() if k != 'history')
    n.close()
    return {'vars': sorted(out, key=lambda q: q[0]), 'hist': hist, 'glob': glob}


def reported(path, f):
    with open(path, 'w') as g:
        json.dump(f(), g)
    return ['written', '', 0]


def child(path, f):
    """f() run in another process; its answer comes back through a file, as it may be long"""
    r = O.in_child(lambda: reported(path, f))
    if r[0] != 'written':
        return ['error', 'crash ' + r[1], '']
    with open(path) as g:
        res = json.load(g)
    os.remove(path)
    return res


def both(f, then):
    return [f(), then()]


def execute(case):
    O.preload()
    old = os.getcwd()
    t = templates()
    d = tempfile.mkdtemp(dir=old)
    out = {'outcome': 'ok', 'steps': []}
    try:
        os.chdir(d)
        for n in os.listdir(t):
            shutil.copyfile(os.path.join(t, n), n)
        for s in case['steps']:
            (oc, why, text), cli = child('../' + os.path.basename(d) + '.json', lambda: both(lambda: command(s), lambda: dump(s['out'])))
            (lc, lwhy, ltext), lib = child('../' + os.path.basename(d) + '.json', lambda: both(lambda: library(s, 'lib_' + s['out']), lambda: dump('lib_' + s['out'])))
            same = sorted({'values' for _ in [0] if cli and lib and [v[:3] + v[4:] for v in cli['vars']] != [v[:3] + v[4:] for v in lib['vars']]} |
                          {'attributes' for _ in [0] if cli and lib and ([v[3] for v in cli['vars']] != [v[3] for v in lib['vars']] or cli['glob'] != lib['glob'])})
            diff = []
            if same:
                a, b = {v[0]: v for v in cli['vars']}, {v[0]: v for v in lib['vars']}
                diff = [str([a.get(k), b.get(k)])[:400] for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]
            want = []
            if s['cmd'] != 'stats':
                ins = [f for g in s['groups'] for f in g['files']] + ([s['samp']['file']] if s['cmd'] == 'col' else [])
                want = ins + [v for g in s['groups'] for v in g['vars'] if s['cmd'] != 'collapse' and KIND.get(g['files'][0], 'g') == 'u'] + ([s['expr']] if s['cmd'] == 'eval' else [])
            if s['cmd'] == 'col' and len(s['groups']) > 1:
                want = [s['samp']['file']]
            elif s['cmd'] == 'subset':
                want = [{'y': 'latitude', 'x': 'longitude', 't': 'time'}.get(q[0], q[0]) for q in s['lims']]
            hist = [[v, es, [w for w in want if not re.search(r'(?<![\w.])%s(?![\w.])' % re.escape(w), es[-1] if es else '')]] for v, es in (cli or {'hist': []})['hist']]
            out['steps'].append({'outcome': oc, 'why': why, 'lib': lc, 'libwhy': lwhy, 'file': int(cli is not None), 'differ': same, 'diff': diff, 'hist': hist,
                                 'names': [v[0] for v in (cli or {'vars': []})['vars']],
                                 'text': int(s['cmd'] != 'stats' or lc != 'ok' or ltext in text)})
    finally:
        os.chdir(old)
        shutil.rmtree(d)
    return out


def nontrivial(rec):
    return any(s['outcome'] == 'ok' for s in rec['out'].get('steps', []))


def for_property(prop):
    return True
