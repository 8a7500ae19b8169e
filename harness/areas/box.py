"""C01 / C02: box collocation of ungridded data onto ungridded samples."""
import numpy as np

import build
import common as C
from areas.kdtree import great_circle_m

JUDGE = 'JudgeBox'
GEN = ['GenBox']
ABSENT = -88888888
PROP = ['C01']
KERNELS = ['moments', 'mean', 'sum', 'min', 'max', 'stddev', 'nn_h', 'nn_a', 'nn_t', 'nn_p', 'nn_horizontal_only']
NEEDS = {'nn_a': 'altitude', 'nn_t': 'time', 'nn_p': 'air_pressure'}
VAR = {'latitude': 'lat', 'longitude': 'lon', 'altitude': 'alt', 'time': 'time', 'air_pressure': 'pres'}
RATIOS = [(2, 1), (3, 2), (5, 4), (3, 1), (9, 8)]


def for_property(prop):
    PROP[0] = prop
    GEN[:] = ['GenBox'] if prop == 'C01' else ['GenKernel']


def models(tier):
    m = 'MCBox' if PROP[0] == 'C01' else 'MCKernel'
    return [(m, m if tier == 'quick' else m + '_t')]


def random_cases(rng, tier):
    c01 = PROP[0] == 'C01'
    for _ in range((400 if c01 else 700) if tier == 'quick' else 5000):
        q = 4
        ns, nd = rng.choice([1, 2, 4]), rng.choice([1, 3, 6, 9])
        extra = rng.sample(['altitude', 'time', 'air_pressure'], rng.choice([0, 1, 2, 3]))
        kernel = rng.choice(['sum', 'sum', 'moments'] if c01 else KERNELS)
        if kernel in NEEDS and NEEDS[kernel] not in extra:
            extra.append(NEEDS[kernel])
        stds = ['latitude', 'longitude'] + extra
        grain = rng.choice([1, q, 10 * q])
        cen = (rng.choice([0, 90, -90, 89, 60, -75, 30]) * q, rng.choice([0, 180, -180, 90, 359]) * q)
        spread = rng.choice([2, 5, 20])

        def pos():
            if rng.random() < 0.15:
                return rng.randint(-90 * q, 90 * q), rng.randint(-180 * q, 180 * q)
            la = cen[0] + grain * rng.randint(-spread, spread)
            lo = cen[1] + grain * rng.randint(-spread, spread)
            la = (180 * q - la if la > 90 * q else -180 * q - la if la < -90 * q else la)
            return max(-90 * q, min(90 * q, la)), lo

        def fold(lo, c):
            b = {0: -180 * q, 1: 0}.get(c)
            return lo if b is None else (lo - b) % (360 * q) + b

        def coords(n, conv, order):
            pp = [pos() for _ in range(n)]
            cs = {'latitude': [p[0] for p in pp], 'longitude': [fold(p[1], conv) for p in pp],
                  'altitude': [rng.randint(0, 12) for _ in range(n)],
                  'time': [149000 * q + rng.randint(0, 12) for _ in range(n)],
                  'air_pressure': [rng.choice([2, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 24]) for _ in range(n)]}
            return [{'std': s, 'v': cs[s], 'name': VAR[s]} for s in order]
        so, do = list(stds), list(stds)
        if rng.random() < 0.5:
            rng.shuffle(so)
        if rng.random() < 0.5:
            rng.shuffle(do)
        sc, dc = coords(ns, rng.choice([0, 1]), so), coords(nd, rng.choice([0, 1, 2]), do)
        h = a = t = pn = ABSENT
        pd = 1
        qs = {}
        if rng.random() < 0.7:
            h = rng.choice([0, 30, 111, 250, 1000, 3000, 12000]) * 1000 + rng.choice([0, 0, 500])
        if 'altitude' in stds and rng.random() < 0.7:
            a = rng.randint(1, 6)
        if 'time' in stds and rng.random() < (0.3 if kernel == 'nn_t' else 0.7):
            t = rng.randint(1, 6)
        if 'air_pressure' in stds and rng.random() < 0.7:
            pn, pd = rng.choice(RATIOS)
        if rng.random() < (0.8 if kernel in NEEDS else 0.5):
            # what matters is how values compare, not how large they are: the same case on a much finer (or coarser) scale
            if rng.random() < 0.7:
                qs['altitude'] = rng.choice([2 ** 14, 2 ** 8, 2 ** 20])
            if rng.random() < 0.7:
                qs['time'] = 128 if t != ABSENT else rng.choice([2 ** 16, 2 ** 18, 2 ** 22])
            if rng.random() < 0.7:
                qs['air_pressure'] = rng.choice([2 ** 12, 2 ** 7, 2 ** 16])
        if qs.get('time'):
            for c in sc + dc:
                if c['std'] == 'time':
                    c['v'] = [x - 149000 * q + day0(qs) * qs['time'] for x in c['v']]
        for c in sc + dc:
            c['q'] = qs.get(c['std'], q)
        lists = int(rng.random() < 0.25)
        vs = []
        for k in range(2 if lists else 1):
            p = rng.choice([0, 0, 0.3, 0.5, 1.0]) if rng.random() < 0.95 else 0
            v = [2 ** j for j in range(nd)] if c01 else [rng.randint(-9, 9) for _ in range(nd)]
            if c01 and kernel == 'moments':
                v = [rng.randint(-9, 9) for _ in range(nd)]
            vs.append({'name': 'v%d' % k, 'v': v, 'm': [int(rng.random() < p) for _ in range(nd)] if p else []})
        sm = [int(rng.random() < 0.4) for _ in range(ns)] if rng.random() < 0.4 else []
        # the sample may be plain coordinates
        yield {'q': q, 'kernel': kernel, 'missing': int(rng.random() < 0.5), 'list': lists, 'sm': sm,
               'sv': [rng.randint(-9, 9) for _ in range(ns)] if sm or rng.random() < 0.6 else [],
               'out_name': rng.choice(['', '', '', 'renamed']), 'h': h, 'a': a, 't': t, 'pn': pn, 'pd': pd, 'sc': sc, 'dc': dc, 'vars': vs,
               'note': rng.randint(0, 3), 'qs': qs, 'gaxes': []}
        if not c01 or rng.random() < 0.3:
            yield gridded_sample(rng, {'q': q, 'h': h, 'a': a, 't': t, 'pn': pn, 'pd': pd, 'dc': dc, 'list': lists, 'vars': vs, 'qs': qs,
                                       'kernel': kernel, 'note': rng.randint(0, 3)}, stds, cen, grain)


def day0(qs):
    return {2 ** 16: 700, 2 ** 18: 100, 2 ** 22: 8}.get(qs.get('time'), 149000)


def gridded_sample(rng, case, stds, cen, grain):
    """The sample is a grid over some of the coordinates, in any order and direction."""
    q = case['q']
    if case['kernel'] == 'nn_horizontal_only':
        case['kernel'] = 'nn_h'
    need = {'latitude', 'longitude'} if case['h'] != ABSENT or case['kernel'] == 'nn_h' else set()
    need |= {s for k, s in (('a', 'altitude'), ('t', 'time'), ('pn', 'air_pressure')) if case[k] != ABSENT}
    if case['kernel'] in NEEDS:
        need.add(NEEDS[case['kernel']])
    order = [s for s in stds if s in need or rng.random() < 0.3] or ['longitude']
    rng.shuffle(order)
    axes, size = [], 1
    for s in order:
        n = rng.choice([1, 2, 3])
        if size * n > 12:
            n = 1
        size *= n
        if s == 'latitude':
            v = sorted({max(-90 * q, min(90 * q, cen[0] + grain * rng.randint(-4, 4))) for _ in range(n)})
        elif s == 'longitude':
            v = sorted({cen[1] + grain * rng.randint(-4, 4) for _ in range(n)})
        elif s == 'air_pressure':
            v = sorted(rng.sample([2, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 24], n))
        else:
            v = sorted(rng.sample(range(12), n))
            if s == 'time':
                v = [day0(case['qs']) * case['qs'].get('time', q) + x for x in v]
        if rng.random() < 0.4:
            v.reverse()
        axes.append({'std': s, 'v': v, 'q': case['qs'].get(s, q)})
    idx = np.indices([len(a['v']) for a in axes]).reshape(len(axes), -1)
    n = idx.shape[1]
    case.update(gaxes=axes, sc=[{'std': a['std'], 'q': a['q'], 'v': [a['v'][j] for j in idx[k]]} for k, a in enumerate(axes)],
                sv=[rng.randint(-9, 9) for _ in range(n)], sm=[int(rng.random() < 0.4) for _ in range(n)] if rng.random() < 0.4 else [],
                missing=int(rng.random() < 0.5), out_name=rng.choice(['', '', 'renamed']))
    return case


def seps(case):
    """The separations in one of the notations the documentation allows."""
    q, kw, note = case['q'], {}, case.get('note', case['id'] if 'id' in case else 0) % 4
    if case['h'] != ABSENT:
        km = case['h'] / 1000.0
        kw['h_sep'] = [km, '%gkm' % km, '%gm' % case['h'], '%e' % km][note]
    if case['a'] != ABSENT:
        m = case['a'] / case.get('qs', {}).get('altitude', q)
        # (a number of kilometres is only the same number of metres if both can be represented)
        kw['a_sep'] = [m, '%.17gm' % m, '%gkm' % (m / 1000.0) if float('%g' % (m / 1000.0)) * 1000 == m else '%.17g' % m, '%.17e' % m][note]
    if case['t'] != ABSENT and 'time' in case.get('qs', {}):
        s = case['t'] * 86400 // case['qs']['time']
        kw['t_sep'] = ['PT%dS' % s, 'PT%dM%dS' % (s // 60, s % 60), 'P0DT%dM%dS' % (s // 60, s % 60), 'PT0H%dS' % s][note]
    elif case['t'] != ABSENT:
        hours = 24 * case['t'] // q if q > 1 else 24 * case['t']
        kw['t_sep'] = ['PT%dH' % hours, 'P%dDT%dH' % (hours // 24, hours % 24), 'PT%dM' % (hours * 60),
                       'PT%dH%dM%dS' % (hours - 1, 59, 60)][note]
    if case['pn'] != ABSENT:
        kw['p_sep'] = [case['pn'] / case['pd'], '%g' % (case['pn'] / case['pd'])][note % 2]
    return kw


def execute(case):
    from cis.data_io.ungridded_data import UngriddedDataList
    q = case['q']
    objs = [build.ungridded({'coords': case['dc'], 'v': v['v'], 'm': v['m'], 'name': v['name']}, q=q)
            for v in case['vars']]
    data = UngriddedDataList(objs) if case['list'] else objs[0]
    gridded = bool(case.get('gaxes'))
    if gridded:
        sample = build.cube({'axes': [{'std': x['std'], 'pts': x['v'], 'q': x.get('q', q)} for x in case['gaxes']], 'v': case['sv'],
                             'm': case['sm'], 'name': 'smp'}, q=q)
    elif case['sv']:
        sample = build.ungridded({'coords': case['sc'], 'v': case['sv'], 'm': case['sm'], 'name': 'smp'}, q=q)
    else:
        sample = build.coords_only({'coords': case['sc']}, q=q)

    qd = dict({x: q for x in VAR}, **case.get('qs', {}))

    def snap():
        r = [build.snap_ug(o, qd) for o in objs]
        if gridded:
            r.append(dict(build.snap_gd(sample, qd), coords=[]))
        elif case['sv']:
            r.append(build.snap_ug(sample, qd))
        for x in r:         # longitudes may be reported in another convention
            for c in x['coords']:
                if c['std'] == 'longitude':
                    c['v'] = [v % (360 * q) for v in c['v']]
        return r
    before = snap()
    kw = seps(case)
    if case['out_name']:
        kw['var_name'] = case['out_name']
    if gridded or case.get('note', 0) == 3:
        kw['how'] = 'box'
    if case['kernel'] != 'moments' or case.get('note', 0) % 2:
        kw['kernel'] = case['kernel']
    res = data.collocated_onto(sample, missing_data_for_missing_sample=bool(case['missing']), **kw)
    after = snap()
    out = []
    for r in (res if isinstance(res, list) else [res]):
        if gridded:
            ax = build.snap_gd(r, qd, aux=False)['axes']
            idx = np.indices([len(a['pts']) for a in ax]).reshape(len(ax), -1)
            coords = [{'std': a['std'], 'v': [a['pts'][j] for j in idx[k]]} for k, a in enumerate(ax)]
        else:
            coords = build.snap_ug(r, qd, 1)['coords']
        out.append({'v': C.enc_arr(r.data, 100, True), 'coords': coords, 'name': r.var_name})
    return {'outcome': 'ok', 'res': out, 'before': before, 'after': after}


def build_has(cs, std):
    return any(c['std'] == std for c in cs)


def project(r):
    r = dict(r)

    def ll(cs):
        d = {c['std']: np.array(c['v'], float) / r['q'] for c in cs}
        return np.stack([d['latitude'], d['longitude']], -1)
    if not (build_has(r['sc'], 'latitude') and build_has(r['sc'], 'longitude')):
        r['D'] = [[0] * len(r['dc'][0]['v']) for _ in r['sc'][0]['v']]
        return r
    r['D'] = [[int(round(x)) for x in row] for row in great_circle_m(ll(r['sc'])[:, None, :], ll(r['dc'])[None, :, :])]
    return r


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(x != C.MASKED for x in r['out']['res'][0]['v'])


def matches_finding(f, case, out, clauses):
    return False
