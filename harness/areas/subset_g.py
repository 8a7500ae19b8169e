"""S02: subsetting gridded data by limits."""
import datetime

import build
import common as C
import gridgen
from areas.subset_u import limit, KEYS

JUDGE = 'JudgeSubsetG'
GEN = ['GenSubsetG']
ABSENT = -88888888


def models(tier):
    return [('MCSubsetGrid', 'MCSubsetGrid' if tier == 'quick' else 'MCSubsetGrid_t')]


def random_cases(rng, tier):
    q = 4
    for _ in range(400 if tier == 'quick' else 6000):
        axes, n = gridgen.grid(rng, q, extra=(0, 0, 1, 1, 2))
        aux = []
        if rng.random() < 0.4:
            dims = rng.sample([a['std'] for a in axes], rng.choice([1, 2]))
            dims.sort(key=[a['std'] for a in axes].index)
            m = 1
            for d in dims:
                m *= len([a for a in axes if a['std'] == d][0]['pts'])
            aux.append({'var': 'auxc', 'dims': dims, 'v': [rng.randint(0, 99) for _ in range(m)]})
        is_list = int(rng.random() < 0.25)
        lims = []
        for a in rng.sample(axes, rng.choice([1, 1, 2, min(3, len(axes))])):
            s = a['std']
            if s == 'longitude':
                lo = rng.choice([-180, -90, 0, 30, 90, 180, 270]) * q + rng.choice([0, 0, 1, -1])
                if rng.random() < 0.5:
                    lo = rng.choice(a['pts']) + rng.choice([-360, 0, 0, 0]) * q
                hi = min(lo + rng.choice([0, 20, 60, 90, 180, 270, 360]) * q, lo + 360 * q)
            else:
                lo = rng.choice(a['pts']) + rng.choice([0, 0, 0, 1, -1])
                hi = rng.choice(a['pts']) + rng.choice([0, 0, 0, 1, -1])
                lo, hi = min(lo, hi), max(lo, hi)
                if s == 'latitude':
                    lo, hi = max(lo, -90 * q), min(hi, 90 * q)
            if s not in ('longitude', 'latitude') and rng.random() < 0.2:
                if rng.random() < 0.5:
                    lo = ABSENT
                else:
                    hi = ABSENT
            lim = {'std': s, 'key': rng.choice(KEYS[s]), 'lo': lo, 'hi': hi}
            if s == 'time':
                lim['as'] = rng.choice(['datetime', 'datetime', 'partial'])
                if lim['as'] == 'partial':
                    d = rng.randint(0, 2)
                    lim['lo'], lim['hi'] = (gridgen.DAY0 + d) * q, (gridgen.DAY0 + d + 1) * q - 1
            lims.append(lim)
        yield {'q': q, 'axes': axes, 'aux': aux, 'list': is_list, 'form': rng.choice(['slice', 'list', 'tuple']),
               'vars': [gridgen.values(rng, n) for _ in range(2 if is_list else 1)], 'lims': lims}


def make(case):
    from cis.data_io.gridded_data import GriddedDataList
    q = case['q']
    objs = [build.cube({'axes': case['axes'], 'aux': case['aux'], 'v': v['v'], 'm': v['m'], 'name': 'v%d' % k}, q=q)
            for k, v in enumerate(case['vars'])]
    return objs, (GriddedDataList(objs) if case['list'] else objs[0])


def snap(o, q):
    s = build.snap_gd(o, q)
    s['hist'] = str(o.attributes.get('history', ''))
    return s


def execute(case):
    q = case['q']
    objs, data = make(case)
    before = [snap(o, q) for o in objs]
    res = data.subset(**{l['key']: limit(l, case['form'], q) for l in case['lims']})
    after = [snap(o, q) for o in objs]
    if res is None:
        return {'outcome': 'none', 'before': before, 'after': after}
    res = res if isinstance(res, list) else [res]
    return {'outcome': 'ok', 'vars': [gridgen.norm_gd(r, case['axes'], case['aux'], q) for r in res],
            'before': before, 'after': after}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and len(r['out']['vars'][0]['v']) < len(r['vars'][0]['v'])


def matches_finding(f, case, out, clauses):
    """iris' intersection cannot build the axis when its edge cells meet (a dependency's defect)"""
    lon = [a for a in case['axes'] if a['std'] == 'longitude']
    if f['id'] != 'S02-iris-edge-wrap' or not lon or clauses != ['outcome']:
        return False
    b, turn = lon[0]['bnds'], 360 * case['q']
    return bool(b) and abs(b[0] - b[-1]) == turn and out.get('exc') == 'ValueError' and \
        'strictly monotonic' in out.get('msg', '') and any(l['std'] == 'longitude' for l in case['lims'])
