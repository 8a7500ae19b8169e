"""T01: statistical comparison of two datasets."""
from fractions import Fraction

import numpy as np

import build
import common as C

JUDGE = 'JudgeStats'
GEN = ['GenStats']
ROOTS = ('dataset_stddev_1', 'dataset_stddev_2', 'abs_stddev', 'rel_stddev', 'spearman', 'regression_r', 'regression_stderr')


def models(tier):
    return [('MCStats', 'MCStats' if tier == 'quick' else 'MCStats_t')]


def random_cases(rng, tier):
    for _ in range(400 if tier == 'quick' else 8000):
        shape = rng.choice([[1], [2], [3], [4], [5], [6], [2, 2], [2, 3]])
        n = int(np.prod(shape))
        dts = rng.choice([('float64', 'float64'), ('int32', 'int32'), ('uint8', 'uint8'), ('int16', 'float64'), ('int8', 'int8'), ('float64', 'uint8')])
        case = {'kind': rng.choice('gu'), 'shape': shape, 'shape2': rng.choice([shape, [n]]), 'dtype': dts[0], 'dtype2': dts[1]}
        if case['kind'] == 'g':
            case['shape2'] = shape
        for k, (a, m, q) in enumerate((('v', 'm', 'q'), ('w', 'n', 'r'))):
            lo = 0 if dts[k] == 'uint8' else -4
            if rng.random() < 0.7:
                lo = 1              # no zeros
            case[q] = rng.choice([1, 2]) if dts[k] == 'float64' else 1
            if dts[k] == 'int8' and rng.random() < 0.3:
                case[a] = [rng.choice([-100, 100]) for _ in range(n)]
            else:
                case[a] = [rng.randint(lo, 4) for _ in range(n)]
            p = rng.choice([0, 0.2, 0.5, 1.0]) if n > 1 else rng.choice([0, 0, 0.5])
            case[m] = [int(rng.random() < p) for _ in range(n)] if p else []
            for j in range(n):
                if case[m] and case[m][j]:
                    case[a][j] = rng.choice([0, 7, 100, 1])
        yield case


def rat(x):
    if x is np.ma.masked or np.ma.is_masked(x):
        return []
    x = float(x)
    if not np.isfinite(x):
        return [0]
    f = Fraction(x).limit_denominator(400000)
    if abs(float(f) - x) > 1e-11 * max(1, abs(x)) or abs(f.numerator) >= 2 ** 31:
        return [C.BAD, 0, 0, 0]
    return [f.numerator, f.denominator]


def make(case, v, m, q, dtype, shape, name):
    if case['kind'] == 'g':
        d = {'axes': [{'std': s, 'pts': list(range(1, n + 1))} for s, n in zip(('latitude', 'longitude'), shape)], 'v': v, 'm': m, 'name': name,
             'dtype': dtype}
        return build.cube(d, q=1, vs=q)
    return build.ungridded({'shape': shape, 'coords': [{'std': 'latitude', 'v': list(range(len(v)))}], 'v': v, 'm': m, 'name': name, 'dtype': dtype},
                           q=1, vs=q)


def execute(case):
    from cis.stats import StatsAnalyzer
    ds = [make(case, case['v'], case['m'], case['q'], case['dtype'], case['shape'], 'x'),
          make(case, case['w'], case['n'], case['r'], case['dtype2'], case['shape2'], 'y')]

    def snap():
        return [[C.enc_arr(d.data, 4), C.enc_arr(np.asarray(np.ma.getdata(d.data)), 4), str(d.data.dtype)] for d in ds]
    before = snap()
    stats = {}
    for r in StatsAnalyzer(*ds).analyze():
        c = r.as_cube()
        x = c.data if np.ma.isMaskedArray(c.data) else np.asarray(c.data)
        x = x.reshape(-1)[0]
        if c.var_name in ROOTS:
            y = rat(x) if x is np.ma.masked or not np.isfinite(x) else rat(float(x) ** 2)
            stats[c.var_name] = {'sgn': 0 if x is np.ma.masked or not np.isfinite(x) or y == [0, 1] else int(np.sign(x)), 'sq': y}
        else:
            stats[c.var_name] = rat(x)
        r.pprint()
    return {'outcome': 'ok', 'stats': stats, 'before': before, 'after': snap()}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and r['out']['stats']['num_points'] > [1]


def matches_finding(f, case, out, clauses):
    return False
