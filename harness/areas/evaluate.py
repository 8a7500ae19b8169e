"""E01: evaluation of expressions over variables."""
from fractions import Fraction

import numpy as np

import build
import common as C

JUDGE = 'JudgeExpr'
GEN = ['GenExpr']
RAW = ["a.__class__", "b__a + a", "zz + a", "a + open('x')", "exec('1') + a", "eval('a')", "a + globals()['a']", "getattr(a, 'data')",
       "os.getcwd()", "type(a)(a)", "sys.exit(1)", "cis", "setattr(a, 'x', 1)", "a + missing_name", "a[1:]", "numpy.mean(a)", "1 + 1", "max(1, 2)",
       "a[0]", "numpy.array([a, a])", "vars()", "input('x')", "print(a)", "self", "expr", "__import__('os')", "memoryview(a)", "a if False else zz",
       "numpy.concatenate([a, a])", "len(a)", "a.__add__(a)", "numpy.__name__", "[a, a]", "(a, a)", "None", "'text'"]

# a name which is not allowed is not allowed anywhere in an expression
HIDDEN = [w % r for w in ('numpy.abs(a * len(str(%s)))', 'a + (0 if a is None else 0 * len([%s]))', 'sum([a, a * 0 * (%s is None)])', 'a * (1, %s)[0]', '(lambda x: a)(%s)',
                          'numpy.add(a, 0 if [] else a, out=None) if %s is not None else a', 'a if 1 else %s')
          for r in ('a.__class__', 'numpy.__name__', 'a.data.__sizeof__', 'x__y')]


def models(tier):
    return [('MCExpr', 'MCExpr' if tier == 'quick' else 'MCExpr_t')]


def arr(e):
    """certainly an array?"""
    return e['k'] in ('var', 'tr', 'rav') or e['k'] in ('neg', 'abs', 'pow') and arr(e['a']) or 'b' in e and (arr(e['a']) or arr(e['b']))


def rows(e, rank):
    """no more rows of rows than there are dimensions"""
    return max([rows(e[k], rank) for k in 'ab' if k in e] + [0]) + (e['k'] == 'row')


def rnd_expr(rng, nv, depth):
    x = rng.random()
    if depth == 0 or x < 0.15:
        if rng.random() < 0.7:
            return {'k': 'var', 'i': rng.randint(1, nv)}
        if rng.random() < 0.3:
            return {'k': 'mean', 'a': {'k': 'var', 'i': rng.randint(1, nv)}}
        return {'k': 'num', 'n': rng.randint(-4, 4), 'd': rng.choice([1, 1, 2, 4])}
    if x < 0.3:
        return {'k': rng.choice(['neg', 'abs']), 'a': rnd_expr(rng, nv, depth - 1)}
    if x < 0.38:
        e = rnd_expr(rng, nv, depth - 1)
        if arr(e) and rng.random() < 0.5:
            return {'k': rng.choice(['tr', 'rav', 'row']), 'a': e}
        return {'k': 'pow', 'a': e, 'n': rng.choice([2, 3])}
    if x < 0.4:
        return {'k': 'pow', 'a': rnd_expr(rng, nv, depth - 1), 'n': rng.choice([2, 3])}
    return {'k': rng.choice(['add', 'sub', 'mul', 'mul', 'div', 'gt']), 'a': rnd_expr(rng, nv, depth - 1), 'b': rnd_expr(rng, nv, depth - 1)}


def size(e, big):
    """a bound on numerators and denominators, to stay within what TLC counts with"""
    k = e['k']
    if k in ('var', 'mean'):
        return big
    if k == 'num':
        return 16
    if k in ('neg', 'abs', 'tr', 'rav', 'row'):
        return size(e['a'], big)
    if k == 'pow':
        return size(e['a'], big) ** e['n']
    if k == 'gt':
        return 1 if max(size(e['a'], big), size(e['b'], big)) < 30000 else 10 ** 9
    return size(e['a'], big) * size(e['b'], big) * (2 if k in ('add', 'sub') else 1)


def random_cases(rng, tier):
    for n in range(300 if tier == 'quick' else 8000):
        kind = rng.choice('gu')
        shape = rng.choice([[1], [3], [5], [2, 2], [2, 3], [1, 4], [2, 1, 2]])
        size_ = int(np.prod(shape))
        vs = []
        for k in range(rng.choice([1, 2, 3])):
            dt = rng.choice(['float64', 'float64', 'int32', 'float32'])
            q = 1 if dt == 'int32' else rng.choice([1, 2, 4])
            p = rng.choice([0, 0.2, 0.5, 1])
            m = [int(rng.random() < p) for _ in range(size_)] if p else []
            v = [rng.randint(-6, 6) for _ in range(size_)]
            if dt != 'int32' and rng.random() < 0.1:
                v[rng.randrange(size_)] = C.NAN
            shapes = [shape] if kind == 'g' else [shape, [size_], [1, size_], [size_, 1]]
            vs.append({'name': ['a', 'b', '550-c'][k], 'alias': ['', rng.choice(['', 'bb']), 'c_5'][k], 'v': v, 'm': m, 'q': q, 'dtype': dt,
                       'shape': rng.choice(shapes)})
        if rng.random() < 0.15:
            e = {'k': 'raw', 's': RAW[(n // 3) % len(RAW)]}
        else:
            while True:
                e = rnd_expr(rng, len(vs), rng.choice([0, 1, 2, 2, 3]))
                if size(e, 24) < 2 ** 27 and (not rows(e, 0) or rows(e, 0) < len(shape) and kind == 'g' and 'rav' not in str(e)):
                    break
        yield {'kind': kind, 'shape': shape, 'expr': e, 'style': rng.randint(0, 2), 'name': rng.choice(['', 'out', 'a']),
               'units': rng.choice(['', 'm', 'kg m-3', '1']), 'vars': vs,
               'attrs': [['note', 'made'], ['version', '6.1']][:rng.choice([0, 0, 1, 2])]}
    for r in RAW + HIDDEN:
        for kind in 'gu':
            yield {'kind': kind, 'shape': [2, 2], 'expr': {'k': 'raw', 's': r}, 'style': 0, 'name': '', 'units': '1', 'attrs': [],
                   'vars': [{'name': 'a', 'alias': '', 'v': [1, 2, 3, 4], 'm': [0, 1, 0, 0], 'q': 1, 'dtype': 'float64', 'shape': [2, 2]}]}


def text(e, names, style):
    t = lambda x: text(x, names, style)
    k = e['k']
    if k == 'raw':
        return e['s']
    if k == 'var':
        return names[e['i'] - 1]
    if k == 'num':
        x = e['n'] / e['d']
        return '(%s)' % (int(x) if x == int(x) and style else x)
    if k == 'mean':
        return 'numpy.mean(%s)' % t(e['a'])
    if k == 'neg':
        return '(-%s)' % t(e['a'])
    if k == 'abs':
        return ('abs(%s)', 'numpy.abs(%s)', 'abs( %s )')[style] % t(e['a'])
    if k == 'tr':
        return ('(%s).T', 'numpy.transpose(%s)', '(%s).transpose()')[style] % t(e['a'])
    if k == 'rav':
        return ('(%s).ravel()', 'numpy.ravel(%s)', '(%s).reshape(-1)')[style] % t(e['a'])
    if k == 'row':
        return '(%s)[0]' % t(e['a'])
    if k == 'pow':
        return ('(%s)**%d', 'pow(%s, %d)', '(%s) ** %d')[style] % (t(e['a']), e['n'])
    if k == 'add' and style == 1:
        return 'sum([%s, %s])' % (t(e['a']), t(e['b']))
    op = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'gt': '>'}[k]
    if k == 'gt':       # a number, not a truth value
        return '(1*(%s > %s))' % (t(e['a']), t(e['b']))
    return ('(%s%s%s)', '(%s %s %s)', '(%s %s %s)')[style] % (t(e['a']), op, t(e['b']))


def rat(x):
    """a number as the fraction it stands for"""
    if x is np.ma.masked:
        return []
    x = float(x)
    if not np.isfinite(x):
        return [0]
    f = Fraction(x).limit_denominator(20000)
    if abs(float(f) - x) > 3e-7 * max(1, abs(x)) or abs(f.numerator) >= 2 ** 31:
        return [C.BAD, 0, 0, 0]
    return [f.numerator, f.denominator]


def rats(a):
    a = np.ma.asarray(a)
    m = np.ma.getmaskarray(a).ravel()
    return [[] if m[k] else rat(x) for k, x in enumerate(np.asarray(a.data).ravel())]


AXES = {'latitude': 10, 'longitude': 100, 'altitude': 5}


def coords_of(d):
    if d.is_gridded:
        return [{'std': str(c.name()), 'v': C.enc_arr(c.points, 1)} for c in d.coords()]
    return [{'std': str(c.standard_name), 'v': C.enc_arr(c.data_flattened, 1)} for c in d.coords()]


def snap(d):
    return {'v': rats(d.data), 'cs': coords_of(d), 'name': str(d.var_name), 'units': str(d.units), 'alias': str(d.alias),
            'shape': [int(s) for s in d.data.shape], 'attrs': sorted(str(k) for k in d.attributes), 'type': str(d.data.dtype),
            'under': C.enc_arr(np.asarray(np.ma.getdata(d.data)), 4)}


def make(case, v):
    if case['kind'] == 'g':
        stds = list(AXES)[:len(case['shape'])]
        d = {'axes': [{'std': s, 'pts': [AXES[s] + k for k in range(n)]} for s, n in zip(stds, case['shape'])],
             'v': [0 if x == C.NAN else x for x in v['v']], 'm': v['m'], 'name': v['name'], 'dtype': v['dtype'],
             'aux': [{'std': 'height', 'var': 'height', 'dims': [], 'v': [7], 'units': 'm'}]}
        u = build.cube(d, q=1, vs=v['q'])
    else:
        n = len(v['v'])
        src = {'shape': v['shape'], 'coords': [{'std': s, 'v': [AXES[s] + k for k in range(n)]} for s in ('latitude', 'longitude')],
               'v': [0 if x == C.NAN else x for x in v['v']], 'm': v['m'], 'name': v['name'], 'dtype': v['dtype']}
        u = build.ungridded(src, q=1, vs=v['q'])
    for k, x in enumerate(v['v']):
        if x == C.NAN:
            np.ma.getdata(u.data).flat[k] = np.nan
    if v['alias']:
        u.alias = v['alias']
    u.filenames = ['file.nc']
    return u


def execute(case):
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    from cis.evaluate import Calculator
    vs = [make(case, v) for v in case['vars']]
    if case['kind'] == 'g':
        vs = GriddedDataList(vs)
    before = [snap(u) for u in vs]
    e = text(case['expr'], [v['alias'] or v['name'] for v in case['vars']], case['style'])
    try:
        r = Calculator().evaluate(vs, e, case['name'] or None, case['units'] or None, dict(map(tuple, case['attrs'])) if case['attrs'] else None)
    except Exception as ex:
        return dict(C.outcome_of(ex), after=[snap(u) for u in vs], before=before)
    if r.is_gridded != (case['kind'] == 'g'):
        return {'outcome': 'kind'}
    return {'outcome': 'ok', 'v': rats(r.data), 'shape': [int(s) for s in r.data.shape], 'cs': coords_of(r), 'name': str(r.var_name),
            'units': str(r.units), 'attrs': [[k, str(r.attributes.get(k))] for k, _ in case['attrs']], 'hist': int(e in r.history),
            'before': before, 'after': [snap(u) for u in vs]}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(len(x) == 2 for x in r['out']['v'])


def matches_finding(f, case, out, clauses):
    return False
