"""M01: arithmetic on ungridded datasets."""
import numpy as np

import build
import common as C
from areas.evaluate import rats

JUDGE = 'JudgeArith'
GEN = ['GenArith']


def models(tier):
    return [('MCArith', 'MCArith' if tier == 'quick' else 'MCArith_t')]


UNITS = [[1, 0, 0, 0]] * 3 + [[1, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 0]]
LOGS = {'log': 1, 'log2': 2, 'log10': 10}


def fits(s, t):
    return len(t) <= len(s) and all(y in (1, x) for x, y in zip(s[::-1], t[::-1]))


def random_cases(rng, tier):
    for _ in range(1500 if tier == 'quick' else 8000):
        shape = rng.choice([[1], [2], [4], [2, 2], [3, 1]])
        same = rng.random() < 0.7
        powers = rng.random() < 0.25        # values which have logarithms
        sets = []
        for k in range(rng.choice([1, 2, 3])):
            sh = shape if same or not k else rng.choice([[1], [2], [3], [2, 1], [1, 2], [2, 2]])
            n = int(np.prod(sh))
            p = rng.choice([0, 0.3, 0.7])
            dt = rng.choice(['float64', 'float64', 'int32', 'float32'])
            v = [rng.choice([1, 1, 2, 8, 10, 100, 16] if powers else range(-5, 6)) for _ in range(n)]
            if dt != 'int32' and rng.random() < 0.1:
                v[rng.randrange(n)] = C.NAN
            sets.append({'name': 'xyz'[k], 'v': v, 'm': [int(rng.random() < p) for _ in range(n)] if p else [], 'shape': sh,
                         'q': 1 if dt == 'int32' else rng.choice([1, 2]), 'units': rng.choice(UNITS), 'dtype': dt,
                         'cs': [{'std': 'altitude', 'v': [rng.randint(1, 9) for _ in range(n)]},
                                {'std': 'latitude', 'v': [rng.randint(1, 9) for _ in range(n)]}]})
        units, shapes = [s['units'] for s in sets], [s['shape'] for s in sets]
        floats = [s['dtype'] != 'int32' for s in sets]
        big = [100.0 if powers else 10.0] * len(sets)            # bounds, to stay within what TLC counts with
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            o = rng.randrange(len(big))
            sh, n = shapes[o], int(np.prod(shapes[o]))
            op = rng.choice(['add', 'sub', 'mul', 'div', 'pow', 'abs', 'setv', 'maskv', 'setc', 'name', 'copy'] + ['exp', 'log', 'log2', 'log10'] * (3 if powers else 0))
            p = {'op': op, 'o': o + 1, 'how': '', 'b': 1, 'kind': '', 'x': [], 'xs': [], 'xm': []}
            f = True
            if op in ('add', 'sub', 'mul', 'div'):
                p['kind'] = rng.choice(['ds', 'ds', 'num', 'arr', 'alt'])
                p['how'] = rng.choice(['op', 'fn', 'ip', 'refl', 'np'] if p['kind'] == 'num' and op in ('add', 'mul') else ['op', 'fn', 'ip'])
                y, u, t = 10.0, None, []
                if p['kind'] == 'ds':
                    p['b'] = rng.randrange(len(big)) + 1
                    y, u, t = big[p['b'] - 1], units[p['b'] - 1], shapes[p['b'] - 1]
                elif p['kind'] == 'num':
                    p['x'] = [rng.randint(-4, 4), rng.choice([1, 1, 2])]
                elif p['kind'] == 'arr':
                    t = p['xs'] = sh if rng.random() < 0.6 else rng.choice([[], [1], [2], [3], sh[-1:], [1] + sh, [2] + sh, [len(sh)] + sh[1:]])
                    m = int(np.prod(t))
                    p['x'] = [rng.randint(-4, 4) for _ in range(m)]
                    p['xm'] = [int(rng.random() < 0.4) for _ in range(m)] if rng.random() < 0.5 else []
                else:
                    u, t = [1, 0, 0, 0], sh
                z = big[o] * y * 2
                if z > 2e4:
                    continue
                refused = op in ('add', 'sub') and u is not None and u != units[o] or not fits(sh, t)
                if op in ('mul', 'div') and (units[o][3] or u and u[3]):
                    continue
                nu = units[o] if op in ('add', 'sub') or u is None else \
                    [a + (b if op == 'mul' else -b) for a, b in zip(units[o], u)]
                f = op == 'div' or floats[o] or p['kind'] == 'ds' and floats[p['b'] - 1]
            elif op == 'pow':
                k = rng.choice([2, 2, 3, 0] + [-1, -1, -2] * floats[o])
                p['how'], p['x'], p['kind'] = rng.choice(['op', 'fn', 'ip']), [k, 1], 'num'
                z, nu, refused, f = (big[o] * (1 if k > 0 else 2)) ** max(1, abs(k)), [a * k for a in units[o]], False, floats[o]
                if z > 2e4 or units[o][3]:
                    continue
            elif op == 'abs':
                p['how'], z, nu, refused, f = rng.choice(['fn', 'ip']), big[o], units[o], False, floats[o]
            elif op == 'exp' or op in LOGS:
                if units[o][3]:
                    continue
                p['how'], z, refused = rng.choice(['fn', 'ip']), 20, False
                nu = [0] * 4 if op == 'exp' else units[o][:3] + [LOGS[op]]
            else:
                if op == 'setv':
                    p['x'] = [rng.randrange(n), rng.randint(-9, 9)]
                elif op == 'maskv':
                    p['x'] = [rng.randrange(n)]
                elif op == 'setc':
                    p['x'] = [rng.randint(0, 1), rng.randrange(n), rng.randint(20, 30)]
                    big[o] = max(big[o], 60)
                elif op == 'copy':
                    big.append(big[o]), units.append(units[o]), shapes.append(sh), floats.append(floats[o])
                ops.append(p)
                continue
            if max(map(abs, nu[:3])) > 6:
                continue
            ops.append(p)
            if refused:
                continue
            if p['how'] == 'ip':
                big[o], units[o], floats[o] = z, nu, f
            else:
                big.append(z), units.append(nu), shapes.append(sh), floats.append(f)
        yield {'sets': sets, 'ops': ops}


def unit_text(u):
    return ' '.join((['1e%d' % (3 * u[2])] if u[2] else []) + ['%s%d' % (s, p) for s, p in zip(('m', 's'), u) if p]) or '1'


KNOWN = {}


def unit_of(u, lg=0):
    from cf_units import Unit
    import math
    if isinstance(u, Unit):
        if not KNOWN:
            for b in (0, 1, 2, 10):
                r = range(-7, 8) if not b else range(-3, 4)
                for k in [(x, y, z) for x in r for y in r for z in r]:
                    KNOWN.setdefault(b, []).append(((Unit(unit_text(k)) if not b else Unit(unit_text(k)).log({1: math.e}.get(b, b))), list(k) + [b]))
        for b in (0, 1, 2, 10):
            for w, k in KNOWN[b]:
                if w == u:
                    return k
    return [99, 99, 99, 99]


SEEN = {}


def unit_code(u):
    k = str(u)
    if k not in SEEN:
        SEEN[k] = unit_of(u)
    return SEEN[k]


def view(u):
    return {'v': rats(u.data), 'flat': rats(u.data_flattened), 'name': str(u.var_name), 'units': unit_code(u.units),
            'shape': [int(x) for x in u.data.shape], 'hist': str(u.metadata.history).count('Performed'),
            'cs': [{'std': str(c.standard_name), 'v': C.enc_arr(c.data, 1)} for c in u.coords()]}


def execute(case):
    from cis import maths
    fns = {'add': maths.add, 'sub': maths.subtract, 'mul': maths.multiply, 'div': maths.divide, 'pow': maths.exponentiate}
    heap = []
    for s in case['sets']:
        d = {'shape': s['shape'], 'coords': s['cs'], 'v': [0 if x == C.NAN else x for x in s['v']], 'm': s['m'], 'name': s['name'],
             'units': unit_text(s['units']), 'dtype': s['dtype']}
        u = build.ungridded(d, q=1, vs=s['q'])
        for k, x in enumerate(s['v']):
            if x == C.NAN:
                np.ma.getdata(u.data).flat[k] = np.nan
        heap.append(u)
    obs = [{'h': [view(u) for u in heap], 'refused': 0}]
    unary = {'abs': maths.abs, 'exp': maths.exp, 'log': maths.log, 'log2': maths.log2, 'log10': maths.log10}
    for p in case['ops']:
        u, op, how, x = heap[p['o'] - 1], p['op'], p['how'], p['x']
        shape = u.shape
        refused = 0
        if op in fns or op in unary:
            y = None
            if op == 'pow':
                y = x[0] if x[0] >= 0 else float(x[0])
            elif p['kind'] == 'ds':
                y = heap[p['b'] - 1]
            elif p['kind'] == 'num':
                y = x[0] if x[1] == 1 else x[0] / x[1]
            elif p['kind'] == 'arr':
                y = np.array(x, float).reshape(p['xs'])
                if p['xm']:
                    y = np.ma.array(y, mask=np.array(p['xm'], bool).reshape(p['xs']))
            elif p['kind'] == 'alt':
                y = u.coord('altitude')
            try:
                if op in unary:
                    r = unary[op](u, in_place=how == 'ip')
                elif how in ('fn', 'ip'):
                    r = fns[op](u, y, in_place=True) if how == 'ip' else fns[op](u, y)
                elif how in ('refl', 'np'):
                    y = np.float64(y) if how == 'np' else y
                    r = y + u if op == 'add' else y * u
                else:
                    r = {'add': lambda: u + y, 'sub': lambda: u - y, 'mul': lambda: u * y, 'div': lambda: u / y, 'pow': lambda: u ** y}[op]()
                if how != 'ip':
                    heap.append(r)
                elif r is not u:
                    return {'outcome': 'another object'}
            except NotImplementedError:
                refused = 1
            except ValueError:
                refused = 2
        elif op == 'setv':
            u.data[np.unravel_index(x[0], shape)] = x[1]
        elif op == 'maskv':
            d = np.ma.array(u.data)
            d[np.unravel_index(x[0], shape)] = np.ma.masked
            u.data = d
        elif op == 'setc':
            u.coords()[x[0]].data[np.unravel_index(x[1], shape)] = x[2]
        elif op == 'name':
            u.var_name = 'renamed'
        elif op == 'copy':
            heap.append(u.copy())
        obs.append({'h': [view(z) for z in heap], 'refused': refused})
    return {'outcome': 'ok', 'obs': obs}


def nontrivial(r):
    return bool(r['ops']) and r['out'].get('outcome') == 'ok'


def matches_finding(f, case, out, clauses):
    return False
