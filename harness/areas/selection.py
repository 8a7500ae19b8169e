"""R02, R04: which files and which variables a specification names."""
import itertools
import os
import shutil

import numpy as np

import build
import common as C

JUDGE = 'JudgeSelect'
GEN = ['GenFiles']
PROP = ['R02']
SECONDS = 25
COUNT = itertools.count()


def for_property(prop):
    PROP[0] = prop
    GEN[:] = ['GenFiles' if prop == 'R02' else 'GenVars']


def models(tier):
    return [('MCSelect', 'MCSelect' if tier == 'quick' else 'MCSelect_t')]


def codes(s):
    return [ord(c) for c in s]


def text(s):
    return ''.join(chr(c) for c in s)


def random_cases(rng, tier):
    for n in range(600 if tier == 'quick' else 12000):
        yield files_case(rng) if PROP[0] == 'R02' else vars_case(rng)


def name(rng, chars='ab01.-_[]{}', most=3):
    while True:
        s = ''.join(rng.choice(chars) for _ in range(rng.randint(1, most)))
        if s not in ('.', '..'):
            return s


def pattern(rng, s):
    """made from a name by putting wildcards for some of it"""
    out = ''
    for c in s:
        r = rng.random()
        out += '?' if r < 0.15 else '*' if r < 0.25 else '[%s%s]' % (rng.choice(['', '!']), rng.choice(['a-b', '0-9', 'ab', c if c not in '[]!-' else 'x'])) if r < 0.35 else '' if r < 0.4 else c
    return out + ('*' if rng.random() < 0.3 else '')


def odd(p):
    """brackets which close nothing: what is one then is not laid down"""
    return '[!]' in p or '[]' in p


def files_case(rng):
    dirs, files = [], []
    for _ in range(rng.choice([0, 1, 2, 2])):
        d = (rng.choice(dirs) if dirs and rng.random() < 0.4 else []) + [name(rng, 'abd.', 2)]
        if d not in dirs:
            dirs.append(d)
    for _ in range(rng.randint(1, 6)):
        f = (rng.choice(dirs) if dirs and rng.random() < 0.5 else []) + [name(rng)]
        if f not in dirs and f not in files:
            files.append(f)
    els = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = list(rng.choice(files + dirs + files + [[name(rng)]]))
        if rng.random() < 0.5:
            k = rng.randrange(len(p))
            p[k] = pattern(rng, p[k]) or '*'
        if any(odd(x) for x in p) or any(x in ('.', '..') for x in p):
            p = ['*']
        if len([x for x in p if '[' in x]) > 1:
            p = ['?']
        els.append({'path': [codes(x) for x in p], 'slash': rng.random() < 0.15, 'dot': rng.random() < 0.25})
    if rng.random() < 0.1:
        els.append({'path': [], 'slash': rng.random() < 0.3, 'dot': rng.random() < 0.8})
    # twice the values, which are of different types in different files
    content, types, k = [], [], 0
    same = rng.choice(['f8', 'f8', 'i4', None, None])
    for f in files:
        types.append(same or rng.choice(['i2', 'i4', 'f4', 'f8']))
        content.append([2 * (k + j) + (rng.choice([0, 1]) if types[-1][0] == 'f' else 100000 if types[-1] == 'i4' else 0) for j in range(rng.randint(1, 3))])
        k += 10
    return {'kind': 'files', 'types': types, 't': {'files': [[codes(x) for x in f] for f in files], 'dirs': [[codes(x) for x in f] for f in dirs], 'content': content},
            'els': els, 'form': rng.choice(['comma', 'list']), 'read': rng.random() < 0.25}


def vars_case(rng):
    mode = 'real' if rng.random() < 0.15 else 'stub'
    chars = 'abAB01' if mode == 'real' else 'abAB01._-{}[]'
    vs = []
    while len(vs) < rng.choice([1, 2, 3, 5]):
        v = ('v' if mode == 'real' else '') + name(rng, chars)
        if v not in vs and not odd(v) and not ('[' in v and ']' in v):
            vs.append(v)
    hidden = vs[-1:] if mode == 'stub' and len(vs) > 1 and rng.random() < 0.3 else []
    specs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = rng.choice(vs) if rng.random() < 0.9 else name(rng, chars)
        if rng.random() < 0.6:
            p = pattern(rng, p) or '*'
        if odd(p):
            p = '*'
        specs.append(p)
    aliases = []
    if rng.random() < 0.6:
        aliases = [s if rng.random() < 0.5 else name(rng, 'xyz') for s in specs]
    coords = ['latitude', 'longitude', 'time'] if mode == 'real' else []
    return {'kind': 'vars', 'listed': [codes(v) for v in vs if v not in hidden] + [codes(c) for c in coords], 'there': [codes(v) for v in vs + coords],
            'specs': [codes(s) for s in specs], 'aliases': [codes(a) for a in aliases], 'mode': mode}


def spelled(el):
    p = '/'.join(text(x) for x in el['path'])
    if el['dot']:
        p = './' + p if p else '.'
    return p + ('/' if el['slash'] and p else '')


def write(path, twice, k, kind='f8'):
    n = len(twice)
    values = [v / 2 for v in twice]
    d = build.ungridded({'coords': [{'std': s, 'v': [7 * k + j for j in range(n)]} for s in ('latitude', 'longitude', 'time')], 'v': values, 'dtype': kind}, q=1)
    d.save_data(path)


def files(e):
    import contextlib
    import io
    import cis
    from cis.data_io.data_reader import expand_filelist
    from cis.parse import parse_args
    home, t = os.getcwd(), e['t']
    top = os.path.join(home, 'tree%d' % next(COUNT))
    os.makedirs(top)
    try:
        os.chdir(top)
        for d in t['dirs']:
            os.makedirs(os.path.join(top, *[text(x) for x in d]), exist_ok=True)
        for k, (f, values) in enumerate(zip(t['files'], t['content'])):
            p = os.path.join(top, *[text(x) for x in f])
            if e['read']:
                write(p, values, k, e['types'][k] if 'types' in e else 'f8')
            else:
                open(p, 'w').close()
        words = [spelled(el) for el in e['els']]
        spec = ','.join(words) if e['form'] == 'comma' else words

        def comps(p):
            return [codes(x) for x in os.path.relpath(os.path.abspath(p), top).split(os.sep)]
        out = {'joined': joined(e), 'outcome': 'refused', 'got': [], 'read': '', 'content': [], 'filenames': [], 'command': []}
        try:
            out['got'] = [comps(p) for p in expand_filelist(spec)]
            out['outcome'] = 'ok'
        except ValueError:
            pass
        try:
            if e['read'] or out['outcome'] == 'refused':
                d = cis.read_data(spec, 'x', 'cis')
                out['read'] = 'ok'
                out['content'] = C.enc_arr(d.data, 2)
                out['filenames'] = [comps(p) for p in d.filenames]
                out['command'] = command(','.join(words), comps)
        except IOError:
            out['read'] = 'refused'
        return out
    finally:
        os.chdir(home)
        shutil.rmtree(top)


def joined(e):
    """the contents of all files, whose types differ, some of which have missing values (in every second file, every second value)"""
    from cis.utils import concatenate
    parts, some = [], e['form'] == 'list'
    for k, twice in enumerate(e['t']['content']):
        a = np.array([v / 2 for v in twice], dtype=e['types'][k] if 'types' in e else ['f8', 'f4'][k % 2])
        parts.append(np.ma.array(a, mask=[j % 2 for j in range(len(a))]) if some and k % 2 else a)
    return C.enc_arr(concatenate(parts), 2)


def command(words, comps):
    import contextlib
    import io
    from cis.parse import parse_args
    with contextlib.redirect_stderr(io.StringIO()):
        a = parse_args(['info', 'x:' + words.replace(':', '\\:')])
    return [comps(p) for p in a.datagroups[0]['filenames']]


def variables(e):
    import cis
    from cis.data_io.data_reader import DataReader
    from cis.data_io.ungridded_data import UngriddedDataList
    there, listed = [text(v) for v in e['there']], [text(v) for v in e['listed']]
    specs, aliases = [text(s) for s in e['specs']], [text(a) for a in e['aliases']]
    numbers = {v: k for k, v in enumerate(there)}

    def one(v):
        if v not in numbers:
            raise IOError('no such variable')
        return build.ungridded({'coords': [{'std': s, 'v': [1, 2]} for s in ('latitude', 'longitude')], 'v': [numbers[v], 5], 'name': v}, q=1)
    path = os.path.abspath('v%d.nc' % next(COUNT))
    try:
        if e['mode'] == 'real':
            UngriddedDataList([one(v) for v in there if v not in ('latitude', 'longitude', 'time')] + []).save_data(path)
            own = [v for v in there if v not in ('latitude', 'longitude', 'time')]
            build.ungridded({'coords': [{'std': s, 'v': [1, 2]} for s in ('latitude', 'longitude', 'time')], 'v': [0, 5], 'name': own[0]}, q=1)
            ds = UngriddedDataList()
            for v in own:
                ds.append(build.ungridded({'coords': [{'std': s, 'v': [1, 2]} for s in ('latitude', 'longitude', 'time')], 'v': [numbers[v], 5], 'name': v, 'long': 'l' + v}, q=1))
            ds.save_data(path)
            got = cis.read_data_list(path, specs, aliases=aliases or None)
        else:
            reader = DataReader(lambda files, v, product: one(v), None, lambda files, product: set(listed))
            got = reader.read_data_list(['f'], specs, None, aliases or None)
    except (IOError, ValueError) as x:
        return {'outcome': 'refused', 'got': [], 'values': True, 'one': True}
    except Exception as x:
        if type(x).__name__ != 'ProductPluginException':
            raise
        return {'outcome': 'refused', 'got': [], 'values': True, 'one': True}
    finally:
        if os.path.exists(path):
            os.remove(path)
    vals = all(float(d.data[0]) == numbers[d.var_name] for d in got if d.var_name not in ('latitude', 'longitude', 'time'))
    return {'outcome': 'ok', 'got': [{'var': codes(str(d.var_name)), 'alias': codes(str(d.alias))} for d in got], 'values': bool(vals), 'one': isinstance(got, UngriddedDataList)}


def execute(e):
    return files(e) if e['kind'] == 'files' else variables(e)


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and len(rec['out']['got']) > 1
