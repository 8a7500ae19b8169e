"""D04: finding coordinates."""
import numpy as np

JUDGE = 'JudgeLookup'
GEN = ['GenLookup']
SECONDS = 15


def models(tier):
    return [('MCLookup', 'MCLookup' if tier == 'quick' else 'MCLookup_t')]


def random_cases(rng, tier):
    for n in range(500 if tier == 'quick' else 10000):
        cs = [coord(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 7]))]
        yield {'cs': cs, 'qs': [question(rng, cs) for _ in range(8)], 'where': rng.choice(['list', 'data', 'coords', 'many'])}


def coord(rng):
    std = rng.choice(['', '', 'latitude', 'longitude', 'altitude', 'air_pressure', 'time', 'air_temperature'])
    return {'std': std, 'long': rng.choice(['', 'long one', 'time', 'q2', 'a b']), 'var': rng.choice(['', 'q1', 'q2', 'x']), 'axis': rng.choice(['X', 'Y', 'Z', 'T', 'x', 't', '']),
            'atts': [[k, rng.choice('12')] for k in 'km' if rng.random() < 0.4]}


def question(rng, cs):
    c = rng.choice(cs) if cs and rng.random() < 0.8 else coord(rng)
    name = c['std'] or c['long'] or c['var'] or 'unknown'
    q = {'name': name, 'std': c['std'], 'long': c['long'], 'var': c['var'], 'axis': rng.choice([c['axis'].lower(), c['axis']]), 'atts': [a for a in c['atts'] if rng.random() < 0.7], 'obj': c['std']}
    other = coord(rng)
    for k in list(q):
        r = rng.random()
        if r < 0.65:
            q[k] = [] if k == 'atts' else '-'
        elif r < 0.75:
            q[k] = other.get(k, other.get('std'))
    if q['axis'] == '':
        q['axis'] = '-'
    return q


def execute(e):
    from cis.data_io.Coord import Coord, CoordList
    from cis.data_io.ungridded_data import Metadata, UngriddedData, UngriddedCoordinates, UngriddedDataList
    from cis.exceptions import CoordinateNotFoundError, DuplicateCoordinateError
    lst, kept = CoordList(), []
    for k, c in enumerate(e['cs']):
        m = Metadata(name=c['var'], long_name=c['long'], units='1')
        if c['std']:
            m.standard_name = c['std']
        x = Coord(np.array([k + 1.0, k + 1.5]), m, axis=c['axis'])
        x.add_attributes(dict(c['atts']))
        try:
            lst.append(x)
            kept.append(k + 1)
        except DuplicateCoordinateError:
            pass
    if e['where'] == 'list' or not kept:
        find, one, std = lst.get_coords, lst.get_coord, lst.find_standard_coords
    elif e['where'] == 'coords':
        o = UngriddedCoordinates(lst)
        find, one, std = o.coords, o.coord, o.coords().find_standard_coords
    else:
        o = UngriddedData(np.array([1.0, 2.0]), Metadata(name='v', units='1'), lst)
        find, one, std = o.coords, o.coord, o.find_standard_coords
        if e['where'] == 'many':
            p = UngriddedDataList([o])
            find, one = p.coords, p.coord

    def number(c):
        return int(c.data[0]) if c is not None else 0
    answers = []
    for q in e['qs']:
        kw = {}
        for key, name in (('std', 'standard_name'), ('long', 'long_name'), ('axis', 'axis'), ('var', 'var_name')):
            if q[key] not in ('-', '' if key == 'std' else '-'):
                kw[name] = q[key]
        if q['atts']:
            kw['attributes'] = dict(q['atts'])
        if q['name'] != '-':
            kw['name_or_coord'] = q['name']
        elif q['obj'] != '-':
            m = Metadata(name='other', units='m')
            if q['obj']:
                m.standard_name = q['obj']
            kw['name_or_coord'] = Coord(np.array([0.0]), m)
        a = {'all': [number(c) for c in find(**kw)], 'one': 0}
        try:
            a['one'] = number(one(**kw))
        except CoordinateNotFoundError:
            pass
        answers.append(a)
    return {'outcome': 'ok', 'kept': kept, 'answers': answers, 'standard': [number(c) for c in std()]}


def project(rec):
    # a question cannot ask for a name and for likeness at once
    for q in rec['qs']:
        if q['name'] != '-':
            q['obj'] = '-'
        # no standard name is no name to ask for
        if q['std'] == '':
            q['std'] = '-'
    return rec


def nontrivial(rec):
    return len(rec['out'].get('kept', [])) > 1
