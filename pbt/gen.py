"""Hypothesis strategies for JSON-able case descriptions."""
from hypothesis import strategies as st

from .build import FAMILIES, LINEAR, TIME_FACTORS, KINDS, per_time

E_DIMS = ['z', 'lev', 'k']
W_DIMS = ['x', 'y', 'lat']
# also names of dims
NAMES = ['air_temperature', 'p', 'humidity', 'u', 'v', 'cloud', 'h', 'z', 'lat']
ALIASES = ['T', 'P', 'qv', 'uu', 'vv', 'cc', 'hh', 'x', 'phi']
OUT_NAMES = ['rate', 'energy', 'mixed', 'total']
OUT_ALIASES = ['R', 'E', 'M', 'TT']

# the millions choose a memory layout, see build.data_array
# names of attributes which quantities have in practice
attr_names = st.lists(st.sampled_from([
    'long_name', 'standard_name', 'note', '_private', 'source', 'calendar', 'axis', 'positive', 'Units', 'name', 'dims',
    'dtype', 'values', 'alias']), max_size=2, unique=True)
seeds = st.one_of(st.integers(0, 10 ** 6 - 1), st.integers(0, 10 ** 6 - 1), st.integers(0, 11 * 10 ** 6 - 1))
finite_or_nan = st.one_of(st.integers(0, 10 ** 6 - 1), st.integers(0, 9 * 10 ** 6 - 1))
lengths = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.sampled_from([0, 5, 7]))
coefs = st.sampled_from([1., -1., 2., 0.5, -0.25, 3., 0.])
nonzero = st.sampled_from([1., -1., 2., 0.5, -0.25, 3.])


@st.composite
def subset(draw, items, min_size=0, max_size=None):
    """A subset in random order, all sizes equally likely."""
    items = list(items)
    if not items:
        return []
    top = len(items) if max_size is None else min(max_size, len(items))
    n = draw(st.integers(min(min_size, top), top))
    return list(draw(st.permutations(items)))[:n] if n else []


def permuted(items):
    return st.permutations(list(items)) if len(items) > 1 else st.just(list(items))


@st.composite
def times(draw, calendars=True):
    if draw(st.booleans()):
        return {'k': 'td', 's': draw(st.integers(-10 ** 6, 10 ** 8))}
    spec = {'k': 'dt', 'd': [draw(st.integers(1900, 2100)), draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                             draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))]}
    if calendars:
        spec['cal'] = draw(st.sampled_from(
            ['proleptic_gregorian', 'no_leap', 'all_leap', '360_day', 'julian', 'gregorian']))
    return spec


timesteps = st.sampled_from([1., 10., 60., 0.5, 600., 3600., 86400., 0.1, 0.001, -60., 2592000.])


@st.composite
def input_quantities(draw, min_size=1, max_size=4, linear=False, dtypes=('float64', 'float64', 'float64', 'float32', 'int64', 'int32', 'uint8', 'int16', 'bool'),
                     wildcard=True, alias=True, broadcast=True):
    """Layout and input quantities: dims and units as a component wants them and
    as the state has them."""
    e = E_DIMS
    w = draw(st.permutations(W_DIMS))[:draw(st.sampled_from([2, 1, 3, 0]))] if wildcard else []
    lens = {d: draw(lengths) for d in sorted(E_DIMS + W_DIMS)}
    n = draw(st.integers(min_size, max_size))
    if max_size >= 4 and draw(st.integers(0, 19)) == 0:
        n = draw(st.integers(5, len(NAMES)))
    names = draw(st.permutations(NAMES))[:n]
    table = LINEAR if linear else FAMILIES
    out = []
    for name in names:
        dims = draw(st.permutations(e))[:draw(st.sampled_from([1, 2, 0, 3]))]
        star = wildcard and draw(st.booleans())
        if broadcast and draw(st.integers(0, 2)) == 0:
            state_dims = draw(subset(dims + (w if star else [])))
        else:
            state_dims = draw(permuted(dims + (w if star else [])))
        if star:
            dims = list(dims)
            dims.insert(draw(st.integers(0, len(dims))), '*')
        fam = draw(st.sampled_from(sorted(table)))
        q = {'name': name, 'pdims': dims, 'dims': list(state_dims),
             'punits': draw(st.sampled_from(sorted(table[fam]))),
             'units': draw(st.sampled_from(sorted(table[fam]))),
             'seed': draw(seeds), 'dtype': draw(st.sampled_from(dtypes))}
        if alias and draw(st.integers(0, 3)) == 0:
            q['alias'] = ALIASES[NAMES.index(name)]
        out.append(q)
    if alias and n > 1 and draw(st.integers(0, 7)) == 0:
        # aliases which are the names of one another
        ring = draw(permuted(out))[:draw(st.integers(2, n))]
        for q, r in zip(ring, ring[1:] + ring[:1]):
            q['alias'] = r['name']
    return {'lens': lens, 'inputs': out}


@st.composite
def output_list(draw, inputs, group, max_size=3, linear=False, allow_new_dims=True, alias=True, min_size=0):
    """Output quantities of one group (tendency, diagnostic or output)."""
    have_star = any('*' in q['pdims'] for q in inputs)
    e = sorted({d for q in inputs for d in q['pdims'] if d != '*'})
    n = draw(st.sampled_from([k for k in (1, 2, 3, 0) if min_size <= k <= max_size]))
    pool = [('in', q['name']) for q in inputs] + [('new', name) for name in OUT_NAMES]
    chosen = draw(st.permutations(pool))[:n]
    table = LINEAR if (linear or group == 'tendency') else FAMILIES
    out = []
    for origin, name in chosen:
        o = {'name': name, 'seed': draw(seeds), 'coefs': [draw(coefs) for _ in inputs]}
        src = None
        if origin == 'in':
            src = [q for q in inputs if q['name'] == name][0]
            fam = [f for f in FAMILIES if src['punits'] in FAMILIES[f]][0]
            base = src['punits']
        else:
            fam = draw(st.sampled_from(sorted(table)))
        linear_src = src is None or src['punits'] in LINEAR[fam]
        if group == 'tendency':
            if not linear_src:
                continue
            o['base'] = draw(st.sampled_from(sorted(LINEAR[fam])))
            o['tunit'] = draw(st.sampled_from(sorted(TIME_FACTORS)))
            o['units'] = per_time(o['base'], o['tunit'])
        elif src is not None:
            o['units'] = draw(st.sampled_from(sorted(table[fam])))
        else:
            o['units'] = draw(st.sampled_from(sorted(table[fam])))
        if src is not None and draw(st.booleans()):
            o['dims'] = None  # like the input
        else:
            dims = list(draw(permuted(e)))[:draw(st.sampled_from([3, 2, 1, 0]))]
            if allow_new_dims and draw(st.integers(0, 4)) == 0:
                dims = dims + ['new']
                o['newlen'] = draw(lengths)
                dims = list(draw(permuted(dims)))
            if have_star and draw(st.booleans()):
                dims = list(dims)
                dims.insert(draw(st.integers(0, len(dims))), '*')
            o['dims'] = list(dims)
        if alias and draw(st.integers(0, 3)) == 0:
            if origin == 'new':
                o['alias'] = OUT_ALIASES[OUT_NAMES.index(name)]
            elif 'alias' not in src:
                o['alias'] = ALIASES[NAMES.index(name)]
            elif draw(st.booleans()):  # another one for the output
                o['alias'] = ALIASES[NAMES.index(name)] + '_out'
        out.append(o)
    # two lengths for the 'new' dim within one component would be the component's fault
    newlen = None
    for o in out:
        if 'newlen' in o:
            newlen = newlen or o['newlen']
            o['newlen'] = newlen
    return out


@st.composite
def decoys(draw):
    """Quantities in the state that a component does not use, whose names may
    be its aliases or outputs, in any layout."""
    lens = {d: draw(lengths) for d in W_DIMS + E_DIMS + ['new']}
    return [{'name': name, 'lens': lens, 'dims': draw(subset(W_DIMS + E_DIMS + ['new'], max_size=3)), 'seed': draw(seeds),
             'units': draw(st.sampled_from(['degC', 'km', 'kg', '', 'nonsense'])), 'first': draw(st.booleans()),
             'what': draw(st.sampled_from(['quantity', 'quantity', 'quantity', 'no units', 'array', 'text']))}
            for name in draw(subset(ALIASES + OUT_NAMES + OUT_ALIASES + NAMES, min_size=1, max_size=3))]


GROUPS = {'tendency': ('tendency', 'diagnostic'), 'implicit': ('tendency', 'diagnostic'),
          'diagnostic': ('diagnostic',), 'stepper': ('diagnostic', 'output')}


@st.composite
def component_cases(draw, kinds=KINDS, min_inputs=1, max_inputs=4, linear=False, alias=True, **kw):
    case = draw(input_quantities(min_size=min_inputs, max_size=max_inputs, linear=linear, alias=alias, **kw))
    case['kind'] = draw(st.sampled_from(list(kinds)))
    case['time'] = draw(times())
    case['dt'] = draw(timesteps)
    case['groups'] = {}
    case['tuples'] = draw(st.sampled_from([False] * 8 + [True, 'in', 'out']))
    case['style'] = draw(st.sampled_from(['class', 'class', 'class', 'instance', 'property', 'inherited']))
    newlen = draw(lengths)
    for g in GROUPS[case['kind']]:
        case['groups'][g] = draw(output_list(case['inputs'], g, linear=linear, alias=alias))
        for o in case['groups'][g]:
            if 'newlen' in o:
                o['newlen'] = newlen
    if draw(st.integers(0, 3)) == 0:
        # outputs may be read, to get their tendencies
        taken = {o['name'] for o in case['groups'].get('output', [])}
        case['decoys'] = [d for d in draw(decoys()) if d['name'] not in taken]
    return case
