"""The array helpers for component authors agree with what components do."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random states and property dictionaries through get_numpy_arrays_with_properties, '
        'initialize_numpy_arrays_with_properties and restore_data_arrays_with_properties (with ignored and missing '
        'names), compared with named-axis bookkeeping in numpy; aliases collected from random components, and shared '
        'keys, against a direct model. Non-trivial: at least two quantities or a wildcard.')


def check_round_trip(case, cov):
    """arrays from a state, restored, are the state in the declared units and dims"""
    import sympl
    props = C.in_props(case)
    state = C.make_state(case)
    snap, psnap = B.snapshot(state), copy.deepcopy(props)
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    values = C.state_values(case)
    if set(raw) != {C.raw_name(q) for q in case['inputs']}:
        fail('arrays {} for properties {}', sorted(raw), props)
    C.check_raw(case, raw, values)
    rsnap = B.snapshot(raw)
    out_props = {q['name']: {'units': q['punits']} for q in case['inputs']}
    for k, q in enumerate(case['inputs']):
        if case['explicit'] >> k & 1:
            out_props[q['name']]['dims'] = list(q['pdims'])
    ignore = [q['name'] for k, q in enumerate(case['inputs']) if case['ignore'] >> k & 1]
    gone = [q['name'] for k, q in enumerate(case['inputs']) if case['gone'] >> k & 1]
    kw = {}
    given = dict(raw)
    if ignore:
        kw['ignore_names'] = ignore
    if gone:
        kw['ignore_missing'] = True
        for n in gone:
            given.pop([C.raw_name(q) for q in case['inputs'] if q['name'] == n][0])
    for n, a in list(given.items()):
        if a.ndim == 0 and case['floats']:
            given[n] = float(a)
    objects = dict(given)
    back = sympl.restore_data_arrays_with_properties(given, out_props, state, props, **kw)
    expect = {q['name'] for q in case['inputs']} - set(ignore) - set(gone)
    if set(back) != expect:
        fail('restored {} where {} were expected (ignored {}, missing {})', sorted(back), sorted(expect), ignore, gone)
    for q in case['inputs']:
        if q['name'] in back:
            o = {'name': q['name'], 'dims': list(q['pdims']), 'units': q['punits'], 'seed': 0,
                 'coefs': [1. if r is q else 0. for r in case['inputs']]}
            C.check_dims_declared(case, o, back[q['name']])
            dims = B.expand(q['pdims'], C.wild_dims(case))
            want = B.broadcast(B.convert(values[q['name']], q['units'], q['punits']), q['dims'], dims, C.dim_lens(case))
            got = B.by_name(back[q['name']], dims)
            if back[q['name']].attrs.get('units') != q['punits'] or not C.converted(q, got, want):
                fail('{} is restored as {} where {} {} was expected', q['name'], back[q['name']], want.tolist(),
                     q['punits'])
    if not B.same_snapshot(snap, B.snapshot(state)) or props != psnap or not B.same_snapshot(
            rsnap, B.snapshot(raw)) or set(given) != set(objects) or any(
                given[n] is not a for n, a in objects.items()):
        fail('an argument changed')
    cov.label('wildcard' if C.wild_dims(case) else 'explicit', 'ignored' if ignore else 'none ignored')
    cov.nontrivial(len(case['inputs']) > 1 or C.wild_dims(case))


@st.composite
def round_trip_cases(draw):
    case = draw(G.input_quantities())
    case['groups'] = {}
    case['time'] = {'k': 'td', 's': 0}
    case['explicit'] = draw(st.integers(0, 15))
    case['ignore'] = draw(st.sampled_from([0, 0, 1, 2, 5]))
    case['gone'] = draw(st.sampled_from([0, 0, 0, 1, 2, 6]))
    case['floats'] = draw(st.booleans())
    return case


def check_initialize(case, cov):
    import sympl
    props = C.in_props(case)
    state = C.make_state(case)
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    lens = {d: n for q in case['inputs'] for d, n in zip(q['pdims'], raw[C.raw_name(q)].shape)}
    out_props = {}
    for o in case['outs']:
        out_props[o['name']] = {'units': o['units']}
        if o['dims'] is not None:
            out_props[o['name']]['dims'] = list(o['dims'])
        if o['dtype']:
            out_props[o['name']]['dtype'] = np.dtype(o['dtype'])
    kw = {}
    tracers = []
    if case['tracer_dims'] is not None:
        for n in case['registered']:
            sympl.register_tracer(n, 'kg/kg')
        kw['tracer_dims'] = list(case['tracer_dims'])
        if case['prepend']:
            kw['prepend_tracers'] = [(n, 'kg/kg') for n in case['prepend']]
        tracers = list(case['prepend']) + [n for n in case['registered'] if n not in case['prepend']]
    else:
        for n in case['registered']:
            sympl.register_tracer(n, 'kg/kg')
    for o in case['own']:
        out_props[o['name']] = {'units': 'kg/kg', 'dims': list(o['dims'])}
    outs = case['outs'] + [dict(o, dtype=None) for o in case['own'] if o['name'] not in tracers]
    if case['conflict'] is not None:
        shared = [(q, i) for q in case['inputs'] for i, d in enumerate(q['pdims'])
                  if sum(d in p['pdims'] for p in case['inputs']) > 1]
        if shared:
            q, i = shared[case['conflict'] % len(shared)]
            a = raw[C.raw_name(q)]
            raw[C.raw_name(q)] = np.zeros(a.shape[:i] + (a.shape[i] + 1,) + a.shape[i + 1:])
            B.expect_raises(sympl.InvalidStateError, lambda: sympl.initialize_numpy_arrays_with_properties(
                out_props, raw, props, **kw), 'inputs of different lengths along {}'.format(q['pdims'][i]))
            cov.label('conflicting lengths')
            cov.nontrivial()
            return
    rsnap = B.snapshot(raw)
    result = sympl.initialize_numpy_arrays_with_properties(out_props, raw, props, **kw)
    keys = {o['name'] for o in outs} | ({'tracers'} if kw else set())
    if set(result) != keys:
        fail('arrays {} where {} were expected', sorted(result), sorted(keys))
    for o in outs:
        dims = C.out_dims(case, o)
        shape = tuple(lens[d] for d in dims)
        a = result[o['name']]
        if not isinstance(a, np.ndarray) or a.shape != shape or np.any(a != 0):
            fail('{} with dims {} is initialized to {} where zeros of shape {} were expected', o['name'], dims, a, shape)
        if a.dtype != np.dtype(o['dtype'] or 'float64'):
            fail('{} is initialized with dtype {}', o['name'], a.dtype)
        a[...] = 3
    if kw:
        shape = tuple(len(tracers) if d == 'tracer' else lens[d] for d in case['tracer_dims'])
        a = result['tracers']
        if a.shape != shape or np.any(a != 0):
            fail('tracers {} with dims {} are initialized to an array of shape {} where {} was expected', tracers,
                 case['tracer_dims'], a.shape, shape)
        a[...] = 1
    if not B.same_snapshot(rsnap, B.snapshot(raw)):
        fail('the arrays share memory with the input')
    for o in outs:
        if np.any(result[o['name']] != 3):
            fail('two of the arrays share memory')
    cov.label('tracers' if kw else 'no tracers', *['with tracers of its own'] * bool(case['own']))
    cov.nontrivial(len(outs) > 1 or kw)


@st.composite
def initialize_cases(draw):
    case = draw(G.input_quantities())
    case['groups'] = {}
    case['time'] = {'k': 'td', 's': 0}
    case['outs'] = draw(G.output_list(case['inputs'], 'diagnostic', allow_new_dims=False, alias=False))
    for o in case['outs']:
        o['dtype'] = draw(st.sampled_from([None, None, 'float32', 'int64']))
    dims = sorted({d for q in case['inputs'] for d in q['pdims']})
    case['tracer_dims'] = None
    case['registered'], case['prepend'] = [], []
    if draw(st.integers(0, 2)) == 0:
        td = draw(G.subset(dims, max_size=3))
        td.insert(draw(st.integers(0, len(td))), 'tracer')
        case['tracer_dims'] = td
        case['registered'] = draw(G.subset(['ta', 'tb', 'tc']))
        case['prepend'] = draw(G.subset(['ta', 'td', 'te']))
    elif draw(st.booleans()):
        case['registered'] = draw(G.subset(['ta', 'tb', 'tc']))
    case['own'] = []
    if draw(st.integers(0, 2)) == 0:
        case['own'] = [{'name': n, 'dims': draw(G.subset(dims, max_size=2)), 'units': 'kg/kg'}
                       for n in draw(G.subset(['ta', 'td', 'tx'], min_size=1))]
    case['conflict'] = draw(st.sampled_from([None, None, None, 0, 1, 2, 3]))
    return case


def check_aliases(case, cov):
    import sympl
    comps = []
    for c in case['comps']:
        comps.append(B.make_class(c['kind'], c['props'], lambda raw, dt: {})())
    got = sympl.get_component_aliases(*comps)
    level = ['input', 'output', 'diagnostic', 'tendency']
    want = {}
    for c in case['comps']:
        for g, props in c['props'].items():
            for n, p in props.items():
                if 'alias' in p:
                    want.setdefault(n, {}).setdefault(level.index(g), set()).add(p['alias'])
    if set(got) != set(want):
        fail('aliases {} where {} have aliases', got, sorted(want))
    for n, a in got.items():
        best = want[n][min(want[n])]
        if a not in best:
            fail('the alias of {} is {} where {} was expected (all: {})', n, a, sorted(best), want[n])
    cov.nontrivial(len(want) > 1)


@st.composite
def alias_cases(draw):
    comps = []
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(B.KINDS))
        props = {}
        for g in ('input',) + G.GROUPS[kind]:
            props[g] = {}
            taken = set()
            for n in draw(G.subset(['a', 'b', 'c'])):
                p = {'dims': ['x'], 'units': 'm' if g != 'tendency' else 'm/s'}
                if draw(st.integers(0, 2)):
                    p['alias'] = draw(st.sampled_from(['{}_{}'.format(n, k) for k in 'pqrs']))
                props[g][n] = p
        comps.append({'kind': kind, 'props': props})
    return {'comps': comps}


def check_shared(case, cov):
    import sympl
    a, b = {k: 1 for k in case['a']}, {k: 2 for k in case['b']}
    if set(a) & set(b):
        B.expect_raises(sympl.SharedKeyError, lambda: sympl.ensure_no_shared_keys(a, b), 'keys {} {}'.format(a, b))
    else:
        sympl.ensure_no_shared_keys(a, b)
    if a != {k: 1 for k in case['a']} or b != {k: 2 for k in case['b']}:
        fail('an argument changed')
    cov.nontrivial(bool(a and b))


KEYS = st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'time', '']), unique=True, max_size=4)

JIT_FORMS = ['plain', 'empty', 'option', 'signature', 'signatures', 'signature and option', 'call']


def check_jit(case, cov):
    import sympl

    def func(x, n):
        total = 0.
        for i in range(n):
            total = total + x * i
        return total
    form = case['form']
    if form == 'plain':
        made = sympl.jit(func)
    elif form == 'call':
        made = sympl.jit(signature_or_function=func)
    else:
        decorator = {'empty': lambda: sympl.jit(), 'option': lambda: sympl.jit(nopython=True),
                     'signature': lambda: sympl.jit('float64(float64, int64)'),
                     'signatures': lambda: sympl.jit(['float64(float64, int64)']),
                     'signature and option': lambda: sympl.jit('float64(float64, int64)', cache=False)}[form]()
        made = decorator(func)
    got, want = made(case['x'], case['n']), func(case['x'], case['n'])
    if got != want:
        fail('a function decorated with jit ({}) gives {} where {} was expected', form, got, want)
    cov.label(form)
    cov.nontrivial(case['n'] > 1)


SUBS = [
    Sub('jit', lambda: st.fixed_dictionaries({'form': st.sampled_from(JIT_FORMS), 'x': st.integers(-9, 9).map(float),
                                              'n': st.integers(0, 4)}), check_jit, 120, 300),
    Sub('round_trip', round_trip_cases, check_round_trip, 3200, 30000),
    Sub('initialize', initialize_cases, check_initialize, 2400, 20000),
    Sub('aliases', alias_cases, check_aliases, 800, 5000),
    Sub('shared', lambda: st.fixed_dictionaries({'a': KEYS, 'b': KEYS}), check_shared, 400, 1000),
]
