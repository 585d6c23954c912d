"""Component outputs are restored to labelled quantities."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail
from .c01 import features

RULE = ('Random components of all four types computing a linear function of their raw inputs (outputs with '
        'explicit, wildcard, inherited, missing and new dims, aliases, any units); oracle: the same function '
        'evaluated on the state by dimension name. Non-trivial: at least one output depends on an input or has '
        'dims, and some input needs a transpose, broadcast, flatten or unit conversion.')


def out_features(case, cov):
    any_out = False
    for g, outs in case['groups'].items():
        for o in outs:
            any_out = any_out or bool(C.out_dims(case, o)) or any(c for c in o['coefs'])
            if o['dims'] is None:
                cov.label('dims like input')
            if '*' in C.out_dims(case, o):
                cov.label('wildcard output')
                if len(C.wild_dims(case)) > 1:
                    cov.label('wildcard output of several dims')
            if 'newlen' in o:
                cov.label('new dim')
            if C.out_raw_name(case, o) != o['name']:
                cov.label('aliased output')
        if outs:
            cov.label(g + ' outputs')
    return any_out


def check_component(case, cov):
    component = C.make(case)
    state = C.make_state(case)
    nt = out_features(case, cov)
    cov.nontrivial(features(case, cov) and nt)
    result = B.call(component, case['kind'], state, C.timestep(case))
    C.check_outputs(case, result, C.state_values(case), C.tolerance(case))


def check_lists(case, cov):
    """Outputs given as lists or Python numbers are restored like arrays."""
    def func(raw, dt):
        r = C.compute(case, raw, dt)
        return {g: {k: (v.tolist() if v.size and (i + case['time'].get('s', 0)) % 2 == 0 else v)
                    for i, (k, v) in enumerate(sorted(d.items()))} for g, d in r.items()}
    component = B.make_class(case['kind'], C.properties(case), func)()
    nt = out_features(case, cov)
    cov.nontrivial(nt)
    result = B.call(component, case['kind'], C.make_state(case), C.timestep(case))
    C.check_outputs(case, result, C.state_values(case), C.tolerance(case))


def check_roundtrip(case, cov):
    """Restoring what was extracted gives back every quantity, in the declared
    units, for the dims it has (and copies along the dims it lacks)."""
    import sympl
    case = dict(case, groups={'output': []})
    state = C.make_state(case)
    props = C.in_props(case)
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    out_props = {n: {'units': p['units']} for n, p in props.items()}
    names = sorted(out_props)
    ignored = names[:case['ignore'] % (len(names) + 1)]
    kwargs = {}
    if case['how'] == 'names':
        kwargs['ignore_names'] = ignored
    elif case['how'] == 'missing':
        # only un-aliased ones can be recognised as missing by their name
        if any('alias' in p for p in props.values()):
            props_no_alias = {n: {k: v for k, v in p.items() if k != 'alias'} for n, p in props.items()}
            props = props_no_alias
            raw = sympl.get_numpy_arrays_with_properties(state, props)
        for n in ignored:
            raw.pop(n)
        kwargs['ignore_missing'] = True
    else:
        ignored = []
    result = sympl.restore_data_arrays_with_properties(raw, out_props, state, props, **kwargs)
    if set(result) != set(names) - set(ignored):
        fail('restored {} of {}, ignoring {}', sorted(result), names, ignored)
    lens, wild = C.dim_lens(case), C.wild_dims(case)
    vals = C.state_values(case)
    for q in case['inputs']:
        if q['name'] in ignored:
            continue
        got = result[q['name']]
        if got.attrs.get('units') != q['punits']:
            fail('{} restored with units {} instead of {}', q['name'], got.attrs.get('units'), q['punits'])
        dims = B.expand(q['pdims'], wild)
        want = B.broadcast(B.convert(vals[q['name']], q['units'], q['punits']), q['dims'], dims, lens)
        rtol = C.tolerance(case)
        offset = abs(B.scale_offset(q['units'])[1]) + abs(B.scale_offset(q['punits'])[1])
        scale = 1. + B.top(want) + offset / B.scale_offset(q['punits'])[0]
        if not B.close(B.by_name(got, dims), want, rtol=rtol, atol=rtol, scale=scale):
            fail('{} did not survive the round trip: {} vs {}', q['name'], got.values.tolist(), want.tolist())
    cov.nontrivial(features(case, cov))
    cov.label('ignore ' + case['how'])


@st.composite
def roundtrips(draw):
    case = draw(G.input_quantities(max_size=4))
    case['time'] = draw(G.times())
    case['how'] = draw(st.sampled_from(['none', 'names', 'missing']))
    case['ignore'] = draw(st.integers(0, 4))
    return case


def relayout(case, seed):
    """The same state with other dim orders and units (a metamorphic twin)."""
    rng = np.random.RandomState(seed)
    state = {}
    for q in case['inputs']:
        import sympl
        v = B.values(q['seed'], [case['lens'][d] for d in q['dims']], q.get('dtype', 'float64'))
        perm = rng.permutation(len(q['dims']))
        units = sorted(B.FAMILIES[B.UNIT_FAMILY[q['units']]])
        new_units = units[rng.randint(len(units))]
        state[q['name']] = sympl.DataArray(
            B.convert(v, q['units'], new_units).transpose(perm), dims=[q['dims'][i] for i in perm],
            attrs={'units': new_units})
    names = list(state)
    rng.shuffle(names)
    out = {'time': B.make_time(case['time'])}
    out.update((n, state[n]) for n in names)
    return out


def check_relayout(case, cov):
    component = C.make(case)
    a = B.call(component, case['kind'], C.make_state(case), C.timestep(case))
    b = B.call(component, case['kind'], relayout(case, case['twin']), C.timestep(case))
    nt = out_features(case, cov)
    cov.nontrivial(nt)
    for g in case['groups']:
        if set(a[g]) != set(b[g]):
            fail('outputs {} became {} when the state was laid out differently', sorted(a[g]), sorted(b[g]))
        for o in case['groups'][g]:
            dims, want, scale = C.expected(case, o, C.state_values(case))
            va, vb = B.by_name(a[g][o['name']], dims), B.by_name(b[g][o['name']], dims)
            rtol = max(C.tolerance(case), 1e-8)
            if not B.close(va, vb, rtol=rtol, atol=rtol, scale=scale):
                fail('{} depends on the dimension order or units of the state: {} vs {}',
                     o['name'], va.tolist(), vb.tolist())


@st.composite
def twins(draw):
    case = draw(G.component_cases())
    case['twin'] = draw(G.seeds)
    return case


SUBS = [
    Sub('component', G.component_cases, check_component, 4800, 50000),
    Sub('roundtrip', roundtrips, check_roundtrip, 3600, 40000),
    Sub('relayout', twins, check_relayout, 3000, 30000),
    Sub('lists', G.component_cases, check_lists, 1200, 10000),
]
