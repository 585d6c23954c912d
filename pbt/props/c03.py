"""Invalid states are rejected before the component computes anything."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('A random valid state for a random component (all types) is made invalid in exactly one way (missing '
        'quantity, missing time, missing units, units of another dimension, unknown units, unexpected dimension, '
        'conflicting dimension lengths), then passed directly or through a composite, time stepper or wrapper. '
        'Non-trivial: every case in which the chosen corruption was applicable.')

CORRUPTIONS = ['missing', 'no_time', 'no_units', 'bad_units', 'unknown_units', 'extra_dim', 'length']
VEHICLES = {
    'tendency': ['direct', 'composite', 'implicit_composite', 'ab', 'ssprk', 'leapfrog', 'update', 'scaling'],
    'implicit': ['direct', 'implicit_composite', 'ab', 'update', 'scaling'],
    'diagnostic': ['direct', 'diagnostic_composite', 'update', 'scaling'],
    'stepper': ['direct', 'update', 'scaling', 'differencing'],
}


def wrap(component, vehicle, case):
    """Returns a callable taking the state."""
    import sympl
    dt = C.timestep(case)
    kind = case['kind']
    timed = kind in ('implicit', 'stepper')
    if vehicle == 'direct':
        return lambda s: component(s, dt) if timed else component(s)
    if vehicle == 'composite':
        return sympl.TendencyComponentComposite(component)
    if vehicle == 'implicit_composite':
        c = sympl.ImplicitTendencyComponentComposite(component)
        return lambda s: c(s, dt)
    if vehicle == 'diagnostic_composite':
        return sympl.DiagnosticComponentComposite(component)
    if vehicle in ('ab', 'ssprk', 'leapfrog'):
        c = {'ab': sympl.AdamsBashforth, 'ssprk': sympl.SSPRungeKutta, 'leapfrog': sympl.Leapfrog}[vehicle](component)
        return lambda s: c(s, dt)
    if vehicle == 'update':
        import datetime
        c = sympl.UpdateFrequencyWrapper(component, datetime.timedelta(hours=1))
        return lambda s: c(s, timestep=dt) if timed else c(s)
    if vehicle == 'scaling':
        c = sympl.ScalingWrapper(component, input_scale_factors={q['name']: 2. for q in case['inputs']})
        return lambda s: c(s, dt) if timed else c(s)
    c = sympl.TimeDifferencingWrapper(component)
    return lambda s: c(s, dt)


def corrupt(case, state, how, k):
    """Make the state invalid; returns False if not applicable."""
    import sympl
    ins = case['inputs']
    q = ins[k % len(ins)]
    name = q['name']
    old = state[name]
    if how == 'missing':
        del state[name]
    elif how == 'no_time':
        del state['time']
    elif how == 'no_units':
        state[name] = sympl.DataArray(old.values, dims=old.dims)
    elif how == 'bad_units':
        fams = sorted(f for f in B.FAMILIES if f != B.UNIT_FAMILY[q['units']])
        if how == 'bad_units' and q['punits'] in B.FAMILIES['ratio'] and k % 3 == 0:
            fams = ['temperature']
        units = sorted(B.FAMILIES[fams[k % len(fams)]])
        state[name] = sympl.DataArray(old.values, dims=old.dims, attrs={'units': units[k % len(units)]})
    elif how == 'unknown_units':
        state[name] = sympl.DataArray(old.values, dims=old.dims, attrs={'units': 'florps'})
    elif how == 'extra_dim':
        cands = [p for p in ins if '*' not in p['pdims']]
        if not cands:
            return False
        q = cands[k % len(cands)]
        old = state[q['name']]
        n = 1 + k % 3
        axis = k % (old.ndim + 1)
        state[q['name']] = sympl.DataArray(
            np.repeat(np.expand_dims(old.values, axis), n, axis=axis),
            dims=list(old.dims[:axis]) + ['unexpected'] + list(old.dims[axis:]), attrs=old.attrs)
    elif how == 'length':
        pairs = [(a, d) for a in ins for d in a['dims']
                 if any(b is not a and d in b['dims'] for b in ins)]
        if not pairs:
            return False
        q, d = pairs[k % len(pairs)]
        lens = dict(case['lens'])
        lens[d] = lens[d] + 1 + k % 2 if (k % 4 or lens[d] <= 1) else lens[d] - 1
        state[q['name']] = B.data_array(q, lens)
    return True


def check(case, cov):
    import sympl
    rec = B.Recorder()
    component = C.make(case, rec)
    vehicle = VEHICLES[case['kind']][case['vehicle'] % len(VEHICLES[case['kind']])]
    state = C.make_state(case)
    how = case['how']
    if not corrupt(case, state, how, case['k']):
        how = 'missing'
        corrupt(case, state, how, case['k'])
    try:
        run = wrap(component, vehicle, case)
    except sympl.InvalidPropertyDictError:
        if vehicle in ('direct', 'update', 'scaling'):
            raise
        return  # the composite cannot be built; says nothing about states
    if how == 'unknown_units':
        types = (Exception,)
    else:
        types = (sympl.InvalidStateError, KeyError)
    before = B.snapshot(state)
    B.expect_raises(types, lambda: run(state), 'state with {} passed to {} ({})'.format(how, case['kind'], vehicle))
    if rec.calls:
        fail('array_call ran on an invalid state ({})', how)
    if not B.same_snapshot(before, B.snapshot(state)):
        fail('an invalid state was modified')
    cov.label(how, vehicle, case['kind'])
    cov.nontrivial()


def check_function(case, cov):
    import sympl
    state = C.make_state(case)
    how = case['how']
    if how == 'no_time' or not corrupt(case, state, how, case['k']):
        how = 'missing'
        if not set(state) >= {q['name'] for q in case['inputs']}:
            return
        corrupt(case, state, how, case['k'])
    types = (Exception,) if how == 'unknown_units' else (sympl.InvalidStateError, KeyError)
    B.expect_raises(types, lambda: sympl.get_numpy_arrays_with_properties(state, C.in_props(case)),
                    'get_numpy_arrays_with_properties on a state with ' + how)
    cov.label(how)
    cov.nontrivial()


@st.composite
def cases(draw, with_vehicle=True):
    linear = with_vehicle and draw(st.booleans())
    case = draw(G.component_cases(linear=linear))
    case['how'] = draw(st.sampled_from(CORRUPTIONS))
    case['k'] = draw(st.integers(0, 30))
    if with_vehicle:
        case['vehicle'] = draw(st.integers(0, 7))
    return case


SUBS = [
    Sub('component', cases, check, 8000, 60000),
    Sub('function', lambda: cases(False), check_function, 4000, 30000),
]
