"""TimeDifferencingWrapper gives the rate of change its stepper makes."""
import datetime

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random stepper components (wildcards, aliases, output units and dims that differ from the input and the '
        'state, tracers) behind TimeDifferencingWrapper, and time steppers behind it; the tendency must be '
        '(new - old) / timestep by dimension name in consistent units and the diagnostics those of the stepper. '
        'Non-trivial: at least one output.')


def check_difference(case, cov):
    import sympl
    inner = C.make(case)
    wrapped = sympl.TimeDifferencingWrapper(C.make(case))
    state = C.make_state(case)
    lens = C.dim_lens(case)
    wild = C.wild_dims(case)
    quantities = {q['name']: q for q in case['inputs']}
    for o in case['groups']['output']:  # outputs that are not inputs, shaped as the component gives them
        own = case['own'].get(o['name'])
        if own is not None:
            dims = B.expand(o['dims'], wild)
            k = own['perm'] % len(dims) if dims else 0
            quantities[o['name']] = dict(own, dims=dims[k:] + dims[:k])
            state[o['name']] = B.data_array(quantities[o['name']], lens)
    dt = C.timestep(case)
    outs = {o['name']: o for o in case['groups']['output']}
    if case['missing'] and case['own']:
        gone = sorted(case['own'])[0]
        partial = {k: v for k, v in state.items() if k != gone}
        B.expect_raises((RuntimeError, KeyError, sympl.InvalidStateError), lambda: wrapped(partial, dt),
                        'a state without {} which the stepper outputs'.format(gone))
        cov.label('missing quantity')
        cov.nontrivial()
        return
    snap = B.snapshot(state)
    for _ in range(case['calls']):
        tendencies, diagnostics = wrapped(state, dt)
    if not B.same_snapshot(snap, B.snapshot(state)):
        fail('the state changed')
    want_diag, new_state = inner(state, dt)
    if not B.same_snapshot(B.snapshot(want_diag), B.snapshot(diagnostics)):
        fail('diagnostics are {} but the stepper gives {}', diagnostics, want_diag)
    if set(tendencies) != set(outs) or set(wrapped.tendency_properties) != set(outs):
        fail('tendencies are {}, declared {}, for a stepper with outputs {}', sorted(tendencies),
             sorted(wrapped.tendency_properties), sorted(outs))
    if wrapped.input_properties != inner.input_properties or wrapped.diagnostic_properties != inner.diagnostic_properties:
        fail('properties of the wrapper differ from those of the stepper')
    values = C.state_values(case)
    rtol = C.tolerance(case)
    for n, o in outs.items():
        dims, new, scale = C.expected(case, o, values)
        q = quantities[n]
        f_out = B.scale_offset(o['units'])[0]
        old = np.asarray(state[n].values, dtype=float) * B.scale_offset(q['units'])[0]
        old = B.broadcast(old, q['dims'], dims, lens)
        want = (new * f_out - old) / case['dt']
        for source in (tendencies[n].attrs.get('units'), wrapped.tendency_properties[n]['units']):
            try:
                f, e = B.parse_units(source)
            except KeyError:
                fail('the tendency of {} has units {}', n, source)
            if e != B.parse_units(B.per_time(o['units']))[1]:
                fail('the tendency of {} in {} has units {}', n, o['units'], source)
        f, _ = B.parse_units(tendencies[n].attrs['units'])
        got = np.asarray(B.by_name(tendencies[n], dims), dtype=float) * f
        size = (scale * f_out + B.top(old)) / abs(case['dt'])
        if not B.close(got, want, rtol=rtol, atol=rtol, scale=size):
            fail('the tendency of {} is {} where {} was expected (SI)', n, got.tolist(), want.tolist())
    cov.label('aliases' if any('alias' in o for o in outs.values()) else 'no aliases',
              'own state' if case['own'] else 'inputs only')
    cov.nontrivial(bool(outs))


@st.composite
def difference_cases(draw):
    case = draw(G.component_cases(kinds=['stepper'], linear=True))
    case['own'] = {}
    have = {q['name']: q for q in case['inputs']}
    for o in case['groups']['output']:
        if o['name'] not in have:
            fam = B.UNIT_FAMILY[o['units']]
            case['own'][o['name']] = {'units': draw(st.sampled_from(sorted(B.LINEAR[fam]))),
                                      'seed': draw(G.seeds), 'perm': draw(st.integers(0, 23))}
        else:  # dims at least those of the input, so that the difference is defined by name
            q = have[o['name']]
            if o['dims'] is not None and not set(q['pdims']) <= set(o['dims']):
                o['dims'] = list(draw(G.permuted(q['pdims'])))
                o.pop('newlen', None)
    case['missing'] = draw(st.integers(0, 5)) == 0
    case['calls'] = draw(st.integers(1, 2))
    return case


def check_timestepper(case, cov):
    """Behind the wrapper an Euler stepper gives back the tendencies it was built from."""
    import sympl
    lens = case['lens']
    tend = {n: B.data_array(q, lens) for n, q in case['tend'].items()}
    stepper = sympl.AdamsBashforth(sympl.ConstantTendencyComponent(tend), order=1)
    wrapped = sympl.TimeDifferencingWrapper(stepper)
    state = {n: B.data_array(q, lens) for n, q in case['state'].items()}
    state['time'] = B.make_time(case['time'])
    dt = datetime.timedelta(seconds=case['dt'])
    got, _ = wrapped(state, dt)
    if set(got) != set(tend):
        fail('tendencies are {} where {} were expected', sorted(got), sorted(tend))
    for n in tend:
        dims = sorted(tend[n].dims)
        declared = wrapped.tendency_properties[n]['units']
        if B.parse_units(declared) != B.parse_units(got[n].attrs['units']):
            fail('the tendency of {} is declared in {} and given in {}', n, declared, got[n].attrs['units'])
        f, e = B.parse_units(got[n].attrs['units'])
        f0, e0 = B.parse_units(tend[n].attrs['units'])
        if e != e0:
            fail('the tendency of {} has units {}', n, got[n].attrs['units'])
        a = np.asarray(B.by_name(got[n], dims), dtype=float) * f
        # (NaN or infinite where the state is)
        b = np.asarray(B.by_name(tend[n], dims), dtype=float) * f0 + 0. * B.by_name(state[n], dims)
        size = B.top(b) + B.top(state[n].values) * \
            B.parse_units(state[n].attrs['units'])[0] / abs(case['dt'])
        if not B.close(a, b, scale=size):
            fail('the tendency of {} is {} where {} was expected', n, a.tolist(), b.tolist())
    cov.nontrivial(bool(tend))


@st.composite
def timestepper_cases(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y', 'z']}
    state, tend = {}, {}
    for n in draw(G.subset(['a', 'b', 'c'], min_size=1)):
        fam = draw(st.sampled_from(['length', 'mass', 'ratio', 'pressure']))
        dims = draw(G.subset(['x', 'y', 'z']))
        state[n] = {'dims': dims, 'units': draw(st.sampled_from(sorted(B.LINEAR[fam]))), 'seed': draw(G.seeds)}
        if draw(st.integers(0, 3)):
            tend[n] = {'dims': list(draw(G.permuted(dims))), 'seed': draw(G.seeds),
                       'units': B.per_time(draw(st.sampled_from(sorted(B.LINEAR[fam]))),
                                           draw(st.sampled_from(['s', 'hr'])))}
    return {'lens': lens, 'state': state, 'tend': tend, 'time': draw(G.times()), 'dt': draw(G.timesteps)}


def check_tracers(case, cov):
    import sympl
    for n, u, how in case['tracers']:
        if how != 'prepend':  # known to the component alone
            sympl.register_tracer(n, u)
    prepend = [(n, u) for n, u, how in case['tracers'] if how != 'register']
    names = [n for n, _ in prepend] + [n for n, _, how in case['tracers'] if how == 'register']
    units = {n: u for n, u, _ in case['tracers']}

    def func(raw, timestep):
        out = raw['tracers'] * 1.
        for k in range(len(names)):
            out[k] += (k + 1) * timestep.total_seconds()
        return {'output': {'tracers': out}}
    extra = {'uses_tracers': True, 'tracer_dims': ['tracer', '*']}
    if prepend:
        extra['prepend_tracers'] = prepend
    comp = B.make_class('stepper', {}, func, extra=extra)()
    state = {n: B.data_array({'dims': case['dims'], 'units': u, 'seed': k}, case['lens'])
             for k, (n, u, _) in enumerate(case['tracers'])}
    state['time'] = B.make_time(case['time'])
    got, _ = sympl.TimeDifferencingWrapper(comp)(state, datetime.timedelta(seconds=case['dt']))
    if set(got) != set(names):
        fail('tendencies are {} where tracers {} changed', sorted(got), names)
    for k, n in enumerate(names):
        u = units[n]
        f, e = B.parse_units(got[n].attrs['units'])
        f0, e0 = B.parse_units(B.per_time(u))
        if e != e0 or not B.close(got[n].values * f, np.full(got[n].shape, (k + 1.) * f0), rtol=1e-6,
                                  scale=f0 * (1 + 200. / abs(case['dt']))):
            fail('the tendency of tracer {} is {}', n, got[n])
    cov.nontrivial(len(names) > 1)


@st.composite
def tracer_cases(draw):
    return {'tracers': [[n, draw(st.sampled_from(['kg/kg', 'g/kg', 'm'])),
                         draw(st.sampled_from(['register', 'register', 'prepend', 'both']))]
                        for n in draw(G.subset(['q', 'r', 's'], min_size=1))],
            'dims': draw(G.subset(['x', 'y'])), 'lens': {d: draw(G.lengths) for d in ['x', 'y']},
            'time': draw(G.times()), 'dt': draw(G.timesteps)}


SUBS = [
    Sub('difference', difference_cases, check_difference, 2400, 30000),
    Sub('timestepper', timestepper_cases, check_timestepper, 600, 6000),
    Sub('tracers', tracer_cases, check_tracers, 450, 3000),
]
