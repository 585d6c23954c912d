"""Time stepping does not depend on how the same problem is written down."""
import copy
import datetime

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G, same, step as S
from ..core import Sub, fail

RULE = ('Metamorphic relations between two runs of a time stepper on random systems: components regrouped into '
        'nested composites and reordered, state written in other units and dim orders, columns stepped one by one or '
        'together, only the declared inputs present; and tracers stepped by components that use tracers against a '
        'numpy reference. Non-trivial: at least two steps, or more than one component/column/tracer.')

SCHEMES = [S.ab, S.leapfrog, S.ssprk]


def rtol_of(case):
    return 3e-4 if any(q['dtype'] == 'float32' for q in case['quants'].values()) else 1e-8


def initial(case, quants=None):
    state = {n: B.data_array(q, case['lens']) for n, q in case['quants'].items()}
    state['time'] = B.make_time(case['time'])
    return state


def march(case, stepper, state, steps, between=None):
    dt = datetime.timedelta(seconds=case['dt'])
    out = []
    for i in range(steps):
        diagnostics, new = stepper(state, dt)
        # copies: a later leapfrog step filters these arrays in place
        out.append((diagnostics, copy.deepcopy(state), copy.deepcopy(new)))
        state = dict(new)
        state['time'] = state['time'] + dt
        if between is not None:
            between(state, i)
    return out


def group(comps, shape, implicit):
    """Nest components according to a list of group sizes."""
    import sympl
    comps = list(comps)
    out = []
    for size in shape:
        part, comps = comps[:size], comps[size:]
        if len(part) == 1:
            out.append(part[0])
        elif part:
            cls = (sympl.ImplicitTendencyComponentComposite if implicit else sympl.TendencyComponentComposite)
            out.append(cls(*part))
    return out + comps


def check_regroup(case, cov):
    steps = case['steps']
    comps = S.make_components(case, {}, [])
    stepped = sorted({n for c in case['comps'] for n in c['tend']})
    implicit = any(c['kind'] == 'implicit' for c in case['comps'])
    # components regrouped within the two runs have to agree on wildcards, so
    # regrouping is by composites, which have no say in that
    base = march(case, S.make_stepper(case, comps), initial(case), steps)
    order = [comps[i] for i in case['order']]
    variant_stepper = S.make_stepper(case, group(order, case['shape'], implicit))
    state = initial(case)

    def rewrite(state, i):
        for n, units, dims in case['rewrite']:
            q = state[n]
            new = (q * (B.scale_offset(q.attrs['units'])[0] / B.scale_offset(units)[0])).transpose(*dims)
            new.attrs = dict(q.attrs, units=units)
            state[n] = new
    rewrite(state, -1)
    variant = march(case, variant_stepper, state, steps, rewrite if case['again'] else None)
    rtol = rtol_of(case)
    scale = {n: 4 * S.amplitude(case, n) for n in case['quants']}
    for i, ((d1, cur1, new1), (d2, cur2, new2)) in enumerate(zip(base, variant)):
        if set(d1) != set(d2):
            fail('diagnostics are {} or {} depending on the grouping', sorted(d1), sorted(d2))
        if set(new1) != set(new2):
            fail('the new state has {} or {}', sorted(new1), sorted(new2))
        for n in case['quants']:
            for a, b, what in ((new1[n], new2[n], 'new state'), (cur1[n], cur2[n], 'input state after the step')):
                a, b = S.to_base(a, case['dims']), S.to_base(b, case['dims'])
                scale[n] = max(scale[n], B.top(a))
                if not B.close(b, a, rtol=rtol, atol=rtol * (1 + i), scale=scale[n]):
                    fail('step {}: {} in the {} is {} or {} depending on how the problem is written', i, n, what,
                         a.tolist(), b.tolist())
        for n in d1:
            if n.startswith('diag_'):
                a, b = B.by_name(d1[n], case['dims']), B.by_name(d2[n], case['dims'])
                if not B.close(b, a, rtol=max(rtol, 1e-7), atol=max(rtol, 1e-7), scale=100.):
                    fail('step {}: diagnostic {} is {} or {}', i, n, a.tolist(), b.tolist())
    cov.label(case['scheme']['s'], 'components: {}'.format(len(comps)))
    cov.nontrivial(steps > 1 and (len(comps) > 1 or bool(case['rewrite'])))


@st.composite
def regroup_cases(draw):
    case = draw(S.cases(SCHEMES, dtypes=('float64', 'float64', 'float32'), max_runs=1, max_ops=2))
    n = len(case['comps'])
    case['order'] = list(draw(G.permuted(list(range(n)))))
    case['shape'] = draw(st.lists(st.integers(1, 3), min_size=0, max_size=2))
    case['rewrite'] = [[m, draw(st.sampled_from(sorted(B.LINEAR[case['quants'][m]['fam']]))),
                        list(draw(G.permuted(case['dims'])))] for m in draw(G.subset(sorted(case['quants'])))]
    case['steps'] = draw(st.integers(1, 5))
    case['again'] = draw(st.booleans())
    return case


def check_declared(case, cov):
    """The declared inputs suffice, and are needed; the outputs are as declared."""
    import sympl
    comps = S.make_components(case, {}, [])
    stepper = S.make_stepper(case, comps)
    stepped = {n for c in case['comps'] for n in c['tend']}
    needed = stepped | {n for c in case['comps'] for n in c['inputs']}
    if set(stepper.input_properties) != needed:
        fail('input_properties has {} where {} are used', sorted(stepper.input_properties), sorted(needed))
    if set(stepper.output_properties) != stepped:
        fail('output_properties has {} where {} are stepped', sorted(stepper.output_properties), sorted(stepped))
    full = initial(case)
    state = {n: full[n] for n in stepper.input_properties}
    state['time'] = full['time']
    dt = datetime.timedelta(seconds=case['dt'])
    diagnostics, new = stepper(dict(state), dt)
    if set(new) != set(state):
        fail('the new state has {} where the state has {}', sorted(new), sorted(state))
    if set(diagnostics) != set(stepper.diagnostic_properties):
        fail('diagnostics {} are not as declared: {}', sorted(diagnostics), sorted(stepper.diagnostic_properties))
    for n in stepped:
        for props in (stepper.input_properties, stepper.output_properties):
            exps = B.parse_units(case['quants'][n]['units'])[1]
            try:
                got = B.parse_units(props[n]['units'])[1]
            except KeyError:
                fail('{} is declared with units {}', n, props[n]['units'])
            if got != exps:
                fail('{} is declared with units {} but has units like {}', n, props[n]['units'],
                     case['quants'][n]['units'])
    cov.label(case['scheme']['s'])
    cov.nontrivial(len(needed) > 1)


@st.composite
def declared_cases(draw):
    return draw(S.cases(SCHEMES, max_runs=1, max_ops=2))


def check_columns(case, cov):
    """Columns stepped together are the columns stepped one by one."""
    n = case['ncol']
    comps = S.make_components(case, {}, [])
    together = {}
    for m, q in case['quants'].items():
        dims = list(q['dims'])
        dims.insert(case['pos'] % (len(dims) + 1), 'col')
        together[m] = B.data_array(dict(q, dims=dims), dict(case['lens'], col=n))
    together['time'] = B.make_time(case['time'])
    columns = []
    for i in range(n):
        one = {m: together[m].isel(col=i).copy(deep=True) for m in case['quants']}
        one['time'] = together['time']
        columns.append(march(case, S.make_stepper(case, comps), one, case['steps']))
    alltogether = march(case, S.make_stepper(case, comps), together, case['steps'])
    rtol = rtol_of(case)
    for k in range(case['steps']):
        for m in case['quants']:
            scale = 4 * S.amplitude(case, m)
            for i in range(n):
                a = S.to_base(alltogether[k][2][m].isel(col=i), case['dims'])
                b = S.to_base(columns[i][k][2][m], case['dims'])
                if not B.close(a, b, rtol=rtol, atol=rtol, scale=max(scale, B.top(b))):
                    fail('step {}: column {} of {} is {} stepped alone and {} stepped with {} others', k, i, m,
                         b.tolist(), a.tolist(), n - 1)
    cov.label(case['scheme']['s'])
    cov.nontrivial(n > 1)


@st.composite
def column_cases(draw):
    case = draw(S.cases(SCHEMES, dtypes=('float64', 'float64', 'float32'), max_runs=1, max_ops=2))
    # every component must leave a wildcard, and have an input that shows it
    for c in case['comps']:
        for q in list(c['inputs'].values()):
            if '*' not in q['pdims']:
                q['pdims'] = q['pdims'] + ['*']
        for t in list(c['tend'].values()) + list(c['diag'].values()):
            if '*' not in t['dims']:
                t['dims'] = ['*'] + t['dims']
        if not c['inputs']:
            m = sorted(c['tend'])[0]
            c['inputs'][m] = {'pdims': ['*'] + [d for d in c['tend'][m]['dims'] if d != '*'],
                              'punits': case['quants'][m]['units']}
            for t in list(c['tend'].values()) + list(c['diag'].values()):
                t['cs'] = {m: 0.5}
    case['ncol'] = draw(st.integers(1, 3))
    case['pos'] = draw(st.integers(0, 3))
    case['steps'] = draw(st.integers(1, 4))
    return case


def check_tracers(case, cov):
    import sympl
    for name, units in case['registered']:
        sympl.register_tracer(name, units)
    dims = case['dims']
    lens = case['lens']
    units = dict(case['registered'])
    units.update(dict(case['prepend']))
    names = [n for n, _ in case['prepend']]
    names += [n for n, _ in case['registered'] if n not in names]
    tunit = case['tunit']
    axis = case['axis'] % 2
    seen = []
    body = {'uses_tracers': True, 'tracer_dims': ['tracer', '*'] if axis == 0 else ['*', 'tracer'],
            'prepend_tracers': [tuple(p) for p in case['prepend']],
            'tracer_tendency_time_unit': '{}^-1'.format(tunit)}

    def func(raw, timestep):
        seen.append(raw['tracers'].shape)
        q = np.moveaxis(raw['tracers'], axis, 0)
        rate = case['rate'] / case['dt'] * (raw['T'][None] / 100. - q + np.arange(len(names))[:, None])
        return {'tendency': {'T': raw['T'] * 0. + 1. / case['dt'],
                             'tracers': np.moveaxis(rate * B.TIME_FACTORS[tunit], 0, axis)}}
    comp = B.make_class('tendency', {'input': {'T': {'dims': ['*'], 'units': 'K'}},
                                     'tendency': {'T': {'units': 'K s^-1'}}}, func, extra=body)()
    state = {'T': B.data_array({'dims': case['Tdims'], 'units': 'K', 'seed': case['seed']}, lens)}
    for n in names:
        state[n] = B.data_array(case['state'][n], lens)
    state['time'] = B.make_time(case['time'])
    stepper = S.make_stepper(case, [comp])
    dt = datetime.timedelta(seconds=case['dt'])
    T = np.asarray(B.by_name(state['T'], dims), dtype=float)
    vals = {n: np.asarray(B.by_name(state[n], dims), dtype=float) *
            B.parse_units(case['state'][n]['units'])[0] / B.parse_units(units[n])[0] for n in names}
    # one Euler step, which is what every scheme but Runge-Kutta starts with
    _, new = stepper(state, dt)
    if set(new) != set(state):
        fail('the new state has {} where the state has {}', sorted(new), sorted(state))
    shape = [int(np.prod([lens[d] for d in dims]))]
    shape.insert(axis, len(names))
    if any(s != tuple(shape) for s in seen):
        fail('the tracer array has shape {} where {} was expected', seen, shape)
    for k, n in enumerate(names):
        r = case['rate']
        if not same_units(new[n], case['state'][n]['units']):
            fail('tracer {} has units {} after a step', n, new[n].attrs.get('units'))
        got = np.asarray(B.by_name(new[n], dims), dtype=float) * \
            B.parse_units(new[n].attrs['units'])[0] / B.parse_units(units[n])[0]
        want = vals[n] + r * (T / 100. - vals[n] + k)
        if not B.close(got, want, rtol=1e-8, atol=1e-8):
            fail('tracer {} (index {}) is {} after a step, expected {}', n, k, got.tolist(), want.tolist())
    cov.label(case['scheme']['s'], 'tracers: {}'.format(len(names)))
    cov.nontrivial(len(names) > 1)


def same_units(da, units):
    try:
        return B.parse_units(da.attrs['units']) == B.parse_units(units)
    except KeyError:
        return False


TRACERS = ['vapor', 'cloud', 'ozone', 'dust']


@st.composite
def tracer_cases(draw):
    dims = sorted(draw(G.subset(['x', 'y', 'z'])))
    lens = {d: draw(st.integers(1, 3)) for d in ['x', 'y', 'z']}
    u = st.sampled_from(['kg/kg', 'g/kg', 'm', 'km', 'kg m^-3', 'g m^-3'])
    fam = [['kg/kg', 'g/kg'], ['m', 'km', 'cm'], ['kg m^-3', 'g m^-3']]
    registered = [[n, draw(u)] for n in draw(G.subset(TRACERS))]
    prepend = [[n, draw(u)] for n in draw(G.subset(TRACERS, min_size=0 if registered else 1, max_size=2))]
    have = dict(registered)
    prepend = [[n, have.get(n, un)] for n, un in prepend]
    state = {}
    for n, un in registered + prepend:
        f = [x for x in fam if un in x][0]
        state[n] = {'dims': list(draw(G.permuted(dims))), 'units': draw(st.sampled_from(f)), 'seed': draw(G.finite_or_nan)}
    scheme = draw(st.sampled_from([{'s': 'ab', 'order': None}, {'s': 'leapfrog', 'nu': None, 'alpha': None}]))
    return {'dims': dims, 'lens': lens, 'registered': registered, 'prepend': prepend, 'state': state,
            'scheme': scheme, 'Tdims': list(draw(G.permuted(dims))), 'seed': draw(G.finite_or_nan), 'dt': draw(G.timesteps),
            'time': draw(G.times()), 'tid': False, 'name': None, 'tunit': draw(st.sampled_from(['s', 'hr', 'day'])),
            'rate': draw(st.sampled_from([0.5, -0.25, 1.])), 'axis': draw(st.integers(0, 1))}


SUBS = [
    Sub('regroup', regroup_cases, check_regroup, 910, 12000),
    Sub('declared', declared_cases, check_declared, 650, 8000),
    Sub('columns', column_cases, check_columns, 650, 8000),
    Sub('tracers', tracer_cases, check_tracers, 780, 12000),
    Sub('same_state', lambda: same.cases(['ab', 'leapfrog', 'ssprk']), same.check, 520, 6000),
]
