"""The constant and relaxation components do what their names say."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('ConstantTendencyComponent and ConstantDiagnosticComponent with random quantities called repeatedly with '
        'random states; RelaxationTendencyComponent for quantities, equilibria and timescales with random dims and '
        'units, compared with (equilibrium - value)/timescale by dimension name. Non-trivial: at least one quantity '
        'with a dim.')


def make_dict(spec, lens):
    return {n: B.data_array(q, lens) for n, q in spec.items()}


def compare(got, want, what):
    if set(got) != set(want):
        fail('{}: got {} where {} was given', what, sorted(got), sorted(want))
    for n, q in want.items():
        r = got[n]
        if list(r.dims) != list(q.dims) or r.dtype.newbyteorder('=') != q.dtype.newbyteorder('=') or \
                not np.array_equal(r.values, q.values, equal_nan=True) or \
                r.attrs.get('units') != q.attrs['units']:
            fail('{}: {} is {} where {} was given', what, n, r, q)


def check_constant(case, cov):
    import sympl
    lens = case['lens']
    tend, diag = make_dict(case['tend'], lens), make_dict(case['diag'], lens)
    t_arg, d_arg = dict(tend), dict(diag)
    ref_t, ref_d = make_dict(case['tend'], lens), make_dict(case['diag'], lens)
    if case['kind'] == 'tendency':
        kw = {'tendencies_in_diagnostics': True} if case['tid'] else {}
        comp = sympl.ConstantTendencyComponent(t_arg, d_arg, **kw) if case['diag'] or case['tid'] else \
            sympl.ConstantTendencyComponent(t_arg)
        if comp.name != 'ConstantTendencyComponent' and case['tid']:
            fail('the name of the component is {}', comp.name)
    else:
        comp = sympl.ConstantDiagnosticComponent(d_arg)
    t_arg['added_later'] = d_arg['added_later'] = B.data_array({'dims': [], 'units': 'm', 'seed': 0}, {})
    for k in range(case['calls']):
        state = make_dict(case['state'], lens)
        state['time'] = B.make_time(dict(case['time'], **({'s': k * 100} if case['time']['k'] == 'td' else {})))
        snap = B.snapshot(state)
        if case['kind'] == 'tendency':
            t, d = comp(state)
            compare(t, ref_t, 'tendencies')
            if case['tid']:
                names = {n + '_tendency_from_ConstantTendencyComponent': n for n in ref_t}
                want = dict(ref_d)
                for long_name, n in names.items():
                    want[long_name] = ref_t[n]
                compare(d, want, 'diagnostics')
            else:
                compare(d, ref_d, 'diagnostics')
        else:
            compare(comp(state), ref_d, 'diagnostics')
        if not B.same_snapshot(snap, B.snapshot(state)):
            fail('the state changed')
    if case['kind'] == 'tendency' and case['tid']:
        ref_d = want
    declared = [(comp.diagnostic_properties, ref_d)] + (
        [(comp.tendency_properties, ref_t)] if case['kind'] == 'tendency' else [])
    if comp.input_properties:
        fail('inputs are {}', comp.input_properties)
    for props, ref in declared:
        if set(props) != set(ref):
            fail('declared properties are {} where {} are returned', sorted(props), sorted(ref))
        for n, q in ref.items():
            if n not in props or list(props[n]['dims']) != list(q.dims) or props[n]['units'] != q.attrs['units']:
                fail('declared properties {} of {} do not describe {}', props.get(n), n, q)
    cov.label(case['kind'])
    cov.nontrivial(any(q['dims'] for q in list(case['tend'].values()) + list(case['diag'].values())))


@st.composite
def quantity_dicts(draw, names, per_time=False):
    out = {}
    for n in draw(G.subset(names)):
        units = draw(st.sampled_from(['m', 'kg/kg', 'W m^-2', '', 'degK']))
        out[n] = {'dims': draw(st.one_of(G.subset(['x', 'y', 'z']), G.permuted(['x', 'y', 'z']))), 'seed': draw(G.seeds),
                  'dtype': draw(st.sampled_from(['float64', 'float32', 'int64'])),
                  'units': B.per_time(units, draw(st.sampled_from(['s', 'day']))) if per_time else units}
    return out


@st.composite
def constant_cases(draw):
    return {'kind': draw(st.sampled_from(['tendency', 'diagnostic'])), 'lens': {d: draw(G.lengths) for d in 'xyz'},
            'tend': draw(quantity_dicts(['a', 'b', 'c'], per_time=True)),
            'diag': draw(quantity_dicts(['c', 'd', 'e'])), 'state': draw(quantity_dicts(['a', 'c', 'f'])),
            'time': draw(G.times()), 'calls': draw(st.integers(1, 3)), 'tid': draw(st.integers(0, 3)) == 0}


def check_relaxation(case, cov):
    import sympl
    lens = case['lens']
    name = case['name']
    names = {'value': name, 'eq': 'equilibrium_' + name, 'tau': name + '_relaxation_timescale'}
    kw = {'tendencies_in_diagnostics': True, 'name': case['label']} if case['tid'] else {}
    extra = {name + '_tendency_from_' + (case['label'] or 'RelaxationTendencyComponent')} if case['tid'] else set()
    comp = sympl.RelaxationTendencyComponent(name, case['units'], **kw)
    if set(comp.input_properties) != set(names.values()) or set(comp.tendency_properties) != {name} or \
            set(comp.diagnostic_properties) != extra:
        fail('properties are {} {} {}', comp.input_properties, comp.tendency_properties, comp.diagnostic_properties)
    state = {names[k]: B.data_array(q, lens) for k, q in case['q'].items()}
    tau = state[names['tau']] = B.writable(state[names['tau']])
    tau.values[...] += np.where(tau.values < 0, -1, 1).astype(tau.dtype)  # not zero
    state['time'] = B.make_time(case['time'])
    snap = B.snapshot(state)
    gone = case['gone']
    if gone:
        partial = {k: v for k, v in state.items() if k != names[gone]}
        B.expect_raises((sympl.InvalidStateError, KeyError), lambda: comp(partial), 'a state without ' + names[gone])
    earlier = []
    for r in range(case['calls']):
        if r:
            new = {names[k]: B.data_array(dict(q, seed=q['seed'] // 10 ** 6 * 10 ** 6 + (q['seed'] + 17 * r) % 10 ** 6), lens)
                   for k, q in case['q'].items()}
            tau = new[names['tau']] = B.writable(new[names['tau']])
            tau.values[...] += np.where(tau.values < 0, -1, 1).astype(tau.dtype)
            new['time'] = state['time']
            state = B.put(state, new) if case['put'] else new
            snap = B.snapshot(state)
        tendencies, diagnostics = comp(state)
        if not B.same_snapshot(snap, B.snapshot(state)):
            fail('the state changed')
        if set(tendencies) != {name} or set(diagnostics) != extra:
            fail('output is {} {}', tendencies, diagnostics)
        for n in extra:
            if not B.same_snapshot(B.snapshot(diagnostics[n]), B.snapshot(tendencies[name])):
                fail('the tendency in the diagnostics is {} but the tendency is {}', diagnostics[n], tendencies[name])
            if comp.diagnostic_properties[n] != comp.tendency_properties[name]:
                fail('the tendency in the diagnostics is declared as {}', comp.diagnostic_properties[n])
        dims = sorted({d for q in case['q'].values() for d in q['dims']})

        def si(k):
            q = case['q'][k]
            v = np.asarray(state[names[k]].values, dtype=float) * B.scale_offset(q['units'])[0] + \
                B.scale_offset(q['units'])[1]
            return B.broadcast(v, q['dims'], dims, lens)
        want = (si('eq') - si('value')) / si('tau')
        got = tendencies[name]
        f, e = B.parse_units(got.attrs['units'])
        if e != B.parse_units(B.per_time(case['units']))[1]:
            fail('a tendency of something in {} has units {}', case['units'], got.attrs['units'])
        scale = float(B.top((np.abs(si('eq')) + np.abs(si('value'))) / np.abs(si('tau')))) + 1e-300
        if not B.close(np.asarray(B.by_name(got, dims), dtype=float) * f, want, rtol=1e-5 if case['f32'] else 1e-9,
                       atol=1e-6 if case['f32'] else 1e-9, scale=scale):
            fail('the tendency is {} {} where {} (SI) was expected', got.values.tolist(), got.attrs['units'],
                 want.tolist())
        earlier.append((tendencies, B.snapshot(tendencies)))
    for result, before in earlier:
        if not B.same_snapshot(before, B.snapshot(result)):
            fail('the result of an earlier call changed from {} to {}', before, result)
    cov.label('{} dims'.format(len(dims)))
    cov.nontrivial(bool(dims))


@st.composite
def relaxation_cases(draw):
    fam = draw(st.sampled_from(['length', 'pressure', 'ratio', 'temperature', 'speed']))
    inner = draw(st.sampled_from(sorted(u for u in B.LINEAR[fam] if u)))
    lens = {d: draw(G.lengths) for d in 'xyz'}
    q = {}
    dtype = draw(st.sampled_from(['float64', 'float64', 'float32', 'int64']))
    for k in ('value', 'eq', 'tau'):
        table = B.LINEAR['duration'] if k == 'tau' else B.FAMILIES[fam]
        q[k] = {'dims': draw(G.subset(['x', 'y', 'z'])), 'units': draw(st.sampled_from(sorted(table))),
                'seed': draw(G.seeds), 'dtype': dtype}
    return {'name': draw(st.sampled_from(['a', 'air_temperature'])), 'units': inner, 'lens': lens, 'q': q,
            'time': draw(G.times()), 'gone': draw(st.sampled_from([None, None, 'value', 'eq', 'tau'])),
            'f32': dtype == 'float32', 'tid': draw(st.integers(0, 3)) == 0,
            'label': draw(st.sampled_from([None, 'newtonian'])), 'calls': draw(st.sampled_from([1, 2, 3])),
            'put': draw(st.booleans())}


SUBS = [
    Sub('constant', constant_cases, check_constant, 3600, 20000),
    Sub('relaxation', relaxation_cases, check_relaxation, 3600, 20000),
]
