"""Calls do not modify their arguments, other components, or themselves."""
import datetime
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random well-behaved components (array_call does not write to its input) are called repeatedly, directly '
        'and through composites, time steppers, wrappers and monitors; several instances of one class are '
        'interleaved. Oracle: deep snapshots of the state, of declared properties and of arrays given at '
        'construction before and after, and the output of a fresh instance. Non-trivial: at least one output or '
        'more than one call/instance.')


def assert_same(before, obj, what):
    if not B.same_snapshot(before, B.snapshot(obj)):
        fail('{} changed: {} -> {}', what, before, B.snapshot(obj))


def outputs_equal(a, b):
    return B.same_snapshot(B.snapshot(a), B.snapshot(b))


def check_component(case, cov):
    props = C.properties(case)
    cls = B.make_class(case['kind'], props, lambda raw, dt: C.compute(case, raw, dt))
    comp = cls()
    state = C.make_state(case)
    before, props_before = B.snapshot(state), B.snapshot(props)
    ids = {k: id(v) for k, v in state.items()}
    first = B.snapshot(B.call(comp, case['kind'], state, C.timestep(case)))
    for _ in range(case['repeat']):
        again = B.snapshot(B.call(comp, case['kind'], state, C.timestep(case)))
        if not B.same_snapshot(first, again):
            fail('calling again with the same state gave {} instead of {}', again, first)
    result = B.call(comp, case['kind'], state, C.timestep(case))
    other = C.make_state(dict(case, inputs=[
        dict(q, seed=q['seed'] // 10 ** 6 * 10 ** 6 + (q['seed'] + 17) % 10 ** 6) for q in case['inputs']]))
    B.call(comp, case['kind'], other, C.timestep(case))
    assert_same(first, result, 'the result of a call after another one with another state')
    assert_same(before, state, 'the state passed to a component')
    if ids != {k: id(v) for k, v in state.items()}:
        fail('an object in the state was replaced by calling a component')
    assert_same(props_before, props, 'the declared properties')
    cov.label(case['kind'])
    cov.nontrivial(any(case['groups'].values()))


def check_instances(case, cov):
    """Instances of a class behave as if they were alone."""
    props = C.properties(case)
    make = lambda p: B.make_class(case['kind'], p, lambda raw, dt: C.compute(case, raw, dt))
    cls = make(props)
    props_before = B.snapshot(props)
    kind = case['kind']
    instances = []
    for flag, name in case['instances']:
        kwargs = {} if kind == 'diagnostic' else {'tendencies_in_diagnostics': flag, 'name': name}
        instances.append((cls(**kwargs), make(C.properties(case))(**kwargs)))
    assert_same(props_before, props, 'the properties on the class')
    state = C.make_state(case)
    for o in case['groups'].get('output', []):
        if o['name'] not in state:  # needed by steppers that put tendencies in diagnostics
            lens = C.dim_lens(case)
            dims = B.expand(C.out_dims(case, o), C.wild_dims(case))
            state[o['name']] = B.data_array({'dims': dims, 'units': o['units'], 'seed': 5}, lens)
    before = B.snapshot(state)
    for i in case['order']:
        inst, alone = instances[i % len(instances)]
        for attr in ('input_properties', 'diagnostic_properties', 'tendency_properties', 'output_properties'):
            if hasattr(alone, attr):
                want, got = getattr(alone, attr), getattr(inst, attr)
                if want != got:
                    fail('{} of an instance is {} but alone it is {}', attr, got, want)
        got = B.call(inst, kind, state, C.timestep(case))
        want = B.call(alone, kind, state, C.timestep(case))
        if not outputs_equal(got, want):
            fail('an instance gave {} but alone it gives {}', got, want)
    assert_same(before, state, 'the state')
    assert_same(props_before, props, 'the properties on the class')
    cov.label(kind, 'instances: {}'.format(len(instances)))
    cov.nontrivial(len(instances) > 1)


def constant_da(c, lens):
    return B.data_array(c, lens)


def check_vehicles(case, cov):
    """Constant components owning their arrays, behind everything that adds,
    scales, caches or steps: nothing may write into those arrays or the state."""
    import sympl
    lens = case['lens']
    arrays = []
    comps = []
    for c in case['consts']:
        tend = {n: B.data_array(q, lens) for n, q in c['tend'].items()}
        diag = {n: B.data_array(q, lens) for n, q in c['diag'].items()}
        arrays.append((tend, diag))
        comps.append(sympl.ConstantTendencyComponent(tend, diag))
    state = {n: B.data_array(q, lens) for n, q in case['state'].items()}
    state['time'] = B.make_time(case['time'])
    dt = datetime.timedelta(seconds=case['dt'])
    wrapped = []
    for comp, c in zip(comps, case['consts']):
        for w in c['wrap']:
            if w == 'scale':
                comp = sympl.ScalingWrapper(
                    comp, tendency_scale_factors={n: 3. for n in c['tend']},
                    diagnostic_scale_factors={n: 0.5 for n in c['diag']})
            else:
                comp = sympl.UpdateFrequencyWrapper(comp, datetime.timedelta(seconds=case['dt'] * 1.5))
        wrapped.append(comp)
    v = case['vehicle']
    if v == 'composite':
        run = sympl.TendencyComponentComposite(*wrapped)
        call = lambda s: run(s)
    elif v == 'implicit_composite':
        run = sympl.ImplicitTendencyComponentComposite(*wrapped)
        call = lambda s: run(s, dt)
    elif v == 'direct':
        call = lambda s: [w(s) for w in wrapped]
    else:
        run = {'ab': sympl.AdamsBashforth, 'ssprk': sympl.SSPRungeKutta, 'leapfrog': sympl.Leapfrog}[v](
            *wrapped, tendencies_in_diagnostics=case['tid'])
        call = lambda s: run(s, dt)
    arrays_before = B.snapshot(arrays)
    stepped = {n for c in case['consts'] for n in c['tend']}
    if v == 'direct':
        first = None
    first = None
    for i in range(case['steps']):
        before = B.snapshot(state)
        ids = {k: id(x) for k, x in state.items()}
        out = call(state)
        assert_same(arrays_before, arrays, 'an array given to a constant component')
        after = B.snapshot(state)
        if set(after) != set(before):
            fail('the keys of the state changed from {} to {}', sorted(before), sorted(after))
        for k in before:
            if v == 'leapfrog' and k in stepped:
                continue  # documented: the filter modifies the current state
            if not B.same_snapshot(before[k], after[k]):
                fail('{} in the input state changed from {} to {}', k, before[k], after[k])
            if ids[k] != id(state[k]):
                fail('{} in the input state was replaced', k)
        if v in ('ab', 'ssprk', 'leapfrog'):
            diag, new = out
            if new['time'] != state['time']:
                fail('the time was changed by {}', v)
            if case['reuse']:
                state.update(new)
            else:
                state = dict(new)
            state['time'] = state['time'] + dt
        else:
            snap = B.snapshot(out)
            if first is not None and not B.same_snapshot(first, snap):
                fail('calling again gave {} instead of {}', snap, first)
            first = snap
            state = dict(state)
            state['time'] = state['time'] + dt
    cov.label(v, *[w for c in case['consts'] for w in c['wrap']])
    cov.nontrivial(case['steps'] > 1 and bool(stepped))


@st.composite
def vehicle_cases(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y', 'z']}
    names = draw(st.permutations(['a', 'b', 'c']))[:draw(st.integers(1, 3))]
    state = {}
    for n in names:
        fam = draw(st.sampled_from(['length', 'mass', 'pressure', 'ratio']))
        state[n] = {'dims': draw(G.subset(['x', 'y', 'z'])), 'units': draw(st.sampled_from(sorted(B.LINEAR[fam]))),
                    'seed': draw(G.seeds)}
    consts = []
    for i in range(draw(st.integers(1, 3))):
        tend = {}
        for n in draw(G.subset(names, min_size=1)):
            fam = B.UNIT_FAMILY[state[n]['units']]
            tend[n] = {'dims': draw(G.permuted(state[n]['dims'])), 'seed': draw(G.seeds),
                       'units': B.per_time(draw(st.sampled_from(sorted(B.LINEAR[fam]))))}
        diag = {'d{}_{}'.format(i, j): {'dims': draw(G.subset(['x', 'y', 'z'])), 'units': 'm', 'seed': draw(G.seeds)}
                for j in range(draw(st.integers(0, 2)))}
        wrap = draw(st.sampled_from([[], ['scale'], ['update'], ['update', 'scale'], ['scale', 'update'],
                                     ['scale', 'scale']]))
        consts.append({'tend': tend, 'diag': diag, 'wrap': wrap})
    if draw(st.booleans()):
        state['bystander'] = {'dims': ['z'], 'units': 'degC', 'seed': draw(G.seeds),
                              'dtype': draw(st.sampled_from(['float64', 'int64']))}
    return {'lens': lens, 'state': state, 'consts': consts, 'time': draw(G.times()), 'dt': draw(G.timesteps),
            'vehicle': draw(st.sampled_from(['direct', 'composite', 'implicit_composite', 'ab', 'ssprk', 'leapfrog'])),
            'reuse': draw(st.booleans()), 'steps': draw(st.integers(1, 4)), 'tid': draw(st.booleans())}


def check_monitors(case, cov):
    import sympl
    state = {n: B.data_array(q, case['lens']) for n, q in case['state'].items()}
    state['time'] = B.make_time(case['time'])
    before = B.snapshot(state)
    ids = {k: id(v) for k, v in state.items()}
    tmp = tempfile.mkdtemp(prefix='pbt-c05-')
    seen = []
    try:
        if case['monitor'] == 'netcdf':
            m = sympl.NetCDFMonitor(os.path.join(tmp, 'a.nc'), write_on_store=case['flag'],
                                    aliases={'a': 'alpha'} if case['alias'] else None,
                                    store_names=['a'] if case['only'] else None)
            m.store(state)
            m.write()
        elif case['monitor'] == 'restart':
            m = sympl.RestartMonitor(os.path.join(tmp, 'a.nc'))
            m.store(state)
        else:
            def plot(fig, s):
                seen.append(B.snapshot(s))
                for k in list(s):
                    if k != 'time':
                        s[k].values[...] = -1
                        s[k].attrs['units'] = 'florps'
                s.clear()
            m = sympl.PlotFunctionMonitor(plot, interactive=case['flag'])
            m.store(state)
            import matplotlib.pyplot as plt
            plt.close('all')
            if len(seen) != 1 or not B.same_snapshot(seen[0], before):
                fail('the plot function was not given the state: {}', seen)
        assert_same(before, state, 'the state passed to a monitor')
        if ids != {k: id(v) for k, v in state.items()}:
            fail('an object in the state was replaced by a monitor')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov.label(case['monitor'])
    cov.nontrivial(len(state) > 1)


@st.composite
def monitor_cases(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y', 'z']}
    names = ['a'] + draw(G.subset(['b', 'ab', 'c']))
    state = {n: {'dims': draw(G.subset(['x', 'y', 'z'])), 'units': draw(st.sampled_from(['m', 'degK', ''])),
                 'seed': draw(G.seeds), 'dtype': draw(st.sampled_from(['float64', 'float32', 'int64']))}
             for n in names}
    return {'lens': lens, 'state': state, 'time': draw(G.times()), 'flag': draw(st.booleans()),
            'alias': draw(st.booleans()), 'only': draw(st.booleans()),
            'monitor': draw(st.sampled_from(['netcdf', 'restart', 'plot']))}


@st.composite
def component_cases(draw):
    case = draw(G.component_cases())
    case['repeat'] = draw(st.integers(1, 3))
    return case


@st.composite
def instance_cases(draw):
    kind = draw(st.sampled_from(['tendency', 'implicit', 'stepper', 'diagnostic']))
    case = draw(G.component_cases(kinds=[kind], linear=True))
    if kind == 'stepper':  # tendencies need the same dims and units in and out
        for o in case['groups']['output']:
            for q in case['inputs']:
                if q['name'] == o['name']:
                    o['dims'] = None
                    o['units'] = q['punits']
                    o.pop('newlen', None)
    case['instances'] = [[draw(st.booleans()), draw(st.sampled_from([None, 'radiation', 'other']))]
                         for _ in range(draw(st.integers(1, 3)))]
    case['order'] = draw(st.lists(st.integers(0, 2), min_size=1, max_size=4))
    if case['style'] == 'property':  # see the known finding C06-property-attributes
        case['style'] = 'class'
    return case


SUBS = [
    Sub('component', component_cases, check_component, 2000, 30000),
    Sub('instances', instance_cases, check_instances, 1600, 24000),
    Sub('vehicles', vehicle_cases, check_vehicles, 1600, 24000),
    Sub('monitors', monitor_cases, check_monitors, 320, 3000),
]
