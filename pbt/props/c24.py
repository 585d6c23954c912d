"""Components work the same through any StateBackend."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random components of all kinds called with states of a custom backend whose containers share nothing with '
        'xarray and whose arrays are of a type of their own; backends are switched between calls. The outputs must '
        'be containers of the backend in use with the values the reference computes, the arrays given to array_call '
        'of its type, and each input must have been requested in its declared units. Non-trivial: the component has '
        'inputs and outputs and the custom backend was in use.')


class MyArray(np.ndarray):
    pass


class Box(object):
    """A quantity: data, names of dims and a unit, nothing else."""

    def __init__(self, payload, names, unit):
        self.payload = payload
        self.names = tuple(names)
        self.unit = unit


def make_backend(log):
    import sympl

    class BoxBackend(sympl.StateBackend):

        def get_array(self, state_value, name, target_units, target_dims, dim_lengths):
            log.append(('get', name, target_units, list(target_dims)))
            if not isinstance(state_value, Box):
                raise TypeError('not a Box: {}'.format(type(state_value)))
            data = B.convert(state_value.payload, state_value.unit, target_units)
            lens = {d: dim_lengths.get(d, 1) for d in target_dims}
            return B.broadcast(data, list(state_value.names), list(target_dims), lens).view(MyArray)

        def create_quantity(self, data, name, units, dims, reference_state=None):
            log.append(('create', name, units, list(dims)))
            return Box(np.array(data), dims, units)

        def get_dims(self, state_value):
            return state_value.names

        def get_shape(self, state_value):
            return state_value.payload.shape

        def get_container_type(self):
            return Box
    return BoxBackend()


def to_box(da):
    return Box(np.array(da.values), da.dims, da.attrs['units'])


def check_components(case, cov):
    import sympl
    kind = case['kind']
    recorder = B.Recorder()
    types = []

    def func(raw, dt):
        types.append({k: type(v) for k, v in raw.items() if k != 'time'})
        return C.compute(case, {k: np.asarray(v) if k != 'time' else v for k, v in raw.items()}, dt)
    comp = B.make_class(kind, C.properties(case), func, recorder)()
    values = C.state_values(case)
    rtol = C.tolerance(case)
    log = []
    backends = {'box': make_backend(log), 'xarray': sympl.DataArrayBackend()}
    for which in case['uses']:
        sympl.set_backend(backends[which])
        if sympl.get_backend() is not backends[which]:
            fail('get_backend does not return the backend that was set')
        state = C.make_state(case)
        if which == 'box':
            state = {k: to_box(v) if k != 'time' else v for k, v in state.items()}
            before = {k: (np.array(v.payload), v.names, v.unit) for k, v in state.items() if k != 'time'}
        del log[:], types[:], recorder.calls[:]
        result = B.call(comp, kind, state, C.timestep(case))
        C.check_raw(case, {k: np.asarray(v) if k != 'time' else v for k, v in recorder.calls[-1][0].items()}, values)
        if which == 'box':
            wrong = {k: t.__name__ for k, t in types[-1].items() if t is not MyArray}
            if wrong:
                fail('array_call was given arrays of types {} which the backend does not make', wrong)
            for k, (v, d, u) in before.items():
                if not np.array_equal(state[k].payload, v, equal_nan=True) or state[k].names != d or state[k].unit != u:
                    fail('the state changed')
            asked = {(e[1], e[2]) for e in log if e[0] == 'get'}
            want = {(q['name'], q['punits']) for q in case['inputs']}
            if asked != want:
                fail('get_array was asked for {} where {} are declared', sorted(asked), sorted(want))
            made = {(e[1], e[2]) for e in log if e[0] == 'create'}
            want = {(o['name'], o['units']) for g in case['groups'].values() for o in g}
            if made != want:
                fail('create_quantity was asked for {} where {} are declared', sorted(made), sorted(want))
            for g in result:
                for n, q in list(result[g].items()):
                    if not isinstance(q, Box):
                        fail('output {} is a {}, not a container of the backend', n, type(q).__name__)
                    result[g][n] = sympl.DataArray(q.payload, dims=q.names, attrs={'units': q.unit})
        elif log:
            fail('a backend that is no longer set was used: {}', log)
        C.check_outputs(case, result, values, rtol)
    cov.label(kind, *case['uses'])
    cov.nontrivial('box' in case['uses'] and case['inputs'] and any(case['groups'].values()))


@st.composite
def component_cases(draw):
    case = draw(G.component_cases())
    case['decoys'] = [d for d in case.get('decoys', []) if d['what'] == 'quantity']
    case['uses'] = draw(st.lists(st.sampled_from(['box', 'box', 'xarray']), min_size=1, max_size=3))
    return case


def check_functions(case, cov):
    """The array helpers also go through the backend."""
    import sympl
    log = []
    sympl.set_backend(make_backend(log))
    props = C.in_props(case)
    state = {k: to_box(v) if k != 'time' else v for k, v in C.make_state(case).items()}
    raw = sympl.get_numpy_arrays_with_properties(state, props)
    C.check_raw(case, {k: np.asarray(v) for k, v in raw.items()}, C.state_values(case))
    if any(type(v) is not MyArray for v in raw.values()):
        fail('arrays are of types {}', {k: type(v).__name__ for k, v in raw.items()})
    back = sympl.restore_data_arrays_with_properties(raw, props, state, props)
    for q in case['inputs']:
        b = back[q['name']]
        if not isinstance(b, Box) or b.unit != q['punits']:
            fail('{} is restored as {}', q['name'], vars(b))
        dims = sorted(b.names)
        if set(dims) != set(B.expand(q['pdims'], C.wild_dims(case))):
            fail('{} declared with dims {} is restored with {}', q['name'], q['pdims'], b.names)
        lens = C.dim_lens(case)
        want = B.broadcast(B.convert(C.state_values(case)[q['name']], q['units'], q['punits']), q['dims'], dims, lens)
        got = b.payload.transpose([b.names.index(d) for d in dims])
        if not C.converted(q, got, want):
            fail('{} is restored as {} where {} was expected', q['name'], got.tolist(), want.tolist())
    cov.nontrivial(len(case['inputs']) > 1)


@st.composite
def function_cases(draw):
    case = draw(G.input_quantities())
    case['groups'] = {}
    case['time'] = {'k': 'td', 's': 0}
    return case


def check_set(case, cov):
    import sympl
    log = []
    backend = make_backend(log)
    sympl.set_backend(backend)
    things = {'none': None, 'class': type(backend), 'string': 'DataArrayBackend', 'object': object(), 'dict': {}}
    B.expect_raises(TypeError, lambda: sympl.set_backend(things[case['bad']]), 'a backend that is a ' + case['bad'])
    if sympl.get_backend() is not backend:
        fail('a rejected backend replaced the one in use')
    cov.nontrivial()


def check_restore(case, cov):
    """A backend whose quantities are DataArrays of its own kind gets them from every helper."""
    import sympl

    class Mine(sympl.DataArray):
        __slots__ = ()

    class Backend(sympl.DataArrayBackend):
        def create_quantity(self, data, name, units, dims, reference_state=None):
            return Mine(data, dims=dims, attrs={'units': units})

        def get_container_type(self):
            return Mine
    sympl.set_backend(Backend())
    da = Mine(B.values(case['seed'], [case['lens'][d] for d in case['dims']]), dims=case['dims'],
              attrs={'units': 'm'})
    array = sympl.get_numpy_array(da, case['out'])
    back = sympl.restore_dimensions(array, case['out'], da, result_attrs={'units': 'm'})
    if type(back) is not Mine:
        fail('restore_dimensions gives a {} where the backend uses {}', type(back).__name__, Mine.__name__)
    if not B.same_snapshot(B.snapshot(da), B.snapshot(back)):
        fail('{} is restored as {}', da, back)
    props = {'a': {'dims': case['out'], 'units': 'km'}}
    raw = sympl.get_numpy_arrays_with_properties({'a': da}, props)
    back = sympl.restore_data_arrays_with_properties(raw, props, {'a': da}, props)['a']
    if type(back) is not Mine or back.attrs != {'units': 'km'}:
        fail('restore_data_arrays_with_properties gives a {} with attributes {}', type(back).__name__, back.attrs)
    if not B.close(B.by_name(back, sorted(case['dims'])) * 1000., B.by_name(da, sorted(case['dims']))):
        fail('{} is restored as {}', da, back)
    cov.nontrivial(len(case['dims']) > 1)


@st.composite
def restore_cases(draw):
    dims = draw(G.subset(['x', 'lev', 'k']))
    out = list(draw(G.permuted(dims)))
    if draw(st.booleans()):
        out = draw(G.subset(out))
        out.insert(draw(st.integers(0, len(out))), '*')
    return {'dims': dims, 'out': out, 'lens': {d: draw(G.lengths) for d in dims}, 'seed': draw(G.seeds)}


SUBS = [
    Sub('restore', restore_cases, check_restore, 800, 4000),
    Sub('components', component_cases, check_components, 3200, 30000),
    Sub('functions', function_cases, check_functions, 800, 6000),
    Sub('set', lambda: st.fixed_dictionaries({'bad': st.sampled_from(['none', 'class', 'string', 'object', 'dict'])}),
        check_set, 20, 10),
]
