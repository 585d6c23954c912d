"""Tracers: the registry, and what components see of and do to tracers."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random components of the three kinds that can use tracers, with random tracer dims and wildcards, tracers '
        'registered before and after the component is made, prepended, or also inputs, in other units and dims than '
        'the state has them; the tracer array and the outputs are compared with a numpy reference. Random histories '
        'of registrations, conflicting registrations and component creations against a list model. '
        'Non-trivial: at least two tracers (call), or a history with a conflict (registry).')

TR = ['qa', 'qb', 'qc', 'qd', 'qe', 'qf']
R_TR = TR[:4]


def order_of(case):
    names = [t['name'] for t in case['tracers'] if t['how'] == 'prepend']
    return names + [n for n in case['order'] if n not in names]


def tracer_case(case):
    """The component as one whose tracers are inputs and outputs of their own."""
    full = copy.deepcopy(case)
    for t in case['tracers']:
        full['inputs'].append({'name': 'tr:' + t['name'], 'pdims': case['qdims'], 'dims': t['dims'],
                               'punits': t['punits'], 'units': t['units'], 'seed': t['seed'], 'dtype': t['dtype']})
    n = len(full['inputs'])
    for g in full['groups'].values():
        for o in g:
            o['coefs'] = o['coefs'] + [0.] * (n - len(o['coefs']))
    group = 'output' if case['kind'] == 'stepper' else 'tendency'
    for t in case['tracers']:
        units = t['punits'] if group == 'output' else '{} {}'.format(t['punits'], case['tunit'])
        full['groups'][group].append({'name': 'tr:' + t['name'], 'dims': case['qdims'], 'units': units,
                                      'seed': t['seed'] + 1, 'coefs': t['coefs'][:n] + [0.] * (n - len(t['coefs']))})
    return full, group


def check_call(case, cov):
    import sympl
    kind = case['kind']
    names = order_of(case)
    specs = {t['name']: t for t in case['tracers']}
    full, group = tracer_case(case)
    axis = case['axis']
    tracer_dims = list(case['qdims'])
    tracer_dims.insert(axis, 'tracer')
    seen = []

    def func(raw, timestep):
        arr = raw['tracers']
        if not isinstance(arr, np.ndarray) or arr.ndim != len(tracer_dims):
            fail('tracers array has shape {} for dims {}', getattr(arr, 'shape', None), tracer_dims)
        if arr.shape[axis] != len(names):
            fail('tracers array has {} tracers where {} were expected', arr.shape[axis], names)
        view = dict(raw)
        for k, n in enumerate(names):
            view['tr:' + n] = np.asarray(np.take(arr, k, axis=axis))
        seen.append(copy.deepcopy(view))
        result = C.compute(full, view, timestep)
        if not names:
            result[group]['tracers'] = np.zeros_like(arr)
            return result
        out = np.stack([np.broadcast_to(result[group].pop('tr:' + n), view['tr:' + n].shape) for n in names],
                       axis=axis)
        if case['inplace']:
            arr[...] = out
            out = arr
        result[group]['tracers'] = out
        return result

    extra = {'uses_tracers': True, 'tracer_dims': tracer_dims if case['listdims'] else tuple(tracer_dims)}
    prepend = [(t['name'], t['punits']) for t in case['tracers'] if t['how'] == 'prepend']
    if prepend or case['listdims']:
        extra['prepend_tracers'] = prepend
    elif len(case['tracers']) % 2:
        extra['prepend_tracers'] = None
    if case['tunit'] != 's^-1':
        extra['tracer_tendency_time_unit'] = case['tunit']

    def register(early):
        for n in case['order']:
            if specs[n]['early'] is early:  # a prepended tracer may be registered in other units
                sympl.register_tracer(n, specs[n].get('runits') or specs[n]['punits'])

    register(True)
    comp = B.make_class(kind, C.properties(case), func, extra=extra)()
    register(False)
    case['order'] = [n for n in case['order'] if specs[n]['early']] + \
        [n for n in case['order'] if not specs[n]['early']]
    names[:] = order_of(case)

    def state_of(r):  # of call r
        now = copy.deepcopy(full)
        for q in now['inputs']:
            q['seed'] = q['seed'] // 10 ** 6 * 10 ** 6 + (q['seed'] + 17 * r) % 10 ** 6
        values = C.state_values(now)
        now['inputs'] = [q if not q['name'].startswith('tr:') else dict(q, name=q['name'][3:]) for q in now['inputs']
                         if not q['name'].startswith('tr:') or not specs[q['name'][3:]]['shared']]
        return C.make_state(now), values

    rtol = C.tolerance(full)
    state = {}
    earlier = []
    for r in range(case['calls']):
        new, values = state_of(r)
        state = B.put(state, new) if case['put'] else new
        snap = B.snapshot(state)
        result = B.call(comp, kind, state, C.timestep(case))
        earlier.append((result, B.snapshot(result)))
        result = {g: dict(v) for g, v in result.items()}
        if not seen:
            fail('array_call was not called')
        C.check_raw(full, seen[-1], values)
        for n in names:
            if n not in result[group]:
                fail('tracer {} is not in the {} output {}', n, group, sorted(result[group]))
            result[group]['tr:' + n] = result[group].pop(n)
        C.check_outputs(full, result, values, rtol)
        if not B.same_snapshot(snap, B.snapshot(state)):
            fail('the state changed')
    for result, before in earlier:
        if not B.same_snapshot(before, B.snapshot(result)):
            fail('the result of an earlier call changed from {} to {}', before, result)
    asked = sympl.get_tracer_input_properties
    arguments = copy.deepcopy((prepend, tracer_dims))
    units = asked(prepend, tracer_dims)
    if (prepend, tracer_dims) != arguments or asked(tuple(prepend), tuple(tracer_dims)) != units:
        fail('get_tracer_input_properties changed its arguments {} to {}', arguments, (prepend, tracer_dims))
    if set(units) != set(names) or any(list(units[n]['dims']) != case['qdims'] or units[n]['units'] !=
                                       specs[n]['punits'] for n in names):
        fail('get_tracer_input_properties gives {} for tracers {} with dims {}', units, names, tracer_dims)
    for n in names:
        if not specs[n]['shared']:
            partial = {k: v for k, v in state.items() if k != n}
            B.expect_raises((sympl.InvalidStateError, KeyError),
                            lambda: B.call(comp, kind, partial, C.timestep(case)), 'a state without tracer ' + n)
            break
    cov.label(kind, '{} tracers'.format(len(names)), *[t['how'] for t in case['tracers']])
    cov.nontrivial(len(names) > 1)


@st.composite
def call_cases(draw):
    case = draw(G.component_cases(kinds=['tendency', 'implicit', 'stepper'], min_inputs=0, max_inputs=3))
    group = 'output' if case['kind'] == 'stepper' else 'tendency'
    case['tunit'] = draw(st.sampled_from(['s^-1', 's^-1', 'day^-1', 'hr^-1'])) if group == 'tendency' else 's^-1'
    taken = {o['name'] for o in case['groups'][group]}
    have = {d for q in case['inputs'] for d in q['dims']}
    declared = {d for q in case['inputs'] for d in q['pdims']}
    qdims = list(draw(st.permutations(G.E_DIMS)))[:draw(st.sampled_from([1, 0, 2]))]
    free = [d for d in qdims if d in have or d not in declared]
    if '*' in declared:
        wild = C.wild_dims(case)
    else:
        wild = list(draw(st.permutations(G.W_DIMS)))[:draw(st.sampled_from([2, 1, 3]))]
    star = draw(st.integers(0, 2)) > 0
    if star:
        qdims.insert(draw(st.integers(0, len(qdims))), '*')
    case['qdims'] = qdims
    case['axis'] = draw(st.integers(0, len(qdims)))
    case['tracers'] = []
    allowed = set(free) | (set(wild) if star else set())
    for name in draw(G.subset(TR)):
        shared = [q for q in case['inputs'] if q['name'] not in taken and set(q['dims']) <= allowed and
                  q['name'] not in [t['name'] for t in case['tracers']]]
        t = {'name': name, 'shared': False, 'seed': draw(G.seeds),
             'dtype': draw(st.sampled_from(['float64', 'float64', 'float32', 'int64']))}
        if shared and draw(st.integers(0, 3)) == 0:
            q = shared[0]
            t.update(name=q['name'], shared=True, dims=q['dims'], units=q['units'], seed=q['seed'],
                     dtype=q['dtype'])
            fam = B.UNIT_FAMILY[q['units']]
        else:
            if not case['tracers'] or draw(st.booleans()):
                t['dims'] = list(draw(G.permuted(free + (wild if star else []))))
            else:
                t['dims'] = draw(G.subset(free + (wild if star else [])))
            fam = draw(st.sampled_from(['ratio', 'mass', 'length', 'temperature']))
            t['units'] = draw(st.sampled_from(sorted(B.FAMILIES[fam])))
        t['punits'] = draw(st.sampled_from(sorted(B.LINEAR[fam] if group == 'tendency' else B.FAMILIES[fam])))
        t['how'] = draw(st.sampled_from(['register', 'register', 'prepend', 'both']))
        if t['how'] == 'both':
            t['how'] = 'prepend'
            t['also'] = True
            if draw(st.booleans()):
                t['runits'] = draw(st.sampled_from(sorted(B.FAMILIES[fam])))
        t['early'] = draw(st.booleans())
        t['coefs'] = [draw(G.coefs) for _ in range(9)]
        case['tracers'].append(t)
    # a full tracer so that the dims of the array are known
    if case['tracers'] and not any(set(t['dims']) == allowed for t in case['tracers']):
        case['tracers'][0]['dims'] = list(draw(G.permuted(sorted(allowed)))) if not case['tracers'][0]['shared'] \
            else case['tracers'][0]['dims']
    case['order'] = list(draw(G.permuted([t['name'] for t in case['tracers']
                                          if t['how'] == 'register' or t.get('also')])))
    case['listdims'] = draw(st.booleans())
    case['calls'] = draw(st.integers(1, 3))
    case['put'] = draw(st.booleans())
    case['inplace'] = draw(st.integers(0, 2)) == 0
    return case


# ---------------------------------------------------------------- registry
R_UNITS = [['m', 'meter', 'metre'], ['kg/kg', '', 'dimensionless', 'kg kg^-1'], ['g/kg', 'g kg^-1'], ['km']]


def check_registry(case, cov):
    import sympl
    model = []        # [name, units index]
    components = []   # (component, kind, out names)
    conflicts = 0
    for op in case['ops']:
        if op[0] == 'register':
            _, name, g, s = op
            units = R_UNITS[g][s % len(R_UNITS[g])]
            known = dict(model)
            if name in known and known[name] != g:
                B.expect_raises(ValueError, lambda: sympl.register_tracer(name, units),
                                'registering {} in {} after {}'.format(name, units, R_UNITS[known[name]][0]))
                conflicts += 1
            elif any(name in outs for _, _, outs in components):
                B.expect_raises(sympl.InvalidPropertyDictError, lambda: sympl.register_tracer(name, units),
                                'registering {} which a tracer component outputs'.format(name))
                conflicts += 1
            else:
                sympl.register_tracer(name, units)
                if name not in known:
                    model.append([name, g])
        elif op[0] == 'component':
            _, kind, outs, prepend, uses = op
            group = 'output' if kind == 'stepper' else 'tendency'
            props = {group: {n: {'dims': ['x'], 'units': 'm' if kind == 'stepper' else 'm/s'} for n in outs}}
            pre = [(n, 'm') for n in prepend]
            log = []

            def func(raw, timestep, outs=outs, group=group, log=log):
                result = {group: {n: np.zeros(2) for n in outs}}
                if 'tracers' in raw:
                    log.append(np.array(raw['tracers']))
                    result[group]['tracers'] = raw['tracers'] * 1.
                return result
            extra = {'uses_tracers': True, 'tracer_dims': ['tracer', 'x'], 'prepend_tracers': pre} if uses else {}
            cls = B.make_class(kind, props, func, extra=extra)
            if uses and set(outs) & ({n for n, _ in model} | set(prepend)):
                B.expect_raises(sympl.InvalidPropertyDictError, cls,
                                'a component with outputs {} and tracers {}'.format(outs, [n for n, _ in model]))
                conflicts += 1
            else:
                comp = cls()
                if uses:
                    components.append((comp, kind, outs))
                    comp.log, comp.pre = log, prepend
        elif op[0] == 'mutate':
            units = sympl.get_tracer_unit_dict()
            units['evil'] = 'm'
            units.update({n: 'K' for n in list(units)})
            names = sympl.get_tracer_names()
            if isinstance(names, (list, set, dict)):
                names.clear()
            given = sympl.get_tracer_input_properties([('pp', 'm')], ['tracer', 'x'])
            for n in given:
                given[n]['units'] = 'evil'
                if isinstance(given[n]['dims'], list):
                    given[n]['dims'].append('evil')
            given = sympl.get_tracer_input_properties([('pp', 'm')], ['tracer', 'x'])
            if given['pp']['units'] != 'm' or list(given['pp']['dims']) != ['x']:
                fail('get_tracer_input_properties gives {} after what it gave was changed', given)
        else:
            if not components:
                continue
            comp, kind, outs = components[op[1] % len(components)]
            names = list(comp.pre) + [n for n, _ in model if n not in comp.pre]
            if not names:
                continue
            state = {'time': B.make_time({'k': 'td', 's': 0})}
            all_units = dict((n, R_UNITS[g][0]) for n, g in model)
            for k, n in enumerate(R_TR):
                state[n] = sympl.DataArray(np.array([k + 1., -k]), dims=['x'],
                                           attrs={'units': all_units.get(n, 'm') if n not in comp.pre else 'm'})
            result = B.call(comp, kind, state, B._dt.timedelta(seconds=1))
            want = np.array([[R_TR.index(n) + 1., -R_TR.index(n)] for n in names])
            if not comp.log or not B.close(comp.log[-1], want):
                fail('the component got tracers {} where {} ({}) was expected', comp.log[-1:], want.tolist(), names)
            got = result['output' if kind == 'stepper' else 'tendency']
            if set(got) != set(names) | set(outs):
                fail('outputs are {} for tracers {} and outputs {}', sorted(got), names, outs)
        names = tuple(sympl.get_tracer_names())
        if names != tuple(n for n, _ in model):
            fail('get_tracer_names() is {} after {} where {} was expected', names, op, [n for n, _ in model])
        units = sympl.get_tracer_unit_dict()
        if set(units) != set(names) or any(units[n] not in R_UNITS[g] for n, g in model):
            fail('get_tracer_unit_dict() is {} after {} where {} was expected', units, op,
                 {n: R_UNITS[g][0] for n, g in model})
    cov.label('conflict' if conflicts else 'no conflict', 'components' if components else 'no components')
    cov.nontrivial(conflicts)


@st.composite
def registry_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        kind = draw(st.sampled_from(['register', 'register', 'register', 'component', 'mutate', 'call', 'call']))
        if kind == 'register':
            ops.append(['register', draw(st.sampled_from(R_TR)), draw(st.sampled_from([0, 1, 2, 3])),
                        draw(st.integers(0, 3))])
            if draw(st.booleans()):
                ops[-1][2] = R_TR.index(ops[-1][1])
        elif kind == 'component':
            ops.append(['component', draw(st.sampled_from(['tendency', 'implicit', 'stepper'])),
                        draw(G.subset(R_TR, max_size=2)), draw(G.subset(R_TR, max_size=2)),
                        draw(st.integers(0, 4)) > 0])
            if draw(st.booleans()):
                ops[-1][2] = ['out']
        elif kind == 'mutate':
            ops.append(['mutate'])
        else:
            ops.append(['call', draw(st.integers(0, 3))])
    return {'ops': ops}


def check_invalid(case, cov):
    import sympl
    if case['how'] == 'no dims':
        cls = B.make_class(case['kind'], {}, lambda raw, dt: {}, extra={'uses_tracers': True, 'tracer_dims': None})
        B.expect_raises(ValueError, cls, 'uses_tracers without tracer_dims')
    elif case['how'] == 'no tracer dim':
        cls = B.make_class(case['kind'], {}, lambda raw, dt: {},
                           extra={'uses_tracers': True, 'tracer_dims': case['dims']})
        B.expect_raises(ValueError, cls, 'tracer_dims {} without tracer'.format(case['dims']))
    cov.label(case['how'])
    cov.nontrivial()


SUBS = [
    Sub('call', call_cases, check_call, 7200, 40000),
    Sub('registry', registry_cases, check_registry, 3600, 20000),
    Sub('invalid', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(['no dims', 'no tracer dim']), 'kind': st.sampled_from(
            ['tendency', 'implicit', 'stepper']),
        'dims': st.lists(st.sampled_from(['x', '*', 'z']), unique=True, max_size=3)}), check_invalid, 180, 200),
]
