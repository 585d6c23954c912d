"""Components are given the declared view of the state."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random states (1-4 quantities, dims subset/permutation of 3 explicit and 3 wildcard dims of length '
        '1-4, 8 unit families, float64/float32/int64) and components of all four types with declared dims, '
        'units and aliases; oracle: hand-written conversion table and axis alignment. Non-trivial: some input '
        'needs a transpose, a broadcast, a flatten of >=2 wildcard dims or a unit conversion.')


def features(case, cov):
    lens = case['lens']
    wild = C.wild_dims(case)
    nt = False
    for q in case['inputs']:
        e = [d for d in q['pdims'] if d != '*']
        if [d for d in q['dims'] if d in e] != [d for d in e if d in q['dims']]:
            cov.label('transpose')
            nt = True
        if any(d not in q['dims'] for d in e) or ('*' in q['pdims'] and any(w not in q['dims'] for w in wild)):
            cov.label('broadcast')
            nt = True
        if '*' in q['pdims'] and len(wild) >= 2:
            cov.label('flatten')
            nt = True
        if '*' in q['pdims'] and not wild:
            cov.label('empty wildcard')
        if B.scale_offset(q['units']) != B.scale_offset(q['punits']):
            cov.label('units converted')
            nt = True
        if B.scale_offset(q['units'])[1] or B.scale_offset(q['punits'])[1]:
            cov.label('offset units')
        if not q['dims']:
            cov.label('scalar')
    cov.label(case['kind'] if 'kind' in case else 'function')
    return nt


def check_component(case, cov):
    rec = B.Recorder()
    component = C.make(case, rec)
    state = C.make_state(case)
    B.call(component, case['kind'], state, C.timestep(case))
    cov.nontrivial(features(case, cov))
    if len(rec.calls) != 1:
        fail('array_call ran {} times in one call', len(rec.calls))
    raw, dt = rec.calls[0]
    want = {C.raw_name(q) for q in case['inputs']} | {'time'}
    if set(raw) != want:
        fail('array_call was given {} but {} were expected', sorted(raw), sorted(want))
    if raw['time'] != state['time']:
        fail('array_call was given time {} instead of {}', raw['time'], state['time'])
    if case['kind'] in ('implicit', 'stepper') and dt != C.timestep(case):
        fail('array_call was given timestep {} instead of {}', dt, C.timestep(case))
    C.check_raw(case, raw, C.state_values(case), dtypes=True)


def check_function(case, cov):
    import sympl
    case = dict(case, groups={})
    state = C.make_state(case)
    raw = sympl.get_numpy_arrays_with_properties(state, C.in_props(case))
    cov.nontrivial(features(case, cov))
    if set(raw) != {C.raw_name(q) for q in case['inputs']}:
        fail('returned {} for inputs {}', sorted(raw), [C.raw_name(q) for q in case['inputs']])
    C.check_raw(case, raw, C.state_values(case), dtypes=True)


@st.composite
def function_cases(draw):
    case = draw(G.input_quantities(max_size=5))
    case['decoys'] = draw(G.decoys()) if draw(st.integers(0, 3)) == 0 else []
    case['time'] = draw(G.times())
    return case


def check_history(case, cov):
    """One component instance called with several states of different layout, or with the same one when it has changed."""
    import sympl
    rec = B.Recorder()
    component = C.make(case['cases'][0], rec)
    state = {}
    for c in case['cases']:
        state = B.put(state, C.make_state(c)) if case['put'] else C.make_state(c)
        result = B.call(component, c['kind'], state, C.timestep(c))
        raw, dt = rec.calls[-1]
        values = C.state_values(c)
        C.check_raw(c, raw, values, dtypes=True)
        C.check_outputs(c, result, values, C.tolerance(c))
        raw = sympl.get_numpy_arrays_with_properties(state, C.in_props(c))
        C.check_raw(c, raw, values, dtypes=True)
    cov.nontrivial(len({str([q['dims'] for q in c['inputs']]) + str(c['lens']) for c in case['cases']}) > 1)
    cov.label('calls: {}'.format(len(case['cases'])))


@st.composite
def histories(draw):
    first = draw(G.component_cases(max_inputs=3))
    cases = [first]
    for _ in range(draw(st.integers(1, 3))):
        c = dict(first, inputs=[], lens={d: draw(G.lengths) for d in sorted(first['lens'])},
                 time=draw(G.times()), dt=draw(G.timesteps))
        w = draw(G.subset(G.W_DIMS))
        if draw(st.integers(0, 2)) == 0:  # the layout of the previous one, but not its lengths
            some = set(draw(G.subset(sorted(c['lens']))))
            c['lens'] = {d: n if d in some else cases[-1]['lens'][d] for d, n in c['lens'].items()}
            c['inputs'] = [dict(q, seed=draw(G.seeds)) for q in cases[-1]['inputs']]
            if draw(st.booleans()):
                c['inputs'] = [dict(q, units=draw(st.sampled_from(sorted(B.FAMILIES[B.UNIT_FAMILY[q['units']]]))))
                               for q in c['inputs']]
            cases.append(c)
            continue
        for q in first['inputs']:
            e = [d for d in q['pdims'] if d != '*']
            dims = draw(G.subset(e + (w if '*' in q['pdims'] else [])))
            fam = B.UNIT_FAMILY[q['punits']]
            c['inputs'].append(dict(q, dims=dims, seed=draw(G.seeds),
                                    units=draw(st.sampled_from(sorted(B.FAMILIES[fam])))))
        cases.append(c)
    return {'cases': cases, 'put': draw(st.booleans())}


SUBS = [
    Sub('component', G.component_cases, check_component, 4000, 60000),
    Sub('function', function_cases, check_function, 4000, 60000),
    Sub('history', histories, check_history, 1600, 24000),
]
