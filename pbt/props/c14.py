"""UpdateFrequencyWrapper recomputes exactly when the interval has passed."""
import datetime

from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random components of all kinds behind 1-2 wrappers, called in random histories of times (repeats, small and '
        'large advances, exact multiples of the interval, one microsecond short, backwards) with changing states and '
        'failing calls. Model: time of the last computation; the output must be that of a fresh component at that '
        'call. Non-trivial: a history with both a cached and a recomputed call after the first.')


class Fault(Exception):
    pass


# (a TypeError is taken for a component that takes no timestep)
FAULTS = [Fault, ValueError, KeyError, RuntimeError, AttributeError, ZeroDivisionError]


def check_history(case, cov):
    import sympl
    kind = case['kind']
    dt = C.timestep(case)
    fault = {'on': False}
    counts = {}
    wrappers = []
    for i, interval in enumerate(case['intervals']):
        counts[i] = 0

        def func(raw, timestep, i=i):
            counts[i] += 1
            if fault['on']:
                raise fault['error']()
            return C.compute(case, raw, timestep)
        comp = B.make_class(kind, C.properties(case), func)()
        wrappers.append([sympl.UpdateFrequencyWrapper(comp, datetime.timedelta(microseconds=interval)), None, None])
    reference = C.make(case)
    t0 = B.make_time(case['time'])
    cached = computed = 0
    earlier = []
    result_names = [q['name'] for q in case['inputs']]
    for w, micro, change, fails, give in case['ops']:
        for old in earlier:  # what happens to states that were given before does not matter
            for n, q in old.items():
                if n in result_names and q.values.flags.writeable:
                    q.values[...] = 7
        i = w % len(wrappers)
        wrapper, last, output = wrappers[i]
        interval = datetime.timedelta(microseconds=case['intervals'][i])
        base = last if last is not None else t0
        kind_of, k = micro
        if kind_of == 'multiple':
            t = base + interval * k
        elif kind_of == 'short':
            t = base + interval * k - datetime.timedelta(microseconds=1)
        elif kind_of == 'over':
            t = base + interval * k + datetime.timedelta(microseconds=1)
        else:
            t = t0 + datetime.timedelta(microseconds=k)
        version = {'inputs': [dict(q, seed=q['seed'] + change) for q in case['inputs']]}
        state = C.make_state(dict(case, **version))
        state['time'] = t
        earlier.append(state)
        due = last is None or t >= last + interval
        fault['on'] = fails
        before = counts[i]
        # components without a timestep may be given one, which is discarded
        if kind in ('implicit', 'stepper') or give:
            args = (state, dt)
        else:
            args = (state,)
        if due and fails:
            fault['error'] = FAULTS[change % len(FAULTS)]
            B.expect_raises(fault['error'], lambda: wrapper(*args), 'a component that fails')
            if counts[i] != before + 1:
                fail('a failing component was called {} times in one call', counts[i] - before)
            cov.label('failed call')
            continue
        got = wrapper(*args)
        if due:
            if counts[i] != before + 1:
                fail('called {} after its last update with interval {}, the component ran {} times',
                     None if last is None else t - last, interval, counts[i] - before)
            fault['on'] = False
            want = B.snapshot(raw_call(reference, kind, state, dt))
            wrappers[i][1:] = [t, want]
            computed += 1
        else:
            if counts[i] != before:
                fail('called only {} after its last update with interval {}, the component ran again', t - last,
                     interval)
            want = output
            cached += 1
        if not B.same_snapshot(B.snapshot(got), want):
            fail('the output is {} where {} was expected (cached: {})', got, want, not due)
    for w, _, _ in wrappers:
        for attr in ('input_properties', 'diagnostic_properties', 'tendency_properties', 'output_properties'):
            if hasattr(reference, attr) != hasattr(w, attr) or \
                    (hasattr(reference, attr) and getattr(reference, attr) != getattr(w, attr)):
                fail('{} of the wrapper is not that of the component', attr)
    cov.label(kind, 'cached' if cached else 'never cached')
    cov.nontrivial(cached > 0 and computed > len(wrappers))


def raw_call(comp, kind, state, dt):
    return comp(state, dt) if kind in ('implicit', 'stepper') else comp(state)


@st.composite
def history_cases(draw):
    case = draw(G.component_cases(max_inputs=2))
    case['time'] = draw(G.times(calendars=True))
    case['intervals'] = [draw(st.sampled_from([10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6, 1, 1500, 0]))
                         for _ in range(draw(st.integers(1, 2)))]
    when = st.one_of(st.tuples(st.sampled_from(['multiple', 'short', 'over']), st.sampled_from([1, 1, 1, 0, 2, 3, -1])),
                     st.tuples(st.just('at'), st.integers(-10 ** 7, 10 ** 7)))
    case['ops'] = [[draw(st.integers(0, 1)), list(draw(when)), draw(st.integers(0, 5)),
                    draw(st.integers(0, 7)) == 0, draw(st.booleans())] for _ in range(draw(st.integers(1, 8)))]
    return case


def check_nested(case, cov):
    """Behind steppers and composites a wrapped component is held constant between updates."""
    import sympl
    n = case['every']
    dt = datetime.timedelta(seconds=case['dt'])
    calls = []

    def func(raw, timestep):
        calls.append(raw['time'])
        return {'tendency': {'a': raw['a'] * 0. + len(calls)}}
    comp = B.make_class(case['kind'], {'input': {'a': {'dims': ['*'], 'units': 'm'}},
                                       'tendency': {'a': {'units': 'm s^-1'}}}, func)()
    wrapped = sympl.UpdateFrequencyWrapper(comp, dt * n)
    stepper = {'ab': lambda: sympl.AdamsBashforth(wrapped, order=1),
               'composite': lambda: sympl.AdamsBashforth(sympl.ImplicitTendencyComponentComposite(wrapped), order=1),
               'scale': lambda: sympl.AdamsBashforth(sympl.ScalingWrapper(wrapped, tendency_scale_factors={'a': 2.}),
                                                     order=1)}[case['how']]()
    state = {'a': B.data_array({'dims': ['x'], 'units': 'm', 'seed': 1}, {'x': 2}), 'time': B.make_time(case['time'])}
    factor = 2. if case['how'] == 'scale' else 1.
    expect = state['a'].values.copy()
    for k in range(case['steps']):
        _, new = stepper(state, dt)
        expect = expect + case['dt'] * factor * (k // n + 1)
        if not B.close(new['a'].values, expect):
            fail('step {} with updates every {} steps gives {} where {} was expected', k, n, new['a'].values, expect)
        state = dict(new)
        state['time'] = state['time'] + dt
    if len(calls) != (case['steps'] - 1) // n + 1:
        fail('{} steps with updates every {} steps called the component {} times', case['steps'], n, len(calls))
    cov.label(case['how'])
    cov.nontrivial(case['steps'] > n)


@st.composite
def nested_cases(draw):
    return {'kind': draw(st.sampled_from(['tendency', 'implicit'])), 'every': draw(st.integers(1, 4)),
            'dt': abs(draw(G.timesteps)), 'steps': draw(st.integers(1, 9)), 'time': draw(G.times(calendars=True)),
            'how': draw(st.sampled_from(['ab', 'composite']))}


SUBS = [
    Sub('history', history_cases, check_history, 2080, 30000),
    Sub('nested', nested_cases, check_nested, 310, 3000),
]
