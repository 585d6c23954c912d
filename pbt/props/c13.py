"""ScalingWrapper multiplies the named quantities, and nothing else."""
import datetime

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random components of all kinds wrapped with random factors (0, negative, integer, numpy) on random inputs, '
        'tendencies, diagnostics and outputs, possibly wrapped twice, called repeatedly; compared with a reference '
        'that scales values in numpy. Also wrong names, groups and types. Non-trivial: a factor other than 1 on some '
        'quantity.')

ARG = {'input': 'input_scale_factors', 'tendency': 'tendency_scale_factors',
       'diagnostic': 'diagnostic_scale_factors', 'output': 'output_scale_factors'}
FACTORS = [0.5, 2., -1., 0., 3, 1., 1e-3, -2]


def call(wrapped, kind, state, dt):
    return B.call(wrapped, kind, state, dt)


def check_scaling(case, cov):
    import sympl
    kind = case['kind']
    rec = B.Recorder()
    inner = C.make(case, rec)
    wrapped = inner
    total = {}
    for layer in case['layers']:
        kw = {}
        for g, factors in layer.items():
            kw[ARG[g]] = {n: (np.float64(f) if case['numpy'] else f) for n, f in factors.items()}
            for n, f in factors.items():
                total[(g, n)] = total.get((g, n), 1.) * f
        before = B.snapshot(kw)
        wrapped = sympl.ScalingWrapper(wrapped, **kw)
    state = C.make_state(case)
    state['unused'] = B.data_array({'dims': ['q'], 'units': 'm', 'seed': 3}, {'q': 2})
    snap = B.snapshot(state)
    values = {n: np.asarray(v, dtype=float) * total.get(('input', n), 1.) for n, v in C.state_values(case).items()}
    rtol = C.tolerance(case)
    for i in range(case['calls']):
        result = call(wrapped, kind, state, C.timestep(case))
        if len(rec.calls) != i + 1:
            fail('{} calls of the wrapped component in {} calls of the wrapper', len(rec.calls), i + 1)
        for g in case['groups']:
            names = {o['name'] for o in case['groups'][g]}
            if set(result[g]) != names:
                fail('{} outputs of the wrapped component are {} where {} were expected', g, sorted(result[g]),
                     sorted(names))
            for o in case['groups'][g]:
                f = float(total.get((g, o['name']), 1.))
                q = result[g][o['name']]
                if q.attrs.get('units') != o['units']:
                    fail('{} {} has units {} where {} was expected', g, o['name'], q.attrs.get('units'), o['units'])
                dims, want, scale = C.expected(case, o, values)
                got = B.by_name(q, dims)
                if not B.close(got, want * f, rtol=rtol, atol=rtol, scale=scale * abs(f) + 1e-300):
                    fail('{} {} scaled by {} (inputs {}) is {} where {} was expected', g, o['name'], f, total,
                         got.tolist(), (want * f).tolist())
    if not B.same_snapshot(snap, B.snapshot(state)):
        fail('the state changed')
    if kw and not B.same_snapshot(before, B.snapshot(kw)):
        fail('the scale factors changed')
    for attr in ('input_properties', 'diagnostic_properties', 'tendency_properties', 'output_properties'):
        if hasattr(inner, attr) != hasattr(wrapped, attr) or \
                (hasattr(inner, attr) and getattr(inner, attr) != getattr(wrapped, attr)):
            fail('{} of the wrapper is not that of the component', attr)
    cov.label(kind, *['{} scaled'.format(g) for g, _ in total])
    cov.nontrivial(any(f != 1. for f in total.values()))


@st.composite
def scaling_cases(draw):
    case = draw(G.component_cases())
    case['layers'] = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        layer = {}
        for g in ['input'] + sorted(case['groups']):
            names = [q['name'] for q in (case['inputs'] if g == 'input' else case['groups'][g])]
            if names and draw(st.integers(0, 2)):
                layer[g] = {n: draw(st.sampled_from(FACTORS)) for n in draw(G.subset(names))}
        case['layers'].append(layer)
    case['calls'] = draw(st.integers(1, 2))
    case['numpy'] = draw(st.booleans())
    return case


def check_invalid(case, cov):
    import sympl
    kind = case['kind']
    comp = C.make(case)
    how = case['how']
    groups = ['input'] + sorted(case['groups'])
    if how == 'name':
        g = groups[case['k'] % len(groups)]
        names = {q['name'] for q in (case['inputs'] if g == 'input' else case['groups'][g])}
        wrong = [n for n in G.NAMES + G.OUT_NAMES + ['nothing'] if n not in names]
        bad = wrong[case['k'] % len(wrong)]
        listed = sorted(names)[:case['valid']]
        listed.insert(case['k'] // 3 % (len(listed) + 1), bad)
        kw = {ARG[g]: {n: 2. if n == bad else 1. for n in listed}}
        for other in groups:  # nothing wrong with these
            if other != g and case['k'] % 2:
                kw[ARG[other]] = {q['name']: 2. for q in (
                    case['inputs'] if other == 'input' else case['groups'][other])}
        B.expect_raises(ValueError, lambda: sympl.ScalingWrapper(comp, **kw),
                        'factors {} where {} is not one of the {} quantities {}'.format(kw, bad, g, sorted(names)))
    elif how == 'group':
        missing = [g for g in ('tendency', 'output') if g not in case['groups']]
        g = missing[case['k'] % len(missing)]
        B.expect_raises(TypeError, lambda: sympl.ScalingWrapper(comp, **{ARG[g]: {'a': 2.}}),
                        '{} for a {} component'.format(ARG[g], kind))
    elif how == 'timestep':
        if kind not in ('implicit', 'stepper'):
            return
        wrapped = sympl.ScalingWrapper(comp)
        B.expect_raises(TypeError, lambda: wrapped(C.make_state(case)), 'calling a {} without timestep'.format(kind))
    else:
        for thing in (None, 3, object(), {}, C.make_state(case)):
            B.expect_raises(TypeError, lambda: sympl.ScalingWrapper(thing), 'wrapping {!r}'.format(type(thing)))
    cov.label(how)
    cov.nontrivial()


@st.composite
def invalid_cases(draw):
    case = draw(G.component_cases())
    case['how'] = draw(st.sampled_from(['name', 'name', 'name', 'group', 'timestep', 'type']))
    case['k'] = draw(st.integers(0, 60))
    case['valid'] = draw(st.integers(0, 3))
    return case


def check_model(case, cov):
    """Around a time stepper: what is not named is as without the wrapper,
    whatever else the state has."""
    import sympl
    lens = case['lens']

    def stepper():
        tend = {n: B.data_array(q, lens) for n, q in case['tend'].items()}
        return {'ab': lambda c: sympl.AdamsBashforth(c, order=2), 'ssprk': sympl.SSPRungeKutta}[case['model']](
            sympl.ConstantTendencyComponent(tend, {'extra': B.data_array(case['diag'], lens)}))
    wrapped = sympl.ScalingWrapper(
        stepper(), output_scale_factors=case['output'], diagnostic_scale_factors=case['diagnostic'])
    plain = stepper()
    state = {}
    for n, q in case['state'].items():
        state[n] = B.data_array(q, lens)
        state[n].attrs['long_name'] = 'the ' + n
    state['time'] = B.make_time(case['time'])
    dt = datetime.timedelta(seconds=case['dt'])
    for _ in range(case['calls']):
        before = B.snapshot(state)
        want_diag, want = plain(state, dt)
        diag, new = wrapped(state, dt)
        if not B.same_snapshot(before, B.snapshot(state)):
            fail('the state changed from {} to {}', before, B.snapshot(state))
        for what, got, expected, factors in (('new state', new, want, case['output']),
                                             ('diagnostics', diag, want_diag, case['diagnostic'])):
            if set(got) != set(expected):
                fail('the {} has {} where {} was expected', what, sorted(got), sorted(expected))
            for n in expected:
                if n == 'time':
                    if got[n] != expected[n]:
                        fail('the time is {} where {} was expected', got[n], expected[n])
                    continue
                w = expected[n] if n not in factors else expected[n].copy(data=expected[n].values * factors[n])
                if dict(got[n].attrs) != dict(w.attrs):
                    fail('{} {} has attributes {} where {} was expected', what, n, dict(got[n].attrs), dict(w.attrs))
                dims = sorted(w.dims)
                if sorted(got[n].dims) != dims or not B.close(B.by_name(got[n], dims), B.by_name(w, dims),
                                                              scale=B.top(w.values)):
                    fail('{} {} is {} where {} was expected (factors {})', what, n, got[n], w, factors)
        state = dict(want)
        state['time'] = state['time'] + dt
    cov.label(case['model'])
    cov.nontrivial(bool(case['output']) or bool(case['diagnostic']))


@st.composite
def model_cases(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y', 'z']}
    state, tend = {}, {}
    for n in draw(G.subset(['a', 'b', 'c', 'd'], min_size=1)):
        fam = draw(st.sampled_from(['length', 'mass', 'ratio', 'pressure']))
        dims = draw(G.subset(['x', 'y', 'z']))
        state[n] = {'dims': dims, 'units': draw(st.sampled_from(sorted(B.LINEAR[fam]))), 'seed': draw(G.seeds)}
        if not tend or draw(st.booleans()):
            tend[n] = {'dims': list(draw(G.permuted(dims))), 'seed': draw(G.seeds),
                       'units': B.per_time(draw(st.sampled_from(sorted(B.LINEAR[fam]))))}
    return {'lens': lens, 'state': state, 'tend': tend, 'time': draw(G.times()), 'dt': draw(G.timesteps),
            'diag': {'dims': draw(G.subset(['x', 'y', 'z'])), 'units': 'm', 'seed': draw(G.seeds)},
            'output': {n: draw(st.sampled_from(FACTORS)) for n in draw(G.subset(sorted(tend)))},
            'diagnostic': {'extra': draw(st.sampled_from(FACTORS))} if draw(st.booleans()) else {},
            'model': draw(st.sampled_from(['ab', 'ssprk'])), 'calls': draw(st.integers(1, 3))}


def check_cached(case, cov):
    """Around a component whose results are kept and given again."""
    import sympl
    kind = case['kind']
    dt = datetime.timedelta(seconds=case['dt'])
    rec = B.Recorder()
    inner = C.make(case, rec)
    if case['keep'] == 'update':
        inner = sympl.UpdateFrequencyWrapper(inner, datetime.timedelta(hours=1))
    else:
        inner = Keeper.around(inner, kind)
    kw = {ARG[g]: dict(f) for g, f in case['layers'][0].items()}
    wrapped = sympl.ScalingWrapper(inner, **kw)
    state = C.make_state(case)
    values = {n: np.asarray(v, dtype=float) * case['layers'][0].get('input', {}).get(n, 1.)
              for n, v in C.state_values(case).items()}
    rtol = C.tolerance(case)
    for _ in range(case['calls'] + 1):
        result = B.call(wrapped, kind, state, dt)
        for g in case['groups']:
            for o in case['groups'][g]:
                f = float(case['layers'][0].get(g, {}).get(o['name'], 1.))
                dims, want, scale = C.expected(case, o, values)
                got = B.by_name(result[g][o['name']], dims)
                if not B.close(got, want * f, rtol=rtol, atol=rtol, scale=scale * abs(f) + 1e-300):
                    fail('{} {} scaled by {} is {} where {} was expected', g, o['name'], f, got.tolist(),
                         (want * f).tolist())
    if len(rec.calls) != 1:
        fail('the component was called {} times', len(rec.calls))
    cov.label(kind, case['keep'])
    cov.nontrivial(bool(case['layers'][0]) and any(case['groups'].values()))


class Keeper(object):
    """A component which gives the same objects each time."""

    @staticmethod
    def around(inner, kind):
        class Kept(type(inner)):
            def __init__(self):
                self.kept = None

            def __call__(self, *args):
                if self.kept is None:
                    self.kept = inner(*args)
                return self.kept
        for attr in ('input_properties', 'diagnostic_properties', 'tendency_properties', 'output_properties'):
            if hasattr(inner, attr):
                setattr(Kept, attr, getattr(inner, attr))
        return Kept()


@st.composite
def cached_cases(draw):
    case = draw(scaling_cases())
    case['keep'] = draw(st.sampled_from(['update', 'object']))
    case['layers'] = case['layers'][:1] or [{}]
    return case


SUBS = [
    Sub('model', model_cases, check_model, 1200, 8000),
    Sub('cached', cached_cases, check_cached, 2000, 12000),
    Sub('scaling', scaling_cases, check_scaling, 6000, 40000),
    Sub('invalid', invalid_cases, check_invalid, 2000, 8000),
]
