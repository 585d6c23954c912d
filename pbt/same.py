"""Components of a composite or time stepper are all given the same state,
whatever diagnostics their neighbours compute."""
import datetime

import numpy as np
from hypothesis import strategies as st

from . import build as B, gen as G
from .core import fail

DT = datetime.timedelta(seconds=20)
UNITS = ['m', 'km', 'cm']


@st.composite
def cases(draw, vehicles):
    vehicle = draw(st.sampled_from(vehicles))
    lens = {d: draw(G.lengths) for d in 'xy'}
    quants = {n: {'dims': draw(G.subset(['x', 'y'])), 'units': draw(st.sampled_from(UNITS)), 'seed': draw(G.seeds)}
              for n in ['s0', 's1', 's2']}
    kinds = {'diagnostics': ['diagnostic'], 'tendencies': ['tendency']}.get(vehicle, ['tendency', 'implicit'])
    comps, given = [], set()
    for i in range(draw(st.integers(2, 3))):
        c = {'kind': draw(st.sampled_from(kinds)), 'inputs': {}, 'diag': {}, 'seed': draw(G.seeds)}
        for n in draw(G.subset(sorted(quants))):
            c['inputs'][n] = {'dims': list(draw(G.permuted(quants[n]['dims']))), 'units': draw(st.sampled_from(UNITS))}
        for n in draw(G.subset(sorted(set(quants) - given))):
            given.add(n)
            c['diag'][n] = {'dims': list(draw(G.permuted(quants[n]['dims']))), 'units': draw(st.sampled_from(UNITS))}
        comps.append(c)
    return {'vehicle': vehicle, 'lens': lens, 'quants': quants, 'comps': comps, 'time': draw(G.times()),
            'missing': draw(st.booleans())}


def check(case, cov):
    import sympl
    lens = case['lens']
    state = {n: B.data_array(q, lens) for n, q in case['quants'].items()}
    state['p'] = B.data_array({'dims': [], 'units': 'm', 'seed': 3}, lens)
    state['time'] = B.make_time(case['time'])
    comps, recorders = [], []
    vehicle = case['vehicle']
    for i, c in enumerate(case['comps']):
        props = {'input': c['inputs'], 'diagnostic': c['diag']}
        if vehicle != 'diagnostics':
            props['tendency'] = {'p': {'dims': [], 'units': 'm s^-1'}}

        def func(raw, timestep, c=c):
            return {'tendency': {'p': np.array(0.25)},
                    'diagnostic': {n: B.values(c['seed'] + 5, [lens[d] for d in d_['dims']])
                                   for n, d_ in c['diag'].items()}}
        rec = B.Recorder()
        comps.append(B.make_class(c['kind'], props, func, rec)())
        recorders.append(rec)
    outer = {'diagnostics': lambda: sympl.DiagnosticComponentComposite(*comps),
             'tendencies': lambda: sympl.TendencyComponentComposite(*comps),
             'implicit': lambda: sympl.ImplicitTendencyComponentComposite(*comps),
             'ab': lambda: sympl.AdamsBashforth(*comps),
             'leapfrog': lambda: sympl.Leapfrog(*comps),
             'ssprk': lambda: sympl.SSPRungeKutta(*comps)}[vehicle]()
    needed = {n for c in case['comps'] for n in c['inputs']}
    if case['missing'] and needed:
        # a quantity that a component needs is missing, even if a neighbour computes it
        name = sorted(needed)[0]
        if name not in outer.input_properties:
            fail('{} is an input of a component but not of the {}', name, vehicle)
        partial = {k: v for k, v in state.items() if k != name}
        B.expect_raises((KeyError, sympl.InvalidStateError),
                        lambda: outer(partial) if vehicle in ('diagnostics', 'tendencies') else outer(partial, DT),
                        'a state without {}'.format(name))
        for rec in recorders:
            del rec.calls[:]
    before = B.snapshot({k: v for k, v in state.items() if k != 'p'})
    result = outer(state) if vehicle in ('diagnostics', 'tendencies') else outer(state, DT)
    for c, rec in zip(case['comps'], recorders):
        if not rec.calls:
            fail('a component of the {} was not called', vehicle)
        for raw, _ in rec.calls:
            for n, p in c['inputs'].items():
                want = B.convert(B.by_name(state[n], p['dims']), case['quants'][n]['units'], p['units'])
                if not B.close(raw[n], want):
                    fail('a component in the {} was given {} = {} where the state has {}', vehicle, n, raw[n].tolist(),
                         want.tolist())
    diagnostics = result if vehicle == 'diagnostics' else result[1] if vehicle in ('tendencies', 'implicit') else result[0]
    want = {n: (c, d) for c in case['comps'] for n, d in c['diag'].items()}
    if set(diagnostics) != set(want):
        fail('diagnostics are {} where {} were expected', sorted(diagnostics), sorted(want))
    for n, (c, d) in want.items():
        if not B.close(B.by_name(diagnostics[n], d['dims']), B.values(c['seed'] + 5, [lens[x] for x in d['dims']])):
            fail('diagnostic {} is {}', n, diagnostics[n])
    if vehicle in ('ab', 'leapfrog', 'ssprk'):
        for n in case['quants']:
            if not B.same_snapshot(B.snapshot(result[1][n]), before[n]):
                fail('{} has no tendencies but changed in the new state', n)
        got = float(result[1]['p']) - float(state['p'])
        if abs(got - 0.25 * len(comps) * 20.) > 1e-9 * (1 + abs(float(state['p']))):
            fail('p changed by {} in one step', got)
    if not B.same_snapshot(before, B.snapshot({k: v for k, v in state.items() if k != 'p'})):
        fail('the state changed')
    cov.label(vehicle)
    cov.nontrivial(any(n in c['inputs'] for c in case['comps'] for d in case['comps'] if d is not c for n in d['diag']))
