"""PlotFunctionMonitor draws every stored state once, on a clear figure, from a copy."""

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('Histories of stores into 1-3 monitors (interactive or not, alone or in a composite), with plot functions '
        'that draw, alter their copy of the state (values, attributes, keys), keep it, or fail, and callers that alter '
        'the state between stores; each store must call the function once, with a clear figure and exactly the state '
        'stored, and no alteration may cross. Non-trivial: at least two stores.')


class Fault(Exception):
    pass


ERRORS = {'own': Fault, 'type': TypeError, 'attribute': AttributeError, 'key': KeyError, 'value': ValueError,
          'runtime': RuntimeError}


def alter(state, how):
    for n in list(state):
        if n == 'time':
            continue
        if how == 'values' and state[n].values.flags.writeable:
            state[n].values[...] = state[n].values * 2 + 1
        elif how == 'attrs':
            state[n].attrs['units'] = 'altered'
            state[n].attrs['new'] = 1
        elif how == 'nested attrs':
            state[n].attrs.get('info', {})['altered'] = True
        elif how == 'keys':
            state[n + '_new'] = state.pop(n)
        elif how == 'time':
            state['time'] = None


def check_history(case, cov):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import sympl
    plt.close('all')
    calls = []
    fault = {'on': None}

    def make(i, spec):
        def plot(fig, state):
            calls.append((i, fig, len(fig.axes), len(fig.texts), B.snapshot(state), state))
            if fault['on'] == i:
                raise fault['error']()
            for _ in range(spec['axes']):
                ax = fig.add_subplot(111)
                for n, q in sorted(state.items()):
                    if n != 'time':
                        ax.plot(np.ravel(q.values))
            if spec['text']:
                fig.text(0.5, 0.5, 'state')
            if spec['alter']:
                alter(state, spec['alter'])
        if spec.get('default'):
            return sympl.PlotFunctionMonitor(plot)
        return sympl.PlotFunctionMonitor(plot, interactive=spec['interactive'])
    shown = []
    real_show = plt.show
    plt.show = lambda *args, **kwargs: shown.append(len(calls))
    try:
        monitors = [make(i, spec) for i, spec in enumerate(case['monitors'])]
        for m, spec in zip(monitors, case['monitors']):
            if m.interactive != spec['interactive']:
                fail('interactive is {} for a monitor made with {}', m.interactive, spec['interactive'])
        state = {q['name']: B.data_array(q, case['lens']) for q in case['quants']}
        for n in state:
            state[n].attrs['info'] = {'a': 1}
        state['time'] = B.make_time(case['time'])
        figs = {}
        seen = set()
        kept = []
        for op in case['ops']:
            what, i = op[0], op[1] % (len(monitors) + 1)
            if what == 'alter':
                alter_state = {k: v for k, v in state.items()}
                alter(alter_state, op[2])
                if op[2] == 'keys':
                    state = alter_state
                continue
            fault['on'] = i if what == 'fail' and i < len(monitors) else None
            fault['error'] = ERRORS[op[3]]
            del calls[:], shown[:]
            before = B.snapshot(state)
            objects = dict(state)
            if i < len(monitors):
                expect = [i]
                if fault['on'] is not None:
                    B.expect_raises(fault['error'], lambda: monitors[i].store(state), 'a plot function that fails')
                else:
                    monitors[i].store(state)
            else:
                expect = list(range(len(monitors)))
                sympl.MonitorComposite(*monitors).store(state)
            if [c[0] for c in calls] != expect:
                fail('the plot functions called were {} where {} were expected', [c[0] for c in calls], expect)
            alone = [k for k in expect if not case['monitors'][k]['interactive'] and fault['on'] != k]
            if [k for k in alone if expect.index(k) + 1 not in shown]:
                fail('a monitor that is not interactive drew a figure and did not show it')
            for k, fig, axes, texts, given, obj in calls:
                if axes or texts:
                    fail('the figure given to the plot function has {} axes and {} texts left on it', axes, texts)
                if not B.same_snapshot(given, before):
                    fail('the plot function was given {} where {} was stored', given, before)
                if case['monitors'][k]['interactive']:
                    if figs.setdefault(k, fig) is not fig:
                        fail('an interactive monitor changed its figure')
                    if any(f is fig for j, f in figs.items() if j != k):
                        fail('two interactive monitors share a figure')
                else:
                    if id(fig) in seen or any(f is fig for f in figs.values()):
                        fail('a monitor that is not interactive used a figure again')
                    seen.add(id(fig))
                    kept.append((fig, None, None))
                if obj is state:
                    fail('the plot function was given the state itself')
            if set(state) != set(objects) or any(state[n] is not objects[n] for n in objects) or \
                    not B.same_snapshot(B.snapshot(state), before):
                fail('storing changed the state from {} to {}', before, B.snapshot(state))
            for k, fig, _, _, given, obj in calls:
                # what the plot function kept does not change with the state any more
                kept.append((fig, B.snapshot(obj), obj))
        for fig, snap, obj in kept:
            if obj is not None and not B.same_snapshot(B.snapshot(obj), snap):
                fail('a state kept by the plot function changed from {} to {}', snap, obj)
    finally:
        plt.show = real_show
        plt.close('all')
        plt.ioff()
    stores = sum(op[0] != 'alter' for op in case['ops'])
    cov.label(*['interactive' if s['interactive'] else 'not interactive' for s in case['monitors']])
    cov.nontrivial(stores > 1)


@st.composite
def history_cases(draw):
    kinds = ['values', 'attrs', 'nested attrs', 'keys', 'time']
    monitors = [{'interactive': draw(st.booleans()), 'axes': draw(st.integers(0, 1)), 'text': draw(st.booleans()),
                 'alter': draw(st.sampled_from([None] + kinds))} for _ in range(draw(st.integers(1, 2)))]
    for m in monitors:
        # interactive is what a monitor is when nothing is said
        m['default'] = m['interactive'] and draw(st.booleans())
    quants = [{'name': n, 'dims': draw(G.subset(['x', 'y'])), 'units': 'm', 'seed': draw(G.seeds),
               'dtype': draw(st.sampled_from(['float64', 'float32', 'int64']))}
              for n in draw(G.subset(['a', 'b'], min_size=1))]
    ops = [[draw(st.sampled_from(['store', 'store', 'store', 'fail', 'alter'])), draw(st.integers(0, 2)),
            draw(st.sampled_from(kinds[:4])), draw(st.sampled_from(sorted(ERRORS)))] for _ in range(draw(st.integers(1, 5)))]
    return {'monitors': monitors, 'quants': quants, 'ops': ops, 'time': draw(G.times()),
            'lens': {d: draw(G.lengths) for d in 'xy'}}


SUBS = [Sub('history', history_cases, check_history, 1440, 4000)]
