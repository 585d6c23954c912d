"""Objects can be shown, copied and pickled at any time."""
import copy
import datetime
import os
import pickle
import sys

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, core, gen as G, step as S
from ..core import Sub, fail

RULE = ('Random time steppers over 1-3 components (some counting their own calls) behind wrappers and composites are '
        'stepped, shown (str, repr), deep-copied and pickled at random points of a history, then original and copies '
        'are stepped in random turns from different states; each must give exactly what an object made afresh and '
        'given its own part of the history gives. Components of all kinds and monitors are shown before and after '
        'use, also when they hold themselves or each other. Non-trivial: something is copied or shown after use.')


# ---------------------------------------------------------------- histories

def importable(cls):
    """pickle finds classes by name"""
    module = sys.modules[__name__]
    name = 'Made{}'.format(len([n for n in vars(module) if n.startswith('Made')]))
    cls.__module__, cls.__qualname__, cls.__name__ = __name__, name, name
    setattr(module, name, cls)
    return cls


def forget():
    for n in [n for n in vars(sys.modules[__name__]) if n.startswith('Made')]:
        delattr(sys.modules[__name__], n)


def counting(comp):
    """The same, returning more the more it was called."""
    cls = type(comp)

    class Counting(cls):
        def __init__(self, *args, **kwargs):
            self.calls = []
            super(Counting, self).__init__(*args, **kwargs)

        def array_call(self, *args):
            out = super(Counting, self).array_call(*args)
            self.calls.append(len(self.calls))
            factor = 1. + len(self.calls) % 3
            return tuple({n: v * factor for n, v in d.items()} for d in out)
    return importable(Counting)()


def dress(comp, kind, layers, dt):
    import sympl
    for layer in layers:
        if layer[0] == 'count':
            if isinstance(comp, B.base_class(kind)) and type(comp).__name__.startswith('Made'):
                comp = counting(comp)
        elif layer[0] == 'update':
            comp = sympl.UpdateFrequencyWrapper(comp, layer[1] * dt)
        elif layer[0] == 'scale':
            group = 'output_properties' if kind == 'stepper' else 'tendency_properties'
            names = sorted(getattr(comp, group))
            kw = {'output_scale_factors' if kind == 'stepper' else 'tendency_scale_factors': {
                n: layer[1] for n in names[:1]}}
            comp = sympl.ScalingWrapper(comp, **kw)
        elif layer[0] == 'composite':
            comp = {'tendency': sympl.TendencyComponentComposite,
                    'implicit': sympl.ImplicitTendencyComponentComposite}[kind](comp)
        elif layer[0] == 'difference' and kind == 'stepper':
            return sympl.TimeDifferencingWrapper(comp)
    return comp


def make(case):
    dt = datetime.timedelta(seconds=case['dt'])
    made = {}
    comps = []
    for c, spec, layers in zip(S.make_components(case, {}, []), case['comps'], case['layers']):
        if id(c) not in made:
            importable(type(c))
            made[id(c)] = dress(c, spec['kind'], layers, dt)
        comps.append(made[id(c)])
    return dress(S.make_stepper(case, comps), 'stepper', case['outer'], dt)


class Player(object):
    """An object and the state it is stepped from."""

    def __init__(self, case, obj):
        self.case, self.obj, self.out = case, obj, []
        self.state = {n: B.data_array(q, case['lens']) for n, q in case['quants'].items()}
        self.state['time'] = B.make_time(case['time'])

    def step(self):
        dt = datetime.timedelta(seconds=self.case['dt'])
        a, b = self.obj(dict(self.state), dt)
        self.out.append((B.snapshot(a), B.snapshot(b)))
        last = self.case['outer'][-1:] == [['difference', 0]]
        new = {} if last else b
        self.state = {k: copy.deepcopy(new.get(k, v)) for k, v in self.state.items()}
        self.state['time'] = self.state['time'] + dt

    def disturb(self, factor):
        for n in self.case['quants']:
            attrs = self.state[n].attrs
            self.state[n] = self.state[n] * factor
            self.state[n].attrs.update(attrs)


METHODS = {'deepcopy': copy.deepcopy, 'pickle': lambda o: pickle.loads(pickle.dumps(o)),
           'protocol 2': lambda o: pickle.loads(pickle.dumps(o, 2)),
           'with others': lambda o: copy.deepcopy({'a': [o], 'b': o})['b'],
           'twice': lambda o: pickle.loads(pickle.dumps(copy.deepcopy(o)))}


def check_history(case, cov):
    try:
        run_history(case, cov)
    finally:
        forget()


def run_history(case, cov):
    players = [Player(case, make(case))]
    parts = [[]]  # what happened to each player, as seen from a fresh object
    copied = False
    for op in case['ops']:
        i = op[1] % len(players)
        p = players[i]
        if op[0] == 'step':
            p.step()
            parts[i].append(['step'])
        elif op[0] == 'disturb':
            p.disturb(op[2])
            parts[i].append(op)
        elif op[0] == 'show':
            before = len(p.out)
            text = [str(p.obj), repr(p.obj)]
            if not all(isinstance(t, str) and t for t in text) or type(p.obj).__name__ not in repr(p.obj):
                fail('shown as {}', text)
            if [str(p.obj), repr(p.obj)] != text:
                fail('shown as {} and then as {}', text, [str(p.obj), repr(p.obj)])
            cov.label('shown after use' if before else 'shown')
        elif op[0] == 'copy' and len(players) < 4:
            new = Player(case, METHODS[op[2]](p.obj))
            if type(new.obj) is not type(p.obj):
                fail('a copy ({}) of a {} is a {}', op[2], type(p.obj).__name__, type(new.obj).__name__)
            if new.obj is p.obj:
                fail('a copy ({}) is the same object', op[2])
            shallow = copy.copy(p.obj)
            if type(shallow) is not type(p.obj):
                fail('a shallow copy of a {} is a {}', type(p.obj).__name__, type(shallow).__name__)
            new.state, new.out = copy.deepcopy(p.state), list(p.out)
            players.append(new)
            parts.append(list(parts[i]))
            copied = copied or bool(p.out)
            cov.label('copied by ' + op[2])
    for k, (p, part) in enumerate(zip(players, parts)):
        fresh = Player(case, make(case))
        for op in part:
            if op[0] == 'step':
                fresh.step()
            else:
                fresh.disturb(op[2])
        for i, (a, b) in enumerate(zip(p.out, fresh.out)):
            if not B.same_snapshot(list(a), list(b)):
                fail('{} of {} objects, step {}: {} where an object without copies gives {}', k, len(players), i, a, b)
    cov.label(case['scheme']['s'], *sorted({x[0] for ls in case['layers'] + [case['outer']] for x in ls}))
    cov.nontrivial(copied or any(op[0] == 'show' for op in case['ops']))


LAYERS = st.one_of(st.just(['count', 0]), st.tuples(st.just('update'), st.integers(0, 3)).map(list),
                   st.tuples(st.just('scale'), st.sampled_from([0.5, 2., -1.])).map(list), st.just(['composite', 0]))
OUTER = st.one_of(st.tuples(st.just('update'), st.integers(0, 3)).map(list),
                  st.tuples(st.just('scale'), st.sampled_from([0.5, 2., -1.])).map(list))


@st.composite
def histories(draw):
    case = draw(S.cases([S.ab, S.ab, S.leapfrog, S.ssprk], dtypes=('float64',), max_runs=1, max_ops=2))
    case['layers'] = [draw(st.lists(LAYERS, max_size=3)) for _ in case['comps']]
    case['outer'] = draw(st.lists(OUTER, max_size=2))
    if draw(st.integers(0, 4)) == 0:
        case['outer'].append(['difference', 0])
    case['dt'] = abs(case['dt'])  # update wrappers do not run backwards
    case['ops'] = []
    for _ in range(draw(st.integers(3, 14))):
        op = [draw(st.sampled_from(['step'] * 6 + ['copy', 'copy', 'show', 'disturb'])), draw(st.integers(0, 3))]
        if op[0] == 'copy':
            op.append(draw(st.sampled_from(sorted(METHODS))))
        elif op[0] == 'disturb':
            op.append(draw(st.sampled_from([0.5, 2., -1., 1.5])))
        case['ops'].append(op)
    return case


# ---------------------------------------------------------------- components

def check_component(case, cov):
    import sympl
    try:
        kind = case['kind']
        dt = C.timestep(case)
        comp = C.make(case)
        importable(type(comp))
        state, values = C.make_state(case), C.state_values(case)
        if case['holds'] == 'itself':
            comp.held = comp
        elif case['holds'] == 'a list with itself':
            comp.held = [comp, {'a': comp}]
        elif case['holds'] == 'another':
            comp.held = C.make(case)
            importable(type(comp.held))
            comp.held.held = comp
        obj = comp
        named = [type(comp).__name__]
        if case['in'] == 'composite' and kind != 'stepper':
            others = [importable(B.make_class(kind, {}, lambda raw, timestep: {})) for _ in range(case['others'])]
            named += [cls.__name__ for cls in others]
            obj = {'tendency': sympl.TendencyComponentComposite, 'implicit': sympl.ImplicitTendencyComponentComposite,
                   'diagnostic': sympl.DiagnosticComponentComposite}[kind](
                       *([cls() for cls in others[1:]] + [comp] + [cls() for cls in others[:1]]))
        elif case['in'] == 'scaling':
            obj = sympl.ScalingWrapper(comp)
        elif case['in'] == 'update':
            obj = sympl.UpdateFrequencyWrapper(comp, datetime.timedelta(0))
        elif case['in'] in STEPPERS and kind in ('tendency', 'implicit'):
            if kind == 'implicit' and case['in'] == 'SSPRungeKutta':
                case = dict(case, **{'in': 'Leapfrog'})
            obj = None
            try:
                obj = getattr(sympl, case['in'])(comp)
            except (sympl.InvalidPropertyDictError, sympl.SharedKeyError):
                cov.label('not for a stepper')  # such as diagnostics that are also stepped
            if obj is None:
                return
            if case['holds']:
                comp.holder = [obj]
                obj.held = {'itself': obj, 'a list with itself': [obj, comp]}.get(case['holds'], comp)
            check_stepper(case, obj, comp, named, cov)
            return
        for what in case['ops']:
            if what == 'show':
                for o in {id(o): o for o in (obj, comp)}.values():
                    for text in (str(o), repr(o)):
                        if type(o).__name__ not in text:
                            fail('a {} is shown as {}', type(o).__name__, text)
                for name in named if case['in'] == 'composite' else []:
                    if name not in repr(obj):
                        fail('{} is not in {}', name, repr(obj))
                for group in ['input_properties', 'diagnostic_properties'] + \
                        ['tendency_properties' if kind in ('tendency', 'implicit') else 'output_properties'] * \
                        (kind != 'diagnostic'):
                    for n in getattr(comp, group):
                        if repr(n) not in str(comp):
                            fail('{} of {} is not in {}', n, group, str(comp))
            elif what == 'call':
                C.check_outputs(case, B.call(obj, kind, state, dt), values, C.tolerance(case))
            else:
                new = METHODS[what](obj)
                if type(new) is not type(obj):
                    fail('a copy ({}) of a {} is a {}', what, type(obj).__name__, type(new).__name__)
                obj = new
        cov.label(kind, 'in {}'.format(case['in']), 'holds {}'.format(case['holds']), *sorted(set(case['ops'])))
        cov.nontrivial()
    finally:
        forget()


STEPPERS = ['AdamsBashforth', 'Leapfrog', 'SSPRungeKutta']


def check_stepper(case, obj, comp, named, cov):
    for what in case['ops']:
        if what not in METHODS:
            text = [str(obj), repr(obj), str(comp), repr(comp)]
            for t, o in zip(text, (obj, obj, comp, comp)):
                if type(o).__name__ not in t:
                    fail('a {} is shown as {}', type(o).__name__, t)
            if named[0] not in text[1]:
                fail('{} is not in {}', named[0], text[1])
            if [str(obj), repr(obj), str(comp), repr(comp)] != text:
                fail('{} is shown differently the second time', text)
        else:
            new = METHODS[what](obj)
            if type(new) is not type(obj) or new is obj:
                fail('a copy ({}) of a {} is {}', what, type(obj).__name__, new)
            comp = new.prognostic_list[0] if hasattr(new, 'prognostic_list') else comp
            obj = new
    cov.label(case['kind'], 'in {}'.format(case['in']), 'holds {}'.format(case['holds']), *sorted(set(case['ops'])))
    cov.nontrivial()


@st.composite
def component_cases(draw):
    case = draw(G.component_cases(linear=True))
    case['ops'] = draw(st.lists(st.sampled_from(['show', 'call', 'show', 'call'] + sorted(METHODS)), min_size=2,
                                max_size=6))
    case['holds'] = draw(st.sampled_from([None, None, 'itself', 'a list with itself', 'another']))
    case['others'] = draw(st.integers(0, 2))
    case['in'] = draw(st.sampled_from([None, None, 'composite', 'scaling', 'update'] + STEPPERS * (
        case['kind'] in ('tendency', 'implicit'))))
    return case


# ---------------------------------------------------------------- monitors

def check_monitor(case, cov):
    import sympl
    folder = core.scratch()
    got = []
    for shown in (False, True):
        path = os.path.join(folder, 'a{}.nc'.format(shown))
        drawn = []
        restart = sympl.RestartMonitor(path)

        class Keep(sympl.Monitor):
            def store(self, state):
                drawn.append(B.snapshot(state))
        keep = Keep()
        monitor = sympl.MonitorComposite(keep, restart)
        objects = [restart, keep, monitor]
        for i, q in enumerate(case['quants']):
            if shown and case['when'][i % len(case['when'])]:
                for o in objects:
                    for text in (str(o), repr(o)):
                        if type(o).__name__ not in text:
                            fail('a {} is shown as {}', type(o).__name__, text)
            monitor.store({'time': B.make_time(case['time']), 'a': B.data_array(q, case['lens'])})
            got.append((shown, B.snapshot(restart.load()), list(drawn)))
    half = len(got) // 2
    for a, b in zip(got[:half], got[half:]):
        if not B.same_snapshot(list(a[1:]), list(b[1:])):
            fail('monitors that were shown stored {} instead of {}', b, a)
    cov.label(*('shown' if w else 'not shown' for w in case['when']))
    cov.nontrivial(any(case['when']))


@st.composite
def monitor_cases(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y']}
    return {'lens': lens, 'time': draw(G.times(calendars=False)),
            'when': draw(st.lists(st.booleans(), min_size=1, max_size=3)),
            'quants': [{'dims': draw(G.subset(['x', 'y'])), 'units': 'm', 'seed': draw(G.seeds)}
                       for _ in range(draw(st.integers(1, 3)))]}


SUBS = [
    Sub('history', histories, check_history, 1170, 20000),
    Sub('component', component_cases, check_component, 1170, 20000),
    Sub('monitor', monitor_cases, check_monitor, 130, 1500),
]
