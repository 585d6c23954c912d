"""Whatever implements a kind of component is usable as one, and as no other."""
import copy
import datetime
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G, step as S
from ..core import Sub, fail

RULE = ('Random components of all kinds in random disguises (an object that only has the attributes and call '
        'signature, a subclass of a subclass, update wrappers with interval zero, scaling wrappers without factors, '
        'composites of one, nested up to three deep) must give what the plain component gives, alone, in composites, '
        'behind wrappers and in time steppers. Objects with every subset of the interface are recognised exactly when '
        'it is that of the kind. Non-trivial: at least one component is disguised.')

OUT = {'tendency': ['tendency_properties'], 'implicit': ['tendency_properties'], 'diagnostic': [],
       'stepper': ['output_properties']}
PROPS = ['input_properties', 'diagnostic_properties', 'tendency_properties', 'output_properties']
TIMED = ('implicit', 'stepper')


def interface(kind):
    return ['input_properties', 'diagnostic_properties'] + OUT[kind]


def duck(inner, kind, default=False):
    """An object with the interface of a component, and no sympl base class."""
    class Duck(object):
        name = 'duck'
        tendencies_in_diagnostics = False

        def array_call(self, *args):
            return inner.array_call(*args)

        if default:
            def __call__(self, state, timestep=None):
                return inner(state, timestep) if kind in TIMED else inner(state)
        elif kind in TIMED:
            def __call__(self, state, timestep):
                return inner(state, timestep)
        else:
            def __call__(self, state):
                return inner(state)
    obj = Duck()
    for attr in interface(kind):
        setattr(obj, attr, getattr(inner, attr))
    if kind == 'diagnostic':  # has no such option
        del Duck.tendencies_in_diagnostics
    return obj


def disguise(inner, kind, layers):
    import sympl
    for layer in layers:
        if layer == 'duck':
            inner = duck(inner, kind)
        elif layer == 'duck default':
            inner = duck(inner, kind, True)
        elif layer == 'update':
            inner = sympl.UpdateFrequencyWrapper(inner, datetime.timedelta(0))
        elif layer == 'scale':
            inner = sympl.ScalingWrapper(inner)
        elif layer == 'composite':
            cls = {'tendency': sympl.TendencyComponentComposite, 'implicit': sympl.ImplicitTendencyComponentComposite,
                   'diagnostic': sympl.DiagnosticComponentComposite}.get(kind)
            if cls is not None:
                inner = cls(inner)
    return inner


LAYERS = ['duck', 'duck default', 'update', 'scale', 'composite']
layer_lists = st.lists(st.sampled_from(LAYERS), max_size=3)


# ---------------------------------------------------------------- alone and in composites

def check_alone(case, cov):
    import sympl
    kind = case['kind']
    dt = C.timestep(case)
    state = C.make_state(case)
    plain = C.make(case)
    inner = C.make(case)
    if case['subclass']:
        inner = type('Sub', (type(inner),), {})()
    dressed = disguise(inner, kind, case['layers'])
    base = B.base_class(kind)
    if not isinstance(dressed, base):
        fail('a {} disguised as {} is not recognised as one', base.__name__, case['layers'])
    for attr in PROPS if 'composite' not in case['layers'] else []:  # those are the subject of C12
        want = getattr(plain, attr, None)
        got = getattr(dressed, attr, None)
        if got != want:
            fail('{} of a {} disguised as {} are {} where {} were expected', attr, kind, case['layers'], got, want)
    how = case['how']
    if how == 'composite' and kind == 'stepper':
        how = 'difference'
    call_kind = kind

    def outer(c):
        if how == 'composite':
            return {'tendency': sympl.TendencyComponentComposite, 'implicit': sympl.ImplicitTendencyComponentComposite,
                    'diagnostic': sympl.DiagnosticComponentComposite}[kind](c)
        if how == 'implicit composite' and kind == 'tendency':
            return sympl.ImplicitTendencyComponentComposite(c)
        return c
    if how == 'implicit composite' and kind == 'tendency':
        call_kind = 'implicit'
    values = C.state_values(case)
    if how == 'difference':
        if any(o['name'] not in state for o in case['groups']['output']):
            how = 'alone'
    if how == 'difference':
        got = sympl.TimeDifferencingWrapper(dressed)(state, dt)
        want = sympl.TimeDifferencingWrapper(plain)(state, dt)
        if not B.same_snapshot(B.snapshot(got), B.snapshot(want)):
            fail('the time difference of a stepper disguised as {} is {} where {} was expected', case['layers'], got,
                 want)
    else:
        obj = outer(dressed)
        for _ in range(2):
            got = B.call(obj, call_kind, state, dt)
            C.check_outputs(case, got, values, C.tolerance(case))
    cov.label(kind, how, *sorted(set(case['layers'])))
    cov.nontrivial(bool(case['layers']) or case['subclass'])


@st.composite
def alone_cases(draw):
    case = draw(G.component_cases(linear=True))
    case['layers'] = draw(layer_lists)
    case['subclass'] = draw(st.booleans())
    case['how'] = draw(st.sampled_from(['alone', 'composite', 'implicit composite']))
    if case['kind'] == 'stepper':  # differences are by name
        have = {q['name']: q for q in case['inputs']}
        for o in case['groups']['output']:
            if o['name'] in have and o['dims'] is not None and not set(have[o['name']]['pdims']) <= set(o['dims']):
                o['dims'] = list(have[o['name']]['pdims'])
                o.pop('newlen', None)
    return case


# ---------------------------------------------------------------- in time steppers

def check_stepped(case, cov):
    import sympl
    dt = datetime.timedelta(seconds=case['dt'])
    runs = []
    for dressed in (False, True):
        comps = S.make_components(case, {}, [])
        if dressed:
            comps = [disguise(c, spec['kind'], layers)
                     for c, spec, layers in zip(comps, case['comps'], case['layers'])]
        if case['join'] and len(comps) > 1:
            comps = [sympl.ImplicitTendencyComponentComposite(*comps)]
        stepper = S.make_stepper(case, comps)
        if dressed:
            stepper = disguise(stepper, 'stepper', case['outer'])
        state = {n: B.data_array(q, case['lens']) for n, q in case['quants'].items()}
        state['time'] = B.make_time(case['time'])
        out = []
        for _ in range(case['steps']):
            diagnostics, new = stepper(state, dt)
            out.append((B.snapshot(diagnostics), B.snapshot(new)))
            state = {k: copy.deepcopy(v) for k, v in new.items()}
            state['time'] = state['time'] + dt
        runs.append(out)
    for i, (a, b) in enumerate(zip(*runs)):
        for what, x, y in zip(('diagnostics', 'new state'), a, b):
            if set(x) != set(y):
                fail('step {}: the {} have {} or, with components disguised as {}, {}', i, what, sorted(x),
                     case['layers'], sorted(y))
            for n in x:
                if not same(x[n], y[n]):
                    fail('step {}: {} in the {} is {} or, with components disguised as {}, {}', i, n, what, x[n],
                         case['layers'], y[n])
    cov.label(case['scheme']['s'], *sorted({x for ls in case['layers'] for x in ls}))
    cov.nontrivial(any(case['layers']) or bool(case['outer']))


def same(a, b):
    if isinstance(a, tuple) and a[0] == 'da' and isinstance(b, tuple) and b[0] == 'da':
        return a[1] == b[1] and a[3] == b[3] and B.close(b[2], a[2], rtol=1e-6, atol=1e-6)
    return B.same_snapshot(a, b)


@st.composite
def stepped_cases(draw):
    case = draw(S.cases([S.ab, S.leapfrog, S.ssprk], dtypes=('float64',), max_runs=1, max_ops=2))
    case['layers'] = [draw(layer_lists) for _ in case['comps']]
    case['outer'] = draw(st.lists(st.sampled_from(['duck', 'duck default', 'update', 'scale']), max_size=2))
    case['join'] = draw(st.booleans())
    case['steps'] = draw(st.integers(1, 4))
    case['dt'] = abs(case['dt'])  # update wrappers do not run backwards
    case['tid'] = False
    return case


# ---------------------------------------------------------------- recognition

CALLS = {
    # call signature: is it one of a timed, of an untimed component?
    'none': (False, True, lambda self, state: None),
    'required': (True, False, lambda self, state, timestep: None),
    'optional': (True, True, lambda self, state, timestep=None: None),
    'optional first': (True, True, lambda self, state, timestep=None, verbose=True: None),
    'optional last': (True, True, lambda self, state, verbose=True, timestep=None: None),
    'with default': (True, False, lambda self, state, timestep=60.: None),
    'with default first': (True, False, lambda self, state, timestep=60., verbose=None: None),
    'required, more': (True, False, lambda self, state, timestep, verbose=None: None),
    'keyword only': (False, True, lambda self, state, *, timestep=None: None),
    'none, more': (False, True, lambda self, state, verbose=None: None),
}


def recognition_cases():
    """Every subset of property dictionaries, with and without the methods and the timestep."""
    out = []
    for n in range(5):
        for props in itertools.combinations(PROPS, n):
            for missing in (None, '__call__', 'array_call'):
                for timestep in CALLS:
                    for level in ('class', 'instance'):
                        out.append({'props': list(props), 'missing': missing, 'timestep': timestep, 'level': level})
    return out


def check_recognition(case, cov):
    import sympl
    body = {}
    if case['missing'] != '__call__':
        body['__call__'] = CALLS[case['timestep']][2]
    if case['missing'] != 'array_call':
        body['array_call'] = lambda self, state: None
    if case['level'] == 'class':
        body.update({p: {} for p in case['props']})
    kinds = []
    for kind, option in itertools.product(B.KINDS, (False, True)):
        extra = dict(body, name='x')
        if option:  # all kinds but diagnostic components have this property
            extra['tendencies_in_diagnostics'] = False
        obj = type('Candidate', (object,), extra)()
        if case['level'] == 'instance':
            for p in case['props']:
                setattr(obj, p, {})
        want = (case['missing'] is None and option == (kind != 'diagnostic') and sorted(interface(kind)) == sorted(case['props']) and
                CALLS[case['timestep']][0 if kind in TIMED else 1])
        got = isinstance(obj, B.base_class(kind))
        if got != want:
            fail('an object with {} and a call with timestep {} (missing: {}) is{} recognised as {}', case['props'],
                 case['timestep'], case['missing'], '' if got else ' not', B.base_class(kind).__name__)
        kinds.append(got)
        other = B.make_class(kind, {}, lambda raw, dt: {}, class_name='Other')
        for cls in [other] + [getattr(sympl, n) for n in ('AdamsBashforth', 'TimeDifferencingWrapper',
                                                           'ConstantDiagnosticComponent', 'RelaxationTendencyComponent')]:
            if isinstance(obj, cls):
                fail('an object with {} that does not inherit is recognised as {}', case['props'], cls.__name__)
    cov.label('recognised' if any(kinds) else 'not recognised')
    cov.nontrivial()


def kind_cases():
    return [{'kind': k, 'what': w} for k in B.KINDS for w in
            ('direct', 'subclass', 'composite', 'ab', 'leapfrog', 'ssprk', 'timediff', 'constant', 'relaxation',
             'plus tendency_properties', 'plus output_properties', 'plus both', 'own call', 'own call with default',
             'own call without arguments', 'ab subclass', 'leapfrog subclass', 'ssprk subclass')]


def check_kinds(case, cov):
    """What inherits from one kind is an instance of that kind only."""
    import sympl
    kind, what = case['kind'], case['what']
    leaf = B.make_class(kind, {}, lambda raw, dt: {})
    obj = None
    if what == 'direct':
        obj, want = leaf(), kind
    elif what == 'subclass':
        obj, want = type('Sub', (leaf,), {})(), kind
    elif what.startswith('plus'):
        more = ['tendency_properties', 'output_properties'] if what == 'plus both' else [what.split()[1]]
        obj, want = type('Sub', (leaf,), {a: {} for a in more if a not in interface(kind)})(), kind
    elif what.startswith('own call'):
        calls = {'own call': lambda self, state, **more: None,
                 'own call with default': lambda self, state, timestep=datetime.timedelta(1): None,
                 'own call without arguments': lambda self, *args: None}
        obj, want = type('Sub', (leaf,), {'__call__': calls[what]})(), kind
    elif what.endswith(' subclass') and kind in ('tendency', 'implicit'):
        cls = {'ab': sympl.AdamsBashforth, 'leapfrog': sympl.Leapfrog, 'ssprk': sympl.SSPRungeKutta}[what.split()[0]]
        obj, want = type('Sub', (cls,), {'__call__': lambda self, state, *args: None})(leaf()), 'stepper'
    elif what == 'composite' and kind != 'stepper':
        obj = {'tendency': sympl.TendencyComponentComposite, 'implicit': sympl.ImplicitTendencyComponentComposite,
               'diagnostic': sympl.DiagnosticComponentComposite}[kind](leaf())
        want = kind
    elif what in ('ab', 'leapfrog', 'ssprk') and kind in ('tendency', 'implicit'):
        obj = {'ab': sympl.AdamsBashforth, 'leapfrog': sympl.Leapfrog, 'ssprk': sympl.SSPRungeKutta}[what](leaf())
        want = 'stepper'
        if not isinstance(obj, sympl.TendencyStepper):
            fail('{} is not a TendencyStepper', what)
    elif what == 'timediff' and kind == 'stepper':
        obj, want = sympl.TimeDifferencingWrapper(leaf()), 'implicit'
    elif what == 'constant' and kind == 'tendency':
        obj, want = sympl.ConstantTendencyComponent({}), 'tendency'
    elif what == 'constant' and kind == 'diagnostic':
        obj, want = sympl.ConstantDiagnosticComponent({}), 'diagnostic'
    elif what == 'relaxation' and kind == 'tendency':
        obj, want = sympl.RelaxationTendencyComponent('a', 'm'), 'tendency'
    if obj is None:
        return
    got = [k for k in B.KINDS if isinstance(obj, B.base_class(k))]
    if got != [want]:
        fail('{} ({}) is an instance of {} where only {} was expected', what, kind, got, want)
    other = B.make_class(kind, {}, lambda raw, dt: {}, class_name='Other')
    if isinstance(obj, other):
        fail('{} ({}) is an instance of an unrelated class', what, kind)
    if isinstance(obj, sympl.Monitor):
        fail('{} ({}) is an instance of Monitor', what, kind)
    cov.label(want)
    cov.nontrivial()


SUBS = [
    Sub('alone', alone_cases, check_alone, 3000, 25000),
    Sub('stepped', stepped_cases, check_stepped, 1250, 10000),
    Sub('recognition', None, check_recognition, 1, 1, enum=recognition_cases),
    Sub('kinds', None, check_kinds, 1, 1, enum=kind_cases),
]
