"""Composites compute what their components compute, summed."""
import datetime
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G, same
from ..core import Sub, fail

RULE = ('Random sets of 1-4 components with overlapping tendencies in different units, dims, dim orders and dtypes, '
        'in any order and nesting of composites; the oracle adds the tendencies by dimension name in SI units. '
        'Also diagnostics, clashing diagnostics, monitors and every pairing of composite and component types. '
        'Non-trivial: a quantity with tendencies from more than one component, or more than one component.')

DT = datetime.timedelta(seconds=30)


# ---------------------------------------------------------------- sums

@st.composite
def sum_cases(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y', 'z']}
    quants = {}
    for n in draw(G.subset(['a', 'b', 'c'], min_size=1)):
        quants[n] = {'fam': draw(st.sampled_from(['length', 'pressure', 'ratio', 'mass'])),
                     'style': draw(st.sampled_from(['explicit', 'wild'])),
                     'dims': sorted(draw(G.subset(['x', 'y', 'z'])))}
        if draw(st.booleans()):  # all components use the same units
            quants[n]['units'] = [draw(st.sampled_from(sorted(B.LINEAR[quants[n]['fam']]))), draw(st.sampled_from(['s', 'hr']))]
    comps = []
    for i in range(draw(st.integers(1, 4))):
        c = {'kind': draw(st.sampled_from(['tendency', 'tendency', 'implicit'])), 'tend': {}, 'diag': {},
             'wild': draw(G.subset(['x', 'y', 'z']))}
        for n in draw(G.subset(sorted(quants), min_size=0)):
            q = quants[n]
            dims = list(draw(G.permuted(q['dims']))) if q['style'] == 'explicit' else ['*']
            c['tend'][n] = {'dims': dims, 'base': draw(st.sampled_from(sorted(B.LINEAR[q['fam']]))),
                            'tunit': draw(st.sampled_from(['s', 's', 'hr'])), 'seed': draw(G.seeds),
                            'dtype': draw(st.sampled_from(['float64', 'float64', 'float32', 'int64']))}
            c['tend'][n]['third'] = draw(st.booleans())
            if 'units' in q:
                c['tend'][n]['base'], c['tend'][n]['tunit'] = q['units']
        if draw(st.booleans()):
            c['diag']['d{}'.format(i)] = {'alias': draw(st.sampled_from([None, None, 'q', 'd'])), 'dims': draw(G.subset(['x', 'y', 'z'])), 'units': 'm', 'seed': draw(G.seeds)}
        # what this component calls them; others may call theirs the same
        c['alias'] = {n: a for n, a in zip(sorted(c['tend']), draw(G.permuted(['q', 'T', 'u'])))
                      if draw(st.integers(0, 2)) == 0}
        comps.append(c)
    return {'lens': lens, 'comps': comps, 'shape': draw(st.lists(st.integers(1, 3), max_size=2)),
            'time': draw(G.times()), 'calls': draw(st.integers(1, 2))}


def term(t, shape):
    v = B.values(t['seed'], shape, t['dtype'])
    return v / 3. if t['dtype'] == 'float64' and t.get('third') else v


def make_component(i, c, lens):
    """A component with constant tendencies; '*' is shown by an input of its own."""
    wild = c['wild']
    uses = any('*' in t['dims'] for t in c['tend'].values())
    name = 'shape{}'.format(i)
    props = {'input': {name: {'dims': ['*'], 'units': 'm'}} if uses else {},
             'tendency': {n: {'dims': list(t['dims']), 'units': B.per_time(t['base'], t['tunit'])}
                          for n, t in c['tend'].items()},
             'diagnostic': {n: {'dims': list(d['dims']), 'units': d['units']} for n, d in c['diag'].items()}}
    alias = dict(c['alias'])
    alias.update({n: d['alias'] for n, d in c['diag'].items() if d['alias']})
    for n, a in alias.items():
        props['tendency' if n in c['tend'] else 'diagnostic'][n]['alias'] = a

    def raw_dims(dims):
        return list(wild) if dims == ['*'] else list(dims)

    def func(raw, timestep):
        out = {'tendency': {}, 'diagnostic': {}}
        for n, t in c['tend'].items():
            v = term(t, [lens[d] for d in raw_dims(t['dims'])])
            out['tendency'][alias.get(n, n)] = v.reshape(-1) if t['dims'] == ['*'] else v
        for n, d in c['diag'].items():
            out['diagnostic'][alias.get(n, n)] = B.values(d['seed'], [lens[x] for x in d['dims']])
        if timestep is not None and timestep != DT:
            fail('an implicit component was given the timestep {} instead of {}', timestep, DT)
        return out
    return B.make_class(c['kind'], props, func)(), (name if uses else None), raw_dims


def check_sum(case, cov):
    import sympl
    lens = case['lens']
    comps, state = [], {'time': B.make_time(case['time'])}
    terms = {}
    for i, c in enumerate(case['comps']):
        comp, name, raw_dims = make_component(i, c, lens)
        comps.append(comp)
        if name:
            state[name] = B.data_array({'dims': c['wild'], 'units': 'm', 'seed': i}, lens)
        for n, t in c['tend'].items():
            dims = raw_dims(t['dims'])
            v = term(t, [lens[d] for d in dims]).astype(float)
            f, e = B.parse_units(B.per_time(t['base'], t['tunit']))
            terms.setdefault(n, []).append((dims, v * f, e, t['dtype'], f))
    implicit = any(c['kind'] == 'implicit' for c in case['comps'])

    def build(items, top):
        items = list(items)
        out = []
        for size in (case['shape'] if top else []):
            part, items = items[:size], items[size:]
            if part:
                out.append(build(part, False))
        cls = sympl.ImplicitTendencyComponentComposite if implicit else sympl.TendencyComponentComposite
        return cls(*(out + items))
    composite = build(comps, True)
    before = B.snapshot(state)
    for _ in range(case['calls']):
        tendencies, diagnostics = composite(state, DT) if implicit else composite(state)
    if not B.same_snapshot(before, B.snapshot(state)):
        fail('the state changed')
    if set(tendencies) != set(terms) or set(composite.tendency_properties) != set(terms):
        fail('tendencies are {}, declared {}, expected {}', sorted(tendencies), sorted(composite.tendency_properties),
             sorted(terms))
    for n, parts in terms.items():
        dims = sorted({d for p in parts for d in p[0]})
        total = 0.
        scale = 0.
        for d, v, e, _, _ in parts:
            total = total + B.broadcast(v, d, dims, lens)
            scale += B.top(v)
        try:
            f, e = B.parse_units(tendencies[n].attrs['units'])
        except KeyError:
            fail('the tendency of {} has units {}', n, tendencies[n].attrs.get('units'))
        if e != parts[0][2]:
            fail('the tendency of {} has units {}', n, tendencies[n].attrs['units'])
        said = composite.tendency_properties[n]
        try:
            described = B.parse_units(said['units']) == (f, e)
        except KeyError:
            described = False
        if not described:
            fail('the tendency of {} is declared in {} and returned in {}', n, said['units'],
                 tendencies[n].attrs['units'])
        if '*' not in said['dims'] and set(said['dims']) != set(tendencies[n].dims):
            fail('the tendency of {} is declared with dims {} and returned with {}', n, said['dims'],
                 tendencies[n].dims)
        got = np.asarray(B.by_name(tendencies[n], dims), dtype=float) * f
        single = sum(p[3] == 'float32' for p in parts)
        # one number of single precision among others of double precision does not make the sum less precise
        exact = not single or (single == 1 and len(parts) > 1 and len({p[4] for p in parts}) == 1)
        rtol = 1e-9 if exact else 1e-5
        if not B.close(got, total, rtol=rtol, atol=rtol, scale=scale + 1e-300):
            fail('the sum of the tendencies of {} is {} but {} was expected (SI)', n, got.tolist(), total.tolist())
    want = {n: d for c in case['comps'] for n, d in c['diag'].items()}
    if set(diagnostics) != set(want) or set(composite.diagnostic_properties) != set(want):
        fail('diagnostics are {}, declared {}, expected {}', sorted(diagnostics),
             sorted(composite.diagnostic_properties), sorted(want))
    for n, d in want.items():
        if tuple(diagnostics[n].dims) != tuple(d['dims']) or diagnostics[n].attrs.get('units') != d['units'] or \
                not np.array_equal(diagnostics[n].values, B.values(d['seed'], [lens[x] for x in d["dims"]]), equal_nan=True):
            fail('diagnostic {} of a composite is {}', n, diagnostics[n])
    cov.label('components: {}'.format(len(comps)), 'nested' if case['shape'] else 'flat')
    if any(len({tuple(sorted(p[0])) for p in ps}) > 1 for ps in terms.values()):
        cov.label('terms with different dims')
    cov.nontrivial(any(len(p) > 1 for p in terms.values()))


# ---------------------------------------------------------------- diagnostics

def check_diagnostics(case, cov):
    import sympl
    state = {'time': B.make_time(case['time'])}
    comps, alone = [], []
    for i, sub in enumerate(case['parts']):
        sub = dict(sub, time=case['time'])
        for q in sub['inputs']:  # inputs private to each component
            q['name'] = q['name'] + str(i)
        for o in sub['groups']['diagnostic']:
            if any(o['name'] + str(i) == q['name'] for q in sub['inputs']) and o['dims'] is None:
                o['name'] = o['name'] + str(i)
        state.update({k: v for k, v in C.make_state(sub).items() if k != 'time'})
        comps.append(C.make(sub))
        alone.append(sub)
    names = [o['name'] for s in alone for o in s['groups']['diagnostic']]
    if len(set(names)) < len(names):
        B.expect_raises(sympl.SharedKeyError, lambda: sympl.DiagnosticComponentComposite(*comps),
                        'two components with the same diagnostic')
        cov.label('shared diagnostic')
        cov.nontrivial()
        return
    composite = sympl.DiagnosticComponentComposite(*comps)
    want = {}
    for comp in comps:
        want.update(comp(state))
    before = B.snapshot(state)
    got = composite(state)
    if not B.same_snapshot(B.snapshot(got), B.snapshot(want)):
        fail('diagnostics of the composite are {} but of its components {}', got, want)
    if not B.same_snapshot(before, B.snapshot(state)):
        fail('the state changed')
    for c in (composite, sympl.DiagnosticComponentComposite(composite)):
        if set(c.diagnostic_properties) != set(names) or \
                set(c.input_properties) != {q['name'] for s in alone for q in s['inputs']}:
            fail('declared properties of the composite: {} and {}', sorted(c.input_properties),
                 sorted(c.diagnostic_properties))
    cov.label('components: {}'.format(len(comps)))
    cov.nontrivial(len(comps) > 1)


@st.composite
def diagnostic_cases(draw):
    n = draw(st.integers(1, 3))
    parts = []
    for i in range(n):
        part = draw(G.component_cases(kinds=['diagnostic'], max_inputs=2, alias=False))
        if draw(st.integers(0, 3)):
            for k, o in enumerate(part['groups']['diagnostic']):  # mostly no clash
                if o['name'] in G.OUT_NAMES:
                    o['name'] = '{}{}{}'.format(o['name'], 'ijk'[i], k)
        # outputs named like an input keep their own dims; inputs get renamed
        for o in part['groups']['diagnostic']:
            if o['dims'] is None:
                o['dims'] = [q for q in part['inputs'] if q['name'] == o['name']][0]['pdims']
        parts.append(part)
    lens = parts[0]['lens']
    for p in parts:
        p['lens'] = lens
    return {'parts': parts, 'time': draw(G.times())}


# ---------------------------------------------------------------- clashes and types

def check_clash(case, cov):
    import sympl
    comps = []
    for i, names in enumerate(case['diags']):
        props = {'diagnostic': {n: {'dims': ['x'], 'units': 'm'} for n in names}}
        comps.append(B.make_class(case['kinds'][i], props, lambda raw, dt: {})())
    flat = [n for names in case['diags'] for n in names]
    cls = sympl.TendencyComponentComposite if set(case['kinds']) == {'tendency'} \
        else sympl.ImplicitTendencyComponentComposite
    makers = [lambda: cls(*comps)]
    if cls is sympl.TendencyComponentComposite or True:
        makers += [lambda: sympl.AdamsBashforth(*comps), lambda: sympl.Leapfrog(*comps)]
    for make in makers:
        if len(set(flat)) < len(flat):
            B.expect_raises(sympl.SharedKeyError, make, 'components with shared diagnostics {}'.format(case['diags']))
        else:
            made = make()
            if set(made.diagnostic_properties) != set(flat):
                fail('declared diagnostics are {} for components with {}', sorted(made.diagnostic_properties),
                     case['diags'])
    cov.label('clash' if len(set(flat)) < len(flat) else 'no clash')
    cov.nontrivial(len(comps) > 1)


@st.composite
def clash_cases(draw):
    n = draw(st.integers(1, 4))
    return {'diags': [sorted(draw(G.subset(['p', 'q', 'r', 's'], max_size=2))) for _ in range(n)],
            'kinds': [draw(st.sampled_from(['tendency', 'implicit'])) for _ in range(n)]}


ITEMS = ['tendency', 'implicit', 'diagnostic', 'stepper', 'monitor', 'object', 'none', 'update(tendency)',
         'update(implicit)', 'update(diagnostic)', 'update(stepper)', 'scale(tendency)', 'scale(diagnostic)',
         'scale(stepper)', 'scale(update(tendency))', 'composite(tendency)', 'composite(implicit)',
         'composite(diagnostic)', 'stepper(ab)', 'timediff']
COMPOSITES = {'tendency': 'TendencyComponentComposite', 'implicit': 'ImplicitTendencyComponentComposite',
              'diagnostic': 'DiagnosticComponentComposite', 'monitor': 'MonitorComposite'}
ACCEPT = {
    'tendency': {'tendency', 'update(tendency)', 'scale(tendency)', 'scale(update(tendency))', 'composite(tendency)'},
    'implicit': {'tendency', 'implicit', 'update(tendency)', 'update(implicit)', 'scale(tendency)',
                 'scale(update(tendency))', 'composite(tendency)', 'composite(implicit)', 'timediff'},
    'diagnostic': {'diagnostic', 'update(diagnostic)', 'scale(diagnostic)', 'composite(diagnostic)'},
    'monitor': {'monitor'},
}
# a wrapper around an implicit component has an optional timestep, so its type is not known before it is called
UNDECIDED = {('tendency', 'update(implicit)')}


def make_item(item):
    import sympl

    def leaf(kind):
        return B.make_class(kind, {}, lambda raw, dt: {})()
    if item in B.KINDS:
        return leaf(item)
    if item == 'monitor':
        class M(sympl.Monitor):
            def store(self, state):
                pass
        return M()
    if item == 'object':
        return object()
    if item == 'none':
        return None
    if item == 'stepper(ab)':
        return sympl.AdamsBashforth(leaf('tendency'))
    if item == 'timediff':
        return sympl.TimeDifferencingWrapper(leaf('stepper'))
    outer, inner = item[:-1].split('(', 1)
    if outer == 'update':
        return sympl.UpdateFrequencyWrapper(make_item(inner), datetime.timedelta(seconds=1))
    if outer == 'scale':
        return sympl.ScalingWrapper(make_item(inner))
    return getattr(sympl, COMPOSITES[inner])(make_item(inner))


def check_types(case, cov):
    import sympl
    cls = getattr(sympl, COMPOSITES[case['composite']])
    item = make_item(case['item'])
    if case['with']:
        args = (make_item(case['composite'] if case['composite'] in ('tendency', 'implicit', 'diagnostic', 'monitor')
                          else 'tendency'), item)
    else:
        args = (item,)
    if case['reverse']:
        args = args[::-1]
    if case['item'] in ACCEPT[case['composite']]:
        cls(*args)
    else:
        B.expect_raises(TypeError, lambda: cls(*args), '{} of a {}'.format(cls.__name__, case['item']))
    # time steppers take what the implicit composite takes
    if case['composite'] == 'implicit':
        for stepper in (sympl.AdamsBashforth, sympl.Leapfrog, sympl.SSPRungeKutta):
            if case['item'] in ACCEPT['implicit']:
                stepper(*args)
            else:
                B.expect_raises(TypeError, lambda: stepper(*args), '{} of a {}'.format(stepper.__name__, case['item']))
    cov.label(case['composite'])
    cov.nontrivial()


def type_cases():
    return [{'composite': c, 'item': i, 'with': w, 'reverse': r}
            for c, i, w, r in itertools.product(sorted(COMPOSITES), ITEMS, [False, True], [False, True])
            if (c, i) not in UNDECIDED and (w or not r)]


# ---------------------------------------------------------------- monitors

class MonitorFault(Exception):
    pass


def check_monitors(case, cov):
    import sympl
    log = []

    def make(i):
        class M(sympl.Monitor):
            def store(self, state):
                log.append((i, state))
                if i == case['fails']:
                    raise MonitorFault()
        return M()
    n = case['n']
    composite = sympl.MonitorComposite(*[make(i) for i in range(n)])
    states = [{'time': datetime.timedelta(seconds=k)} for k in range(case['stores'])]
    for k, s in enumerate(states):
        del log[:]
        if case['fails'] < n:
            B.expect_raises(MonitorFault, lambda: composite.store(s), 'a monitor that fails')
        else:
            composite.store(s)
            if [i for i, _ in log] != list(range(n)):
                fail('{} monitors were called in the order {}', n, [i for i, _ in log])
        if any(x != s for _, x in log):
            fail('a monitor was given another state')
    cov.nontrivial(n > 1)


@st.composite
def monitor_cases(draw):
    return {'n': draw(st.integers(0, 4)), 'stores': draw(st.integers(1, 3)), 'fails': draw(st.integers(0, 8))}


SUBS = [
    Sub('sum', sum_cases, check_sum, 3600, 40000),
    Sub('diagnostics', diagnostic_cases, check_diagnostics, 1200, 12000),
    Sub('same_state', lambda: same.cases(['diagnostics', 'tendencies', 'implicit']), same.check, 600, 6000),
    Sub('clash', clash_cases, check_clash, 750, 5000),
    Sub('types', None, check_types, 1, 1, enum=type_cases),
    Sub('monitors', monitor_cases, check_monitors, 220, 1000),
]
