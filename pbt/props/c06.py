"""Tendencies put in diagnostics are the tendencies, and change nothing else."""
import copy
import datetime

import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G, step as S
from ..core import Sub, fail

RULE = ('Random tendency, implicit tendency and stepper components (wildcards, aliases, units, implied dims, own time '
        'unit) run with and without tendencies_in_diagnostics, alone and in composites; the extra diagnostics are '
        'compared with the tendencies (or the difference quotient) computed by a reference, and everything else with '
        'the run without the flag. Non-trivial: at least one tendency or output.')


def label(case, name):
    return '{}_tendency_from_{}'.format(name, case['name'] or 'Comp')


def check_tendencies(case, cov):
    kind = case['kind']
    state = C.make_state(case)
    plain = C.make(case)
    kw = {'tendencies_in_diagnostics': True}
    if case['name']:
        kw['name'] = case['name']
    comp = C.make(case, **kw)
    if not comp.tendencies_in_diagnostics or plain.tendencies_in_diagnostics:
        fail('tendencies_in_diagnostics does not reflect the option')
    if comp.name != (case['name'] or 'Comp'):
        fail('name is {}', comp.name)
    dt = C.timestep(case)
    a = B.call(plain, kind, state, dt)
    b = B.call(comp, kind, state, dt)
    if not B.same_snapshot(B.snapshot(a['tendency']), B.snapshot(b['tendency'])):
        fail('the tendencies changed with tendencies_in_diagnostics')
    extra = {label(case, o['name']): o for o in case['groups']['tendency']}
    for n in a['diagnostic']:
        if not B.same_snapshot(B.snapshot(a['diagnostic'][n]), B.snapshot(b['diagnostic'].get(n))):
            fail('diagnostic {} changed with tendencies_in_diagnostics', n)
    if set(b['diagnostic']) != set(a['diagnostic']) | set(extra):
        fail('diagnostics are {} where {} were expected', sorted(b['diagnostic']),
             sorted(set(a['diagnostic']) | set(extra)))
    if set(comp.diagnostic_properties) != set(b['diagnostic']):
        fail('diagnostic_properties has {} but {} are returned', sorted(comp.diagnostic_properties),
             sorted(b['diagnostic']))
    if set(plain.diagnostic_properties) != set(a['diagnostic']):
        fail('diagnostic_properties without the flag has {}', sorted(plain.diagnostic_properties))
    values = C.state_values(case)
    for n, o in extra.items():
        C.check_output(case, o, b['diagnostic'][n], values, C.tolerance(case))
        p = comp.diagnostic_properties[n]
        if p['units'] != o['units'] or list(p['dims']) != C.out_dims(case, o):
            fail('{} is declared as {} where units {} and dims {} were expected', n, p, o['units'],
                 C.out_dims(case, o))
    cov.label(kind, 'aliases' if any('alias' in o for o in extra.values()) else 'no aliases')
    cov.nontrivial(bool(extra))


@st.composite
def tendency_cases(draw):
    case = draw(G.component_cases(kinds=('tendency', 'implicit')))
    case['name'] = draw(st.sampled_from([None, 'radiation', 'x']))
    return case


def same_units(units):
    """All spellings of the units."""
    family = B.FAMILIES[B.UNIT_FAMILY[units]]
    return sorted(u for u in family if family[u] == family[units])


@st.composite
def stepper_cases(draw):
    case = draw(G.component_cases(kinds=['stepper'], linear=draw(st.booleans())))
    case['name'] = draw(st.sampled_from([None, 'radiation']))
    case['tu'] = draw(st.sampled_from([None, None, 'hr', 'day', 'minute']))
    case['own'] = {}
    have = {q['name']: q for q in case['inputs']}
    for o in case['groups']['output']:
        if o['name'] in have:
            o['dims'] = None if draw(st.booleans()) else list(have[o['name']]['pdims'])
            o['units'] = draw(st.sampled_from(same_units(have[o['name']]['punits'])))
            o.pop('newlen', None)
        else:
            fam = B.UNIT_FAMILY[o['units']]
            case['own'][o['name']] = {'units': draw(st.sampled_from(sorted(B.FAMILIES[fam]))),
                                      'seed': draw(G.seeds), 'perm': draw(st.integers(0, 23))}
    case['order'] = draw(st.booleans())
    case['bad'] = draw(st.sampled_from([None] * 6 + ['dims', 'units']))
    return case


def extended(case):
    """The case with outputs that are not inputs as extra, unused inputs."""
    case = copy.deepcopy(case)
    wild = C.wild_dims(case)
    for o in case['groups']['output']:
        own = case['own'].get(o['name'])
        if own is None:
            continue
        dims = B.expand(o['dims'], wild)
        k = own['perm'] % len(dims) if dims else 0
        q = {'name': o['name'], 'pdims': list(o['dims']), 'dims': dims[k:] + dims[:k], 'punits': o['units'],
             'units': own['units'], 'seed': own['seed'], 'dtype': 'float64'}
        case['inputs'].append(q)
        if 'newlen' in o:
            case['lens']['new'] = o['newlen']
    for g in case['groups'].values():
        for o in g:
            o['coefs'] = o['coefs'] + [0.] * (len(case['inputs']) - len(o['coefs']))
    return case


def check_stepper(case, cov):
    import sympl
    kw = {'tendencies_in_diagnostics': True}
    if case['name']:
        kw['name'] = case['name']
    extra = {}
    if case['tu']:
        extra = {'time_unit_name': case['tu'],
                 'time_unit_timedelta': datetime.timedelta(seconds=B.TIME_FACTORS[case['tu']])}
    unit = case['tu'] or 's'
    outs = {o['name']: o for o in case['groups']['output']}
    if case['bad']:
        shared = [q for q in case['inputs'] if q['name'] in outs]
        if not shared:
            return
        q = shared[0]
        if case['bad'] == 'dims':
            if len(q['pdims']) < 2:
                return
            outs[q['name']]['dims'] = list(reversed(q['pdims']))
        else:
            fam = [u for u in sorted(B.FAMILIES[B.UNIT_FAMILY[q['punits']]])
                   if B.scale_offset(u) != B.scale_offset(q['punits'])]
            if not fam:
                return
            outs[q['name']]['units'] = fam[0]
        B.expect_raises(sympl.InvalidPropertyDictError, lambda: C.make(case, extra=extra, **kw),
                        'tendencies of a quantity with different {} in and out'.format(case['bad']))
        cov.label('refused')
        cov.nontrivial()
        return
    # two objects of a class, in either order
    props = C.properties(case)
    cls = B.make_class('stepper', props, lambda raw, dt: C.compute(case, raw, dt), None, 'Comp', extra)
    declared = B.snapshot(props)
    if case['style'] == 'property':  # gives all objects of the class the same dictionaries
        plain = C.make(case)
        comp = cls(**kw)
        declared = B.snapshot(props)
    elif case['order']:
        comp = cls(**kw)
        plain = cls()
    else:
        plain = cls()
        comp = cls(**kw)
    if not B.same_snapshot(declared, B.snapshot(props)):
        fail('the properties on the class changed')
    for attr, g in (('input_properties', 'input'), ('output_properties', 'output'), ('diagnostic_properties', 'diagnostic')):
        if case['style'] != 'property' and getattr(plain, attr) != props[g]:
            fail('{} of an object without the flag is {} where {} was declared', attr, getattr(plain, attr), props[g])
    full = extended(case)
    state = C.make_state(full)
    if set(comp.input_properties) != {q['name'] for q in full['inputs']}:
        fail('input_properties are {} where {} were expected', sorted(comp.input_properties),
             sorted(q['name'] for q in full['inputs']))
    dt = C.timestep(case)
    values = C.state_values(full)
    before = B.snapshot(state)
    alone = B.call(plain, 'stepper', C.make_state(case), dt)
    result = B.call(comp, 'stepper', state, dt)
    if set(alone['output']) != set(outs) or set(alone['diagnostic']) != {o['name'] for o in case['groups']['diagnostic']}:
        fail('without the flag there are outputs {} and diagnostics {}', sorted(alone['output']),
             sorted(alone['diagnostic']))
    if not B.same_snapshot(before, B.snapshot(state)):
        fail('the state changed')
    want = {label(case, n) for n in outs} | {o['name'] for o in case['groups']['diagnostic']}
    if set(result['diagnostic']) != want or set(comp.diagnostic_properties) != want:
        fail('diagnostics are {}, declared are {}, expected {}', sorted(result['diagnostic']),
             sorted(comp.diagnostic_properties), sorted(want))
    if set(plain.diagnostic_properties) != {o['name'] for o in case['groups']['diagnostic']}:
        fail('diagnostic_properties without the flag has {}', sorted(plain.diagnostic_properties))
    rtol = C.tolerance(full)
    C.check_outputs(full, {'output': result['output'],
                           'diagnostic': {o['name']: result['diagnostic'][o['name']]
                                          for o in case['groups']['diagnostic']}}, values, rtol)
    wild, lens = C.wild_dims(full), C.dim_lens(full)
    for n, o in outs.items():
        da = result['diagnostic'][label(case, n)]
        o2 = [x for x in full['groups']['output'] if x['name'] == n][0]
        dims, new, scale = C.expected(full, o2, values)
        q = [x for x in full['inputs'] if x['name'] == n][0]
        old = B.broadcast(B.convert(values[n], q['units'], q['punits']), q['dims'], dims, lens)
        scale += B.top(old) + (abs(B.scale_offset(q['units'])[1]) +
                                               abs(B.scale_offset(q['punits'])[1])) / B.scale_offset(q['punits'])[0]
        tu = B.TIME_FACTORS[unit]
        units = B.per_time(o['units'], unit)
        if da.attrs.get('units') != units or comp.diagnostic_properties[label(case, n)]['units'] != units:
            fail('tendency of {} has units {} (declared {}) where {} was expected', n, da.attrs.get('units'),
                 comp.diagnostic_properties[label(case, n)]['units'], units)
        got = B.by_name(da, dims)
        expect = (new - old) / case['dt'] * tu
        if not B.close(got, expect, rtol=rtol, atol=rtol, scale=scale / abs(case['dt']) * tu):
            fail('tendency of {} is {} but it changes by {} per {}', n, got.tolist(), expect.tolist(), unit)
    cov.label('time unit ' + unit, 'own input' if case['own'] else 'inputs only')
    cov.nontrivial(bool(outs))


def check_composite(case, cov):
    """In composites every component's own tendencies stay visible."""
    import sympl
    lens = case['lens']
    comps, alone = [], []
    for i, c in enumerate(case['comps']):
        tend = {n: {'dims': q['dims'], 'units': q['units']} for n, q in c['tend'].items()}

        def func(raw, dt, c=c):
            return {'tendency': {n: B.values(q['seed'], [lens[d] for d in q['dims']]) for n, q in c['tend'].items()}}
        for out in (comps, alone):
            out.append(B.make_class(c['kind'], {'tendency': tend}, func)(
                tendencies_in_diagnostics=c['flag'], name='c{}'.format(i)))
    state = {'time': B.make_time(case['time'])}
    dt = datetime.timedelta(seconds=60)
    composite = sympl.ImplicitTendencyComponentComposite(*comps)
    for _ in range(2):
        total, diagnostics = composite(state, dt)
    names = set()
    for i, (c, a) in enumerate(zip(case['comps'], alone)):
        t = a(state, dt)[0] if c['kind'] == 'implicit' else a(state)[0]
        for n in c['tend']:
            key = '{}_tendency_from_c{}'.format(n, i)
            if c['flag']:
                names.add(key)
                if key not in diagnostics or not B.same_snapshot(B.snapshot(t[n]), B.snapshot(diagnostics[key])):
                    fail('{} in the diagnostics of a composite is {}, alone it is {}', key, diagnostics.get(key), t[n])
    if set(diagnostics) != names or set(composite.diagnostic_properties) != names:
        fail('diagnostics of the composite are {}, declared {}, expected {}', sorted(diagnostics),
             sorted(composite.diagnostic_properties), sorted(names))
    cov.label('components: {}'.format(len(comps)))
    cov.nontrivial(len(names) > 1)


@st.composite
def composite_cases(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y']}
    comps = []
    qdims = {n: sorted(draw(G.subset(['x', 'y']))) for n in ('a', 'b')}
    for _ in range(draw(st.integers(1, 3))):
        comps.append({'kind': draw(st.sampled_from(['tendency', 'implicit'])), 'flag': draw(st.sampled_from([True, True, False])),
                      'tend': {n: {'dims': list(draw(G.permuted(qdims[n]))), 'seed': draw(G.seeds),
                                   'units': draw(st.sampled_from(['m s^-1', 'km hr^-1', 'cm day^-1']))}
                               for n in draw(G.subset(['a', 'b'], min_size=1))}})
    return {'lens': lens, 'comps': comps, 'time': draw(G.times())}


def check_name_clash(case, cov):
    """One diagnostic is never given in place of another: two tendencies with one name are refused."""
    import warnings
    import sympl
    comps = []
    for i, c in enumerate(case['comps']):
        def func(raw, dt, c=c, i=i):
            return {'tendency': {n: np.asarray(i + 1.) for n in c['tend']}}
        comps.append(B.make_class(c['kind'], {'tendency': {n: {'dims': [], 'units': 'm s^-1'} for n in c['tend']}}, func)(
            tendencies_in_diagnostics=c['flag'], name=c['name']))
    own = ['{}_tendency_from_{}'.format(n, c['name']) for c in case['comps'] if c['flag'] for n in c['tend']]
    stepped = sorted({n for c in case['comps'] for n in c['tend']})
    if case['flag']:
        own += ['{}_tendency_from_{}'.format(n, case['name']) for n in stepped]
    clash = len(set(own)) < len(own)
    kind = {'ab': sympl.AdamsBashforth, 'lf': sympl.Leapfrog, 'ssp': sympl.SSPRungeKutta}[case['scheme']]
    state = {n: B.data_array({'dims': [], 'units': 'm', 'seed': 3}, {}) for n in stepped}
    state['time'] = B.make_time(case['time'])
    dt = datetime.timedelta(seconds=10)

    def run():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            stepper = kind(*comps, tendencies_in_diagnostics=case['flag'], name=case['name'])
        return stepper(state, dt)
    if clash:
        B.expect_raises((RuntimeError, sympl.SharedKeyError, sympl.InvalidPropertyDictError, ValueError), run,
                        'a time stepper of which two diagnostics would be named alike, {}'.format(sorted(own)))
    else:
        diagnostics, _ = run()
        if set(diagnostics) != set(own):
            fail('diagnostics are {} where {} were expected', sorted(diagnostics), sorted(own))
        for i, c in enumerate(case['comps']):
            for n in c['tend'] if c['flag'] else []:
                got = diagnostics['{}_tendency_from_{}'.format(n, c['name'])]
                if got.values != i + 1.:
                    fail('the tendency of {} from {} is {} where {} was computed', n, c['name'], got, i + 1.)
    cov.label('clash' if clash else 'no clash', case['scheme'])
    cov.nontrivial(len(own) > 1)


@st.composite
def name_clash_cases(draw):
    names = st.sampled_from(['p', 'q'])
    return {'comps': [{'kind': draw(st.sampled_from(['tendency', 'implicit'])), 'flag': draw(st.booleans()),
                       'name': draw(names), 'tend': draw(G.subset(['a', 'b'], min_size=1))}
                      for _ in range(draw(st.integers(1, 2)))],
            'scheme': draw(st.sampled_from(['ab', 'lf', 'ssp'])), 'flag': draw(st.integers(0, 3)) > 0, 'name': draw(names),
            'time': draw(G.times())}


def probe_property_attributes():
    """A stepper whose properties are computed by @property loses the tendencies
    inserted at construction."""
    import sympl

    class S(sympl.Stepper):
        input_properties = {'x': {'dims': ['z'], 'units': 'm'}}
        output_properties = {'x': {'dims': ['z'], 'units': 'm'}}

        @property
        def diagnostic_properties(self):
            return {}

        def array_call(self, state, timestep):
            return {}, {'x': state['x'] + 1.}
    try:
        s = S(tendencies_in_diagnostics=True)
        d, _ = s({'x': sympl.DataArray(np.zeros(2), dims=['z'], attrs={'units': 'm'}),
                  'time': datetime.timedelta(0)}, datetime.timedelta(seconds=1))
    except Exception:
        return True
    return 'x_tendency_from_S' not in d


PROBES = {'C06-property-attributes': probe_property_attributes}

SUBS = [
    Sub('tendencies', tendency_cases, check_tendencies, 1600, 24000),
    Sub('stepper', stepper_cases, check_stepper, 1600, 24000),
    Sub('composite', composite_cases, check_composite, 800, 12000),
    Sub('custom', S.custom_cases, S.check, 800, 12000),
    Sub('name_clash', name_clash_cases, check_name_clash, 300, 3000),
]
