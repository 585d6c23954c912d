"""Properties of composites are the combination of their components' properties."""
import datetime
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('Random lists of 1-4 property dictionaries over shared quantities (explicit dims and wildcards in any order, '
        'compatible and incompatible units, tendencies with implied dims), combined directly, in composites and in '
        'time steppers in every order. Oracle: a closed-form set model of which dims satisfy all, and running the '
        'components on states built from the combined properties alone. Non-trivial: a quantity shared by two '
        'dictionaries.')

DIMS = ['x', 'y', 'z']


def model_dims(specs):
    """None if no dims satisfy all, else (explicit set, wildcard allowed)."""
    fixed = [frozenset(s) for s in specs if '*' not in s]
    wild = [frozenset(s) - {'*'} for s in specs if '*' in s]
    if fixed:
        if len(set(fixed)) > 1 or any(not w <= fixed[0] for w in wild):
            return None
        return fixed[0], False
    return frozenset().union(*wild), True


class Declared(object):
    """Just the declarations of a component."""

    def __init__(self, input_properties):
        self.input_properties = input_properties


def check_dims(case, cov):
    import sympl
    specs = case['specs']
    want = model_dims(specs)
    for order in itertools.permutations(specs):
        try:
            out = sympl.combine_component_properties(
                [Declared({'a': {'dims': list(s), 'units': 'm'}}) for s in order], 'input_properties')['a']['dims']
            got = (frozenset(out) - {'*'}, '*' in out)
            if len(set(out)) != len(out):
                fail('dims {} combine to {}', order, out)
        except sympl.InvalidPropertyDictError:
            got = None
        if got != want:
            fail('dims {} combine to {} where {} was expected', order, got, want)
    cov.label('incompatible' if want is None else 'compatible')
    cov.nontrivial(len(specs) > 1)


@st.composite
def specs(draw, min_size=1, max_size=3):
    base = sorted(draw(G.subset(DIMS)))
    out = []
    for _ in range(draw(st.integers(min_size, max_size))):
        how = draw(st.sampled_from(['same', 'same', 'wild', 'any']))
        if how == 'same':
            s = list(draw(G.permuted(base)))
        elif how == 'wild':
            s = list(draw(G.subset(base)))
            s.insert(draw(st.integers(0, len(s))), '*')
        else:
            s = list(draw(G.subset(DIMS)))
            if draw(st.booleans()):
                s.insert(draw(st.integers(0, len(s))), '*')
        out.append(s)
    return out


@st.composite
def dims_cases(draw):
    return {'specs': draw(specs(max_size=4))}


@st.composite
def combine_cases(draw):
    n = draw(st.integers(1, 4))
    quants = {}
    for name in draw(G.subset(['a', 'b', 'c'], min_size=1)):
        fam = draw(st.sampled_from(sorted(B.LINEAR)))
        quants[name] = {'fam': fam, 'specs': draw(specs(min_size=n, max_size=n)), 'own': sorted(draw(G.subset(DIMS))),
                        'wrong': draw(st.integers(0, 5)) == 0}
    comps = []
    for i in range(n):
        c = {'kind': draw(st.sampled_from(['tendency', 'implicit'])), 'input': {}, 'tendency': {}}
        for name in sorted(quants):
            q = quants[name]
            role = draw(st.sampled_from(['input', 'both', 'tendency', 'none', 'both']))
            fam = q['fam']
            if q['wrong'] and i == n - 1:
                fam = draw(st.sampled_from([f for f in sorted(B.LINEAR) if f != fam]))
            units = sorted(B.LINEAR[fam])
            if role in ('input', 'both'):
                c['input'][name] = {'dims': q['specs'][i], 'units': draw(st.sampled_from(units))}
            if role in ('tendency', 'both'):
                p = {'units': B.per_time(draw(st.sampled_from(units)), draw(st.sampled_from(['s', 'hr'])))}
                if role == 'tendency' or draw(st.booleans()):
                    p['dims'] = q['specs'][i] if role == 'both' else q['specs'][draw(st.integers(0, n - 1))]
                c['tendency'][name] = p
        # what this component calls its quantities; others may call theirs the same
        for name, a in zip(sorted(quants), draw(G.permuted(['q', 'T', 'u']))):
            if draw(st.integers(0, 2)) == 0:
                c['input' if name in c['input'] else 'tendency'].get(name, {})['alias'] = a
        comps.append(c)
    tracers = []
    if draw(st.integers(0, 2)) == 0:
        tracers = [[t, draw(st.sampled_from(['kg', 'g/kg', 'm']))] for t in draw(G.subset(['qa', 'qb', 'qc'], min_size=1))]
        free = [d for d in draw(specs(min_size=n, max_size=n))]
        for c, dims in zip(comps, free):
            if draw(st.integers(0, 2)):
                dims = list(dims)
                dims.insert(draw(st.integers(0, len(dims))), 'tracer')
                c['tracer_dims'] = dims
                c['prepend'] = [t for t in draw(G.subset(tracers, max_size=2))]
            elif draw(st.booleans()):  # a component for which a tracer is an ordinary quantity
                t = draw(st.sampled_from(tracers))
                c['input'][t[0]] = {'dims': draw(specs(max_size=1))[0], 'units': draw(st.sampled_from([t[1], t[1], 'K']))}
    registered = draw(G.subset(tracers))
    return {'tracers': registered, 'comps': comps, 'lens': {d: draw(G.lengths) for d in DIMS}, 'extra': list(draw(G.permuted(DIMS))),
            'order': list(draw(G.permuted(list(range(n))))), 'seed': draw(G.seeds), 'pick': draw(st.integers(0, 7))}


def tracer_inputs(case, c):
    if 'tracer_dims' not in c:
        return {}
    dims = [d for d in c['tracer_dims'] if d != 'tracer']
    return {n: {'dims': dims, 'units': units} for n, units in case['tracers'] + c['prepend']}


def exps(units):
    return B.parse_units(units)[1]


def model_combine(dicts):
    """name -> (dims model, unit dimension); None if impossible."""
    out = {}
    for name in {n for d in dicts for n in d}:
        specs = [d[name]['dims'] for d in dicts if name in d]
        dims = model_dims(specs)
        es = {exps(d[name]['units']) for d in dicts if name in d}
        if dims is None or len(es) > 1:
            return None
        out[name] = (dims, es.pop(), {d[name]['units'] for d in dicts if name in d})
    return out


def compare(what, got, want, units_from=None):
    if set(got) != set(want):
        fail('{} combined have {} where {} were expected', what, sorted(got), sorted(want))
    for n, (dims, e, units) in want.items():
        g = (frozenset(got[n]['dims']) - {'*'}, '*' in got[n]['dims'])
        if g != dims:
            fail('{} of {} combine to dims {} where {} was expected', what, n, got[n]['dims'], dims)
        if got[n]['units'] not in units:
            fail('{} of {} combine to units {}, components use {}', what, n, got[n]['units'], units)


def check_combine(case, cov):
    import sympl
    comps = []
    for name, units in case['tracers']:
        sympl.register_tracer(name, units)
    for i in case['order']:
        c = case['comps'][i]
        extra = {}
        if 'tracer_dims' in c:
            extra = {'uses_tracers': True, 'tracer_dims': list(c['tracer_dims']),
                     'prepend_tracers': [tuple(t) for t in c['prepend']] or None}

        def func(raw, dt, c=c):
            return {'tendency': {}}
        comps.append(B.make_class(c['kind'], {'input': c['input'], 'tendency': c['tendency']}, func,
                                  extra=extra)())
    specs = [case['comps'][i] for i in case['order']]
    inputs = model_combine([c['input'] for c in specs] + [tracer_inputs(case, c) for c in specs])
    tendencies = None
    if inputs is not None:
        # a tendency without dims has those of the (combined) input
        dicts = []
        for c in specs:
            d = {}
            for n, p in c['tendency'].items():
                if 'dims' in p:
                    d[n] = p
                else:
                    (e, w) = inputs[n][0]
                    d[n] = {'units': p['units'], 'dims': sorted(e) + (['*'] if w else [])}
            dicts.append(d)
        tendencies = model_combine(dicts)
    ok = inputs is not None and tendencies is not None
    if ok:
        for n in set(inputs) & set(tendencies):
            e = list(inputs[n][1])
            e[2] -= 1.
            ok = ok and tuple(e) == tendencies[n][1]
    implicit = any(c['kind'] == 'implicit' for c in specs)
    cls = sympl.ImplicitTendencyComponentComposite if implicit else sympl.TendencyComponentComposite
    if not ok:
        B.expect_raises(sympl.InvalidPropertyDictError, lambda: cls(*comps), 'components with incompatible properties')
        B.expect_raises(sympl.InvalidPropertyDictError, lambda: sympl.AdamsBashforth(*comps),
                        'a time stepper for components with incompatible properties')
        cov.label('incompatible')
        cov.nontrivial(len(comps) > 1)
        return
    before = B.snapshot([c for c in specs])
    composite = cls(*comps)
    compare('inputs', composite.input_properties, inputs)
    compare('tendencies', composite.tendency_properties, tendencies)
    compare('inputs', composite.input_properties, inputs)  # asking does not change the answer
    if not B.same_snapshot(before, B.snapshot(specs)):
        fail('combining properties changed the properties of a component')
    # a stepper also needs the quantities it steps, with compatible dims and units
    both = {}
    for n in set(inputs) | set(tendencies):
        sides = []
        if n in inputs:
            sides.append(sorted(inputs[n][0][0]) + (['*'] if inputs[n][0][1] else []))
        if n in tendencies:
            sides.append(sorted(tendencies[n][0][0]) + (['*'] if tendencies[n][0][1] else []))
        both[n] = model_dims(sides)
    if any(v is None for v in both.values()):
        def use():
            s = sympl.AdamsBashforth(*comps)
            return s.input_properties
        B.expect_raises(sympl.InvalidPropertyDictError, use, 'a stepper whose inputs and outputs are incompatible')
        cov.label('stepper incompatible')
    else:
        stepper = sympl.AdamsBashforth(*comps)
        got = stepper.input_properties
        if {n: (frozenset(got[n]['dims']) - {'*'}, '*' in got[n]['dims']) for n in got} != both:
            fail('input dims of a stepper are {} where {} were expected',
                 {n: got[n]['dims'] for n in got}, both)
        if set(stepper.output_properties) != set(tendencies):
            fail('outputs of a stepper are {} where {} were expected', sorted(stepper.output_properties),
                 sorted(tendencies))
        cov.label('stepper compatible')
    check_run(case, specs, composite.input_properties, cov)
    cov.label('compatible')
    cov.nontrivial(any(sum(n in c['input'] for c in specs) > 1 for n in inputs) or
                   any(sum(n in c['tendency'] for c in specs) > 1 for n in tendencies))


def check_run(case, specs, props, cov):
    """A state built from the combined input properties serves every component."""
    import sympl
    wanted = [dict(c['input'], **{n: p for n, p in tracer_inputs(case, c).items()}) for c in specs]
    explicit = {d for w in wanted for q in w.values() for d in q['dims'] if d != '*'}
    explicit |= {d for c in specs for q in c['input'].values() for d in q['dims'] if d != '*'}
    state = {'time': datetime.timedelta(0)}
    for k, n in enumerate(sorted(props)):
        dims = [d for d in props[n]['dims'] if d != '*']
        if case['pick'] & (1 << k):
            dims = dims[::-1]
        if '*' in props[n]['dims'] and not explicit & {'w'}:
            dims.insert(len(dims) // 2, 'w')
        state[n] = B.data_array({'dims': dims, 'units': props[n]['units'], 'seed': case['seed'] + k},
                                dict(case['lens'], w=2))
    for c, all_inputs in zip(specs, wanted):
        # within one component a dim must be either explicit or matched by '*'
        own = {d for q in list(all_inputs.values()) + list(c['input'].values()) for d in q['dims'] if d != '*'}
        if any('*' in q['dims'] and (set(state[n].dims) - set(q['dims'])) & own
               for w in (all_inputs, c['input']) for n, q in w.items()):
            continue
        rec = B.Recorder()
        comp = B.make_class('diagnostic', {'input': c['input']}, lambda raw, dt: {}, rec)()
        comp(state)
        given = [(n, q, rec.calls[0][0][q.get('alias', n)]) for n, q in c['input'].items()]
        tracers = tracer_inputs(case, c)
        if tracers:
            comp = B.make_class('tendency', {'input': c['input']},
                                lambda raw, dt: {'tendency': {'tracers': raw['tracers']}}, extra={
                'uses_tracers': True, 'tracer_dims': c['tracer_dims'], 'prepend_tracers': [tuple(t) for t in c['prepend']] or None})()
            out, _ = comp(state)
            if set(out) != set(tracers):
                fail('a component with tracers {} returned {}', sorted(tracers), sorted(out))
            given += [(n, q, out[n].values) for n, q in tracers.items()]
            cov.label('tracers')
        for n, q, got in given:
            f = B.parse_units(q['units'])[0] / B.parse_units(props[n]['units'])[0]
            if not np.size(got):  # broadcast to a dim of length zero
                continue
            a = np.sort(np.unique(np.asarray(got, dtype=float) * f))
            b = np.sort(np.unique(state[n].values))
            if not B.close(a, b):
                fail('a component asking for {} as {} was given {} from {}', n, q, got, state[n])
        cov.label('component run')


SUBS = [
    Sub('dims', dims_cases, check_dims, 6000, 60000),
    Sub('combine', combine_cases, check_combine, 4800, 40000),
]
