"""Components that break their declared contract are reported, not believed."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, comp as C, gen as G
from ..core import Sub, fail

RULE = ('Random components of all types whose array_call or properties break the declared contract in one way '
        '(missing/extra output, wrong rank/length/axis order; properties without units or dims, not a dict, '
        'clashing aliases, incompatible units; base __init__ not called), against unbroken controls. Non-trivial: '
        'every case in which the breakage was applicable.')

BREAKS = ['missing', 'extra', 'rank', 'length', 'none', 'swap', 'flat']


def known_dims(case):
    return {d for q in case['inputs'] for d in q['dims']}


def breakage(case, how, k):
    """Returns (func, error types) for a component misbehaving in this way."""
    import sympl
    outs = [(g, o) for g in sorted(case['groups']) for o in case['groups'][g]]
    good = lambda raw, dt: C.compute(case, raw, dt)
    if how == 'none':
        return good, None
    if how == 'extra':
        groups = sorted(case['groups'])
        g = groups[k % len(groups)]

        def func(raw, dt):
            r = good(raw, dt)
            r[g][extra] = np.zeros([2])
            return r
        # an undeclared name, or one that is declared, but not for this
        allowed = {n for o in case['groups'][g] for n in (o['name'], C.out_raw_name(case, o), o.get('alias'))}
        allowed |= {q.get('alias') for q in case['inputs'] if q['name'] in allowed}
        others = [q[key] for q in case['inputs'] for key in ('name', 'alias') if q.get(key)]
        others += [o[key] for x in groups for o in case['groups'][x] for key in ('name', 'alias') if o.get(key)]
        others = ['undeclared_quantity'] + sorted(set(others) - allowed)
        extra = others[(k // len(groups)) % len(others)]
        return func, (sympl.ComponentExtraOutputError,)
    if not outs:
        return None, None
    if how == 'missing':
        g, o = outs[k % len(outs)]

        def func(raw, dt):
            r = good(raw, dt)
            del r[g][C.out_raw_name(case, o)]
            return r
        return func, (sympl.ComponentMissingOutputError,)
    lens = C.dim_lens(case)
    wild = C.wild_dims(case)
    known = known_dims(case)
    if how == 'rank':
        g, o = outs[k % len(outs)]

        def func(raw, dt):
            r = good(raw, dt)
            a = r[g][C.out_raw_name(case, o)]
            r[g][C.out_raw_name(case, o)] = np.repeat(a[..., None], 2, axis=-1)
            return r
        return func, (sympl.InvalidPropertyDictError,)
    if how == 'length':
        cands = [(g, o, i) for g, o in outs for i, d in enumerate(C.out_dims(case, o))
                 if d == '*' or d in known]
        if not cands:
            return None, None
        g, o, i = cands[k % len(cands)]

        def func(raw, dt):
            r = good(raw, dt)
            a = r[g][C.out_raw_name(case, o)]
            r[g][C.out_raw_name(case, o)] = np.concatenate([a, np.zeros([1 if j == i else m for j, m in enumerate(a.shape)])], axis=i)
            return r
        return func, (sympl.InvalidPropertyDictError,)
    if how == 'swap':
        cands = []
        for g, o in outs:
            dims = C.out_dims(case, o)
            shape = B.flat_shape(dims, wild, lens)
            for i in range(len(dims)):
                for j in range(i + 1, len(dims)):
                    if shape[i] != shape[j] and all(d == '*' or d in known for d in (dims[i], dims[j])):
                        cands.append((g, o, i, j))
        if not cands:
            return None, None
        g, o, i, j = cands[k % len(cands)]

        def func(raw, dt):
            r = good(raw, dt)
            r[g][C.out_raw_name(case, o)] = np.swapaxes(r[g][C.out_raw_name(case, o)], i, j)
            return r
        return func, (sympl.InvalidPropertyDictError,)
    # flat: right number of values, but without the declared axes
    cands = [(g, o) for g, o in outs if len(C.out_dims(case, o)) > 1]
    if not cands:
        return None, None
    g, o = cands[k % len(cands)]

    def func(raw, dt):
        r = good(raw, dt)
        r[g][C.out_raw_name(case, o)] = r[g][C.out_raw_name(case, o)].ravel()
        return r
    return func, (sympl.InvalidPropertyDictError,)


def check_outputs(case, cov):
    how = case['how']
    func, types = breakage(case, how, case['k'])
    if func is None:
        return
    cls = B.make_class(case['kind'], C.properties(case), func)
    component = cls(tendencies_in_diagnostics=True) if (
        case['tid'] and case['kind'] in ('tendency', 'implicit')) else cls()
    state = C.make_state(case)
    run = lambda: B.call(component, case['kind'], state, C.timestep(case))
    if types is None:
        result = run()
        for g in case['groups']:
            names = {o['name'] for o in case['groups'][g]}
            if g == 'diagnostic' and component_adds(component):
                names |= {'{}_tendency_from_{}'.format(o['name'], component.name) for o in case['groups']['tendency']}
            if set(result[g]) != names:
                fail('{} outputs {} instead of {}', g, sorted(result[g]), sorted(names))
    else:
        names = {q['name'] for q in case['inputs']}
        if any(q.get('alias') in names for q in case['inputs']):
            types += (KeyError,)  # one quantity's key is another's name: noticed only when it is looked up
        B.expect_raises(types, run, '{} component with {}'.format(case['kind'], how))
    cov.label(how, case['kind'])
    cov.nontrivial()


def component_adds(component):
    return getattr(component, 'tendencies_in_diagnostics', False)


PROP_BREAKS = ['no_units', 'no_dims', 'not_dict', 'alias_clash', 'units_clash', 'none']


def break_props(case, props, how, k):
    """Modifies props; returns False if not applicable."""
    groups = sorted(g for g in props if g != 'style')
    entries = [(g, n) for g in groups for n in sorted(props[g])]
    if how == 'none':
        return True
    if how == 'no_units':
        if not entries:
            return False
        g, n = entries[k % len(entries)]
        del props[g][n]['units']
    elif how == 'no_dims':
        cands = [(g, n) for g, n in entries if g == 'input' or n not in props['input']]
        if not cands:
            return False
        g, n = cands[k % len(cands)]
        del props[g][n]['dims']
    elif how == 'not_dict':
        g = groups[k % len(groups)]
        props[g] = [['air_temperature', 'degK'], None, 3, 'degK', ('a',)][k % 5]
    elif how == 'alias_clash':
        cands = [g for g in groups if len(props[g]) >= 2]
        if not cands:
            return False
        g = cands[k % len(cands)]
        names = sorted(props[g])
        i = k % len(names)
        j = (i + 1 + (k // 7) % (len(names) - 1)) % len(names)
        if k % 3 == 0:
            props[g][names[i]]['alias'] = props[g][names[j]]['alias'] = 'clash'
        else:
            # what the other quantity is called: its own alias, its input's, or its name
            src = props['input'].get(names[j], {}) if g != 'input' else {}
            props[g][names[i]]['alias'] = props[g][names[j]].get('alias', src.get('alias', names[j]))
    elif how == 'units_clash':
        cands = [(g, n) for g, n in entries if g != 'input' and n in props['input']]
        if not cands:
            return False
        g, n = cands[k % len(cands)]
        fam = B.UNIT_FAMILY[props['input'][n]['units']]
        wrong = sorted(f for f in B.LINEAR if f != fam)
        f = wrong[k % len(wrong)]
        u = sorted(B.LINEAR[f])[k % len(B.LINEAR[f])]
        if g == 'tendency':
            # either something else per second, or not a rate at all
            if k % 3 == 0:
                u = props['input'][n]['units']
            else:
                u = B.per_time(u)
            if B.scale_offset(props['input'][n]['units'])[1]:
                return False
        props[g][n]['units'] = u
    return True


def check_properties(case, cov):
    import sympl
    props = C.properties(case)
    how = case['how']
    if not break_props(case, props, how, case['k']):
        return
    cls = B.make_class(case['kind'], props, lambda raw, dt: C.compute(case, raw, dt))
    if how == 'none':
        cls()
    else:
        B.expect_raises((sympl.InvalidPropertyDictError,), cls, '{} component with {}'.format(case['kind'], how))
    cov.label(how, case['kind'])
    cov.nontrivial()


def check_uninitialised(case, cov):
    rec = B.Recorder()
    cls = B.make_class(case['kind'], C.properties(case), lambda raw, dt: C.compute(case, raw, dt), rec,
                       extra={'__init__': lambda self: None})
    component = cls()
    B.expect_raises((RuntimeError,), lambda: B.call(component, case['kind'], C.make_state(case), C.timestep(case)),
                    '{} component which did not call the base __init__'.format(case['kind']))
    if rec.calls:
        fail('array_call ran in an uninitialised component')
    if case['kind'] in ('tendency', 'implicit'):
        import sympl
        inner = C.make(case, rec)

        class Own(sympl.TendencyStepper):

            def __init__(self, *args):
                self.prognostic = sympl.ImplicitTendencyComponentComposite(*args)

            def _call(self, state, timestep):
                rec.calls.append('step')
                return {}, dict(state)
        B.expect_raises(Exception, lambda: Own(inner)(C.make_state(case), C.timestep(case)),
                        'time stepper which did not call the base __init__')
        if rec.calls:
            fail('an uninitialised time stepper made a step')
    cov.label(case['kind'])
    cov.nontrivial()


@st.composite
def output_cases(draw):
    case = draw(G.component_cases())
    # an empty array has no shape worth reporting as wrong
    case['lens'] = {d: n or 1 for d, n in case['lens'].items()}
    for o in [o for g in case['groups'].values() for o in g if 'newlen' in o]:
        o['newlen'] = o['newlen'] or 1
    case['how'] = draw(st.sampled_from(BREAKS))
    case['k'] = draw(st.integers(0, 40))
    case['tid'] = draw(st.booleans())
    return case


@st.composite
def property_cases(draw):
    case = draw(G.component_cases())
    case['how'] = draw(st.sampled_from(PROP_BREAKS))
    case['k'] = draw(st.integers(0, 60))
    return case


SUBS = [
    Sub('outputs', output_cases, check_outputs, 4000, 60000),
    Sub('properties', property_cases, check_properties, 3200, 40000),
    Sub('uninitialised', G.component_cases, check_uninitialised, 300, 3000),
]
