"""Trajectories of the time steppers, with the schemes written out in numpy."""
import datetime
import math

import numpy as np
from hypothesis import strategies as st

from . import build as B, gen as G
from .core import fail

FAMS = ['length', 'mass', 'pressure', 'ratio', 'ratio', 'speed', 'duration']
NAMES = ['a', 'b', 'c']
ALIASES = ['q', 'T', 'u']


class Fault(Exception):
    """Raised by a generated component on request."""


# ---------------------------------------------------------------- generation

@st.composite
def comp_specs(draw, quants, dims, lens, kinds, time_terms, extra):
    explicit = list(draw(G.permuted(dims)))[:draw(st.integers(0, len(dims)))]
    star = len(explicit) < len(dims)
    layout = explicit + (['*'] if star else [])
    comps = {'kind': draw(st.sampled_from(kinds)), 'inputs': {}, 'tend': {}, 'diag': {}}
    for n in draw(G.subset(sorted(quants))):
        comps['inputs'][n] = {'pdims': list(draw(G.permuted(layout))),
                              'punits': draw(st.sampled_from(sorted(B.LINEAR[quants[n]['fam']])))}
    for n in draw(G.subset(sorted(quants), min_size=1)):
        base = draw(st.sampled_from(sorted(B.LINEAR[quants[n]['fam']])))
        tunit = draw(st.sampled_from(['s', 's', 'hr', 'day']))
        comps['tend'][n] = {'dims': list(draw(G.permuted(layout))), 'base': base, 'tunit': tunit,
                            'c0': draw(st.sampled_from([0., 0.5, -1., 0.25])),
                            'ct': draw(st.sampled_from([0., 0.5, -0.25])) if time_terms else 0.,
                            'cs': {m: draw(st.sampled_from([0.5, -1., 0.25, 0.])) for m in comps['inputs']}}
    for k in range(draw(st.sampled_from([0, 1]))):
        comps['diag']['diag_{}_{}'.format(extra, k)] = {
            'dims': list(draw(G.permuted(layout))), 'units': 'm',
            'cs': {m: draw(st.sampled_from([1., -1., 2.])) for m in comps['inputs']}}
    # '*' in outputs needs an input which has it to say what it stands for
    if star and not comps['inputs']:
        n = sorted(comps['tend'])[0]
        comps['inputs'][n] = {'pdims': layout, 'punits': quants[n]['units']}
    for t in comps['tend'].values():
        t['cs'] = {m: t['cs'].get(m, 0.) for m in comps['inputs']}
    for d in comps['diag'].values():
        d['cs'] = {m: d['cs'].get(m, 1.) for m in comps['inputs']}
    # how the component calls them: the alias of an input, or of a tendency alone
    # other components may call theirs the same
    comps['alias'] = {n: a for n, a in zip(sorted(quants), draw(G.permuted(ALIASES[:len(quants)])))
                      if draw(st.integers(0, 2)) == 0}
    return comps


@st.composite
def cases(draw, schemes, dtypes=('float64', 'float64', 'float64', 'float32', 'int64', 'int16', 'bool'), max_ops=11, max_runs=2,
          kinds=('tendency', 'tendency', 'implicit'), ops=('step', 'units', 'perm', 'scale', 'badstep', 'missing',
                                                           'fault')):
    scheme = draw(st.sampled_from(list(schemes)))()
    scheme = draw(scheme)
    dims = sorted(draw(G.subset(['x', 'y', 'z'])))
    lens = {d: draw(st.sampled_from([1, 2, 3, 1, 2, 3, 1, 2, 3, 5, 0])) for d in ['x', 'y', 'z']}
    quants = {}
    for n in sorted(draw(G.subset(NAMES, min_size=1))):
        fam = draw(st.sampled_from(FAMS))
        quants[n] = {'fam': fam, 'dims': list(draw(G.permuted(dims))),
                     'units': draw(st.sampled_from(sorted(B.LINEAR[fam]))),
                     'seed': draw(G.finite_or_nan), 'dtype': draw(st.sampled_from(
                         list(dtypes)))}
    comps = [draw(comp_specs(quants, dims, lens, kinds, scheme['s'] != 'ssprk', i))
             for i in range(draw(st.sampled_from([1, 2, 3] * 4 + [5, 7])))]
    for i in [i for i, c in enumerate(comps) if not c['diag']]:
        if draw(st.integers(0, 5)) == 0:
            comps.append(dict(comps[i], same=i))  # the same object again
    bystanders = {}
    for i in range(draw(st.integers(0, 2))):
        bystanders['other{}'.format(i)] = {
            'dims': draw(G.subset(['x', 'y', 'z'])), 'units': draw(st.sampled_from(['degC', 'm', 'K'])),
            'seed': draw(G.seeds), 'dtype': draw(st.sampled_from(['float64', 'int64', 'float32']))}
    for c in comps:
        if 'same' not in c:
            for d in sorted(c['diag']):
                k = draw(st.integers(0, 9))
                if k < 3:  # a value of an earlier time is in the state
                    bystanders[d] = {'dims': c['diag'][d]['dims'] if '*' not in c['diag'][d]['dims'] else dims,
                                     'units': 'm', 'seed': draw(G.seeds), 'dtype': 'float64'}
                elif k == 3 and sorted(quants)[0] not in [x for c2 in comps for x in c2['diag']]:
                    # a diagnostic with the name of a quantity
                    q = sorted(quants)[0]
                    c['diag'][q] = dict(c['diag'].pop(d), units=quants[q]['units'])
    runs = draw(st.integers(1, max_runs))
    oplist = []
    if max_ops > 8 and draw(st.integers(0, 15)) == 0:
        max_ops *= 4
    for _ in range(draw(st.integers(2, max_ops))):
        what = draw(st.sampled_from(('step',) * 14 + ('units',) * ('units' in ops) + tuple(ops)))
        op = [what, draw(st.integers(0, runs - 1))]
        n = draw(st.sampled_from(sorted(quants)))
        if what == 'units':
            op += [n, draw(st.sampled_from(sorted(B.LINEAR[quants[n]['fam']])))]
        elif what == 'perm':
            op += [n, list(draw(G.permuted(dims)))]
        elif what == 'scale':
            op += [n, draw(st.sampled_from([0.5, -1., 2., 0.])), draw(st.booleans())]
        elif what == 'missing':
            op += [n]
        elif what == 'fault':
            op += [draw(st.integers(0, len(comps) - 1))]
        elif what == 'badstep':
            op += [draw(st.sampled_from([0.5, 2., -1., 'us', '-us', 's']))]
        oplist.append(op)
    return {'scheme': scheme, 'dims': dims, 'lens': lens, 'quants': quants, 'comps': comps,
            'bystanders': bystanders, 'runs': runs, 'ops': oplist, 'time': draw(G.times()),
            'dt': draw(G.timesteps), 'tid': draw(st.booleans()), 'reuse': draw(st.integers(0, 3)) == 0,
            'name': draw(st.sampled_from([None, 'dyn']))}


@st.composite
def ab(draw):
    return {'s': 'ab', 'order': draw(st.sampled_from([None, 1, 2, 3, 4, 3, 4]))}


@st.composite
def leapfrog(draw):
    return {'s': 'leapfrog', 'nu': draw(st.sampled_from([None, 0.05, 0.2, 0., 1., 0.5])),
            'alpha': draw(st.sampled_from([None, 0.5, 1., 0., 0.75, 0.53, 1.5, -0.5]))}


@st.composite
def ssprk(draw):
    return {'s': 'ssprk', 'stages': draw(st.sampled_from([None, 2, 3]))}


def own():
    return st.just({'s': 'own'})


@st.composite
def custom_cases(draw):
    """Time steppers which users derive from those of the library, or write."""
    case = draw(cases([own, own, ab, leapfrog, ssprk], max_ops=6, max_runs=2))
    case['tid'] = draw(st.integers(0, 3)) > 0
    case['tu'] = draw(st.sampled_from([None, 's', 'minute', 'hr', 'day']))
    case['derived'] = draw(st.booleans())
    return case


def own_stepper():
    import sympl
    if not hasattr(sympl.TendencyStepper, '_call'):  # the method that users write has another name
        return type('Euler', (sympl.AdamsBashforth,), {
            '__init__': lambda self, *args, **kwargs: sympl.AdamsBashforth.__init__(self, *args, order=1, **kwargs)})

    class Euler(sympl.TendencyStepper):
        """A forward step."""

        def __init__(self, *args, **kwargs):
            self.tendencies_of = sympl.ImplicitTendencyComponentComposite(*args)
            super(Euler, self).__init__(*args, **kwargs)

        def _call(self, state, timestep):
            tendencies, diagnostics = self.tendencies_of(state, timestep)
            new = {}
            for n, t in tendencies.items():
                t = t.to_units(B.per_time(state[n].attrs['units']))
                new[n] = state[n] + t * timestep.total_seconds()
            return diagnostics, new
    return Euler


# ---------------------------------------------------------------- reference

def amplitude(case, name):
    q = case['quants'][name]
    return 50. * B.scale_offset(q['units'])[0]


def rate_term(case, spec, name, vals, k):
    """Base units per second of one component's tendency; vals: aligned arrays."""
    total = spec['c0'] + spec['ct'] * math.sin(k)
    out = total
    for m, c in sorted(spec['cs'].items()):
        out = out + c * np.tanh(vals[m] / amplitude(case, m))
    return out * amplitude(case, name) / case['dt']


def diag_term(case, spec, vals):
    out = 1.5
    for m, c in sorted(spec['cs'].items()):
        out = out + c * vals[m] / amplitude(case, m)
    return out


def make_components(case, faults, log):
    t0 = B.make_time(case['time'])
    dt = datetime.timedelta(seconds=case['dt'])
    out = []
    for i, spec in enumerate(case['comps']):
        if 'same' in spec:
            out.append(out[spec['same']])
            continue
        alias = spec.get('alias', {})
        layout = sorted({d for q in spec['inputs'].values() for d in q['pdims']} |
                        {d for t in spec['tend'].values() for d in t['dims']})
        props = {'input': {n: {'dims': list(q['pdims']), 'units': q['punits']} for n, q in spec['inputs'].items()},
                 'tendency': {n: {'dims': list(t['dims']), 'units': B.per_time(t['base'], t['tunit'])}
                              for n, t in spec['tend'].items()},
                 'diagnostic': {n: {'dims': list(d['dims']), 'units': d['units']} for n, d in spec['diag'].items()}}

        for n in alias:
            if n in props['input']:
                props['input'][n]['alias'] = alias[n]
            else:
                for group in ('tendency', 'diagnostic'):
                    if n in props[group]:
                        props[group][n]['alias'] = alias[n]

        def func(raw, timestep, i=i, spec=spec, layout=layout, alias=alias):
            if faults.get(i):
                faults[i] = False
                raise Fault()
            if timestep is not None:
                log.append(timestep)
            k = (raw['time'] - t0) / dt
            vals, shape = {}, {d: case['lens'][d] for d in layout if d != '*'}
            for n, q in spec['inputs'].items():
                a = np.asarray(raw[alias.get(n, n)], dtype=float) * B.scale_offset(q['punits'])[0]
                shape.update(zip(q['pdims'], a.shape))
                vals[n] = a.transpose([q['pdims'].index(d) for d in layout])
            full = [shape[d] for d in layout]

            def out(value, dims):
                return np.broadcast_to(value, full).transpose([layout.index(d) for d in dims]).copy()
            return {'tendency': {alias.get(n, n): out(rate_term(case, t, n, vals, k) / B.scale_offset(t['base'])[0] *
                                        B.TIME_FACTORS[t['tunit']], t['dims']) for n, t in spec['tend'].items()},
                    'diagnostic': {alias.get(n, n): out(diag_term(case, d, vals), d['dims']) for n, d in spec['diag'].items()}}
        out.append(B.make_class(spec['kind'], props, func)())
    return out


def rates(case, vals, k):
    total = {}
    full = [case['lens'][d] for d in case['dims']]
    for spec in case['comps']:
        for n, t in spec['tend'].items():
            r = np.broadcast_to(rate_term(case, t, n, vals, k), full)
            total[n] = total[n] + r if n in total else r
    return total


AB = {1: [1.], 2: [1.5, -.5], 3: [23 / 12., -16 / 12., 5 / 12.], 4: [55 / 24., -59 / 24., 37 / 24., -9 / 24.]}


class Model(object):
    """Reference state of one stepper instance (base units, dims sorted)."""

    def __init__(self, case):
        self.case = case
        self.hist = []
        self.old = None

    def step(self, vals, k):
        """Returns (filtered current values, new values)."""
        case = self.case
        s = case['scheme']
        dt = case['dt']
        if s['s'] in ('ab', 'own'):
            order = 1 if s['s'] == 'own' else s['order'] or 3
            self.hist.append(rates(case, vals, k))
            self.hist = self.hist[-order:]
            coefs = AB[len(self.hist)]
            new = {}
            for n in self.hist[-1]:
                new[n] = vals[n] + dt * sum(c * h[n] for c, h in zip(coefs, reversed(self.hist)))
            return {}, new
        if s['s'] == 'leapfrog':
            nu = 0.05 if s['nu'] is None else s['nu']
            alpha = 0.5 if s['alpha'] is None else s['alpha']
            r = rates(case, vals, k)
            if self.old is None:
                self.old = dict(vals)
                return {}, {n: vals[n] + dt * r[n] for n in r}
            new, cur = {}, {}
            for n in r:
                new[n] = self.old[n] + 2 * dt * r[n]
                d = nu / 2. * (self.old[n] - 2 * vals[n] + new[n])
                cur[n] = vals[n] + alpha * d
                new[n] = new[n] + (alpha - 1.) * d
            self.old = dict(vals)
            self.old.update(cur)
            return cur, new

        def euler(v):
            r = rates(case, v, k)
            out = dict(v)
            for n in r:
                out[n] = v[n] + dt * r[n]
            return out
        names = rates(case, vals, k)
        y1 = euler(vals)
        if s['stages'] == 2:
            y2 = euler(y1)
            return {}, {n: 0.5 * vals[n] + 0.5 * y2[n] for n in names}
        y2 = euler(y1)
        y2 = {n: 0.75 * vals[n] + 0.25 * y2[n] for n in y2}
        y3 = euler(y2)
        return {}, {n: vals[n] / 3. + y3[n] * 2. / 3 for n in names}


def make_stepper(case, comps):
    import sympl
    s = case['scheme']
    kw = {'tendencies_in_diagnostics': case['tid']}
    if case['name']:
        kw['name'] = case['name']
    if s['s'] == 'ab':
        cls = sympl.AdamsBashforth
        if s['order'] is not None:
            kw['order'] = s['order']
    elif s['s'] == 'leapfrog':
        cls = sympl.Leapfrog
        if s['nu'] is not None:
            kw['asselin_strength'] = s['nu']
        if s['alpha'] is not None:
            kw['alpha'] = s['alpha']
    elif s['s'] == 'own':
        cls = own_stepper()
    else:
        cls = sympl.SSPRungeKutta
        if s['stages'] is not None:
            kw['stages'] = s['stages']
    if case.get('derived') or case.get('tu'):
        extra = {}
        if case.get('tu'):
            extra = {'time_unit_name': case['tu'],
                     'time_unit_timedelta': datetime.timedelta(seconds=B.TIME_FACTORS[case['tu']])}
        cls = type('Derived', (cls,), extra)
    return cls(*comps, **kw)


# ---------------------------------------------------------------- driver

def same_units(da, units):
    try:
        return B.parse_units(da.attrs['units']) == B.parse_units(units)
    except KeyError:
        return False


def to_base(da, dims):
    return np.asarray(B.by_name(da, dims), dtype=float) * B.scale_offset(da.attrs['units'])[0]


def check(case, cov):
    dims = case['dims']
    dt = datetime.timedelta(seconds=case['dt'])
    faults, log = {}, []
    comps = make_components(case, faults, log)
    stepped = sorted({n for c in case['comps'] for n in c['tend']})
    needed = sorted(set(stepped) | {n for c in case['comps'] for n in c['inputs']})
    t0 = B.make_time(case['time'])
    rtol = 3e-4 if any(q['dtype'] == 'float32' for q in case['quants'].values()) else 1e-8
    runs = []
    for r in range(case['runs']):
        state = {}
        for n, q in case['quants'].items():
            q = dict(q, seed=q['seed'] // 10 ** 6 * 10 ** 6 + (q['seed'] + 17 * r) % 10 ** 6)
            state[n] = B.data_array(q, case['lens'])
            state[n].attrs['long_name'] = 'quantity ' + n
        for n, q in case['bystanders'].items():
            state[n] = B.data_array(q, case['lens'])
        state['time'] = t0
        runs.append({'state': state, 'stepper': make_stepper(case, comps), 'model': Model(case), 'steps': 0,
                     'scale': {n: 1e-12 + 4 * amplitude(case, n) for n in case['quants']}})
    total = 0
    for op in case['ops']:
        run = runs[op[1]]
        state = run['state']
        if op[0] == 'units':
            q = state[op[2]]
            new = q * (B.scale_offset(q.attrs['units'])[0] / B.scale_offset(op[3])[0])
            new.attrs = dict(q.attrs, units=op[3])
            state[op[2]] = new
            continue
        if op[0] == 'perm':
            state[op[2]] = state[op[2]].transpose(*op[3])
            continue
        if op[0] == 'scale':
            if op[4] and state[op[2]].dtype.kind == 'f' and run['steps']:
                state[op[2]] = B.writable(state[op[2]])
                state[op[2]].values[...] *= op[3]
                if case['scheme']['s'] == 'leapfrog' and op[2] not in stepped:
                    # not stepped, so the same array is in the old state: no effect on the result
                    pass
            else:
                new = state[op[2]] * op[3]
                new.attrs = dict(state[op[2]].attrs)
                state[op[2]] = new
            continue
        vals = {n: to_base(state[n], dims) for n in case['quants']}
        for n in vals:
            run['scale'][n] = max(run['scale'][n], B.top(vals[n]))
        before = B.snapshot(state)
        objs = dict(state)
        if op[0] == 'badstep':
            if not run['steps'] or case['scheme']['s'] in ('ssprk', 'own'):
                continue
            bad = dt + {'us': datetime.timedelta(microseconds=1), '-us': -datetime.timedelta(microseconds=1),
                        's': datetime.timedelta(seconds=1)}[op[2]] if isinstance(op[2], str) else dt * op[2]
            B.expect_raises(ValueError, lambda: run['stepper'](state, bad),
                            'a timestep that differs from the previous one')
            if not B.same_snapshot(before, B.snapshot(state)):
                fail('a refused step changed the state')
            cov.label('refused timestep')
            continue
        if op[0] == 'missing':
            if op[2] not in needed:
                continue
            import sympl
            partial = {k: v for k, v in state.items() if k != op[2]}
            B.expect_raises((KeyError, sympl.InvalidStateError), lambda: run['stepper'](partial, dt),
                            'a state without {}'.format(op[2]))
            if not B.same_snapshot(before, B.snapshot(state)):
                fail('a failed step changed the state')
            cov.label('failed step')
            continue
        if op[0] == 'fault':
            faults[case['comps'][op[2]].get('same', op[2])] = True
            B.expect_raises(Fault, lambda: run['stepper'](state, dt), 'a component that fails')
            if not B.same_snapshot(before, B.snapshot(state)):
                fail('a failed step changed the state')
            cov.label('component failure')
            continue
        k = (state['time'] - t0) / dt
        del log[:]
        want_diag = {}
        for spec in case['comps']:
            for n, d in spec['diag'].items():
                want_diag[n] = np.broadcast_to(diag_term(case, d, vals), [case['lens'][x] for x in dims])
        cur, new = run['model'].step(vals, k)
        diagnostics, new_state = run['stepper'](state, dt)
        if any(x != dt for x in log):
            fail('an implicit component was given the timestep {} instead of {}', log, dt)
        # the input state
        if set(state) != set(objs):
            fail('the keys of the input state changed')
        for n in objs:
            if case['scheme']['s'] == 'leapfrog' and n in stepped:
                want = cur.get(n, vals[n])
                got = to_base(state[n], dims)
                if not same_units(state[n], before[n][3]['units']):
                    fail('the units of {} in the input state changed', n)
                if not B.close(got, want, rtol=rtol, atol=rtol, scale=run['scale'][n]):
                    fail('{} in the input state is {} where the filter should give {}', n, got.tolist(), want.tolist())
            elif state[n] is not objs[n] or not B.same_snapshot(before[n], B.snapshot(state[n])):
                fail('{} in the input state was changed', n)
        # the new state
        if set(new_state) != set(state):
            fail('the new state has {} where the state has {}', sorted(new_state), sorted(state))
        for n in state:
            if n == 'time':
                if new_state[n] != t0 + dt * run['steps']:
                    fail('time is {} after the step', new_state[n])
            elif n in stepped:
                if not same_units(new_state[n], before[n][3]['units']):
                    fail('{} has units {} in the new state and {} in the state', n, new_state[n].attrs.get('units'),
                         before[n][3]['units'])
                got = to_base(new_state[n], dims)
                run['scale'][n] = max(run['scale'][n], B.top(new[n]))
                if not B.close(got, new[n], rtol=rtol, atol=rtol, scale=run['scale'][n]):
                    fail('step {} of {}: {} is {} but the scheme gives {} (base units)', run['steps'],
                         case['scheme'], n, got.tolist(), new[n].tolist())
                if np.shares_memory(new_state[n].values, state[n].values):
                    fail('{} in the new state shares memory with the input state', n)
            elif not B.same_snapshot(before[n], B.snapshot(new_state[n])):
                fail('{} has no tendencies but changed from {} to {}', n, before[n], B.snapshot(new_state[n]))
        # diagnostics: of the state that was passed in
        want = set(want_diag)
        if case['tid']:
            label = case['name'] or type(run['stepper']).__name__
            want |= {'{}_tendency_from_{}'.format(n, label) for n in stepped}
        if set(diagnostics) != want:
            fail('diagnostics are {} where {} were expected', sorted(diagnostics), sorted(want))
        if set(run['stepper'].diagnostic_properties) != want:
            fail('declared diagnostics are {} where {} were expected',
                 sorted(run['stepper'].diagnostic_properties), sorted(want))
        for n, w in want_diag.items():
            got = np.asarray(B.by_name(diagnostics[n], dims), dtype=float)
            if not B.close(got, w, rtol=max(rtol, 1e-7), atol=max(rtol, 1e-7), scale=100.):
                fail('diagnostic {} is {} but for the given state it should be {}', n, got.tolist(), w.tolist())
        if case['tid']:
            for n in stepped:
                da = diagnostics['{}_tendency_from_{}'.format(n, label)]
                units = da.attrs['units']
                try:
                    factor, exps = B.parse_units(units)
                except KeyError:
                    fail('tendency of {} in diagnostics has units {}', n, units)
                if exps != B.parse_units(B.per_time(before[n][3]['units']))[1]:
                    fail('tendency of {} in diagnostics has units {}', n, units)
                if case.get('tu') and not any(math.isclose(
                        factor, B.scale_offset(u)[0] / B.TIME_FACTORS[case['tu']], rel_tol=1e-9)
                        for u in B.LINEAR[case['quants'][n]['fam']]):
                    fail('tendency of {} in diagnostics has units {} of a stepper with times in {}', n, units, case['tu'])
                got = np.asarray(B.by_name(da, dims), dtype=float) * factor * case['dt']
                w = new[n] - cur.get(n, vals[n])
                if not B.close(got, w, rtol=rtol, atol=4 * rtol, scale=run['scale'][n]):
                    fail('tendency of {} in diagnostics times dt is {} but it changed by {}', n, got.tolist(),
                         w.tolist())
        run['steps'] += 1
        total += 1
        if case['reuse']:  # the caller's dictionary goes on
            state.update(new_state)
        else:
            run['state'] = dict(new_state)
        run['state']['time'] = t0 + dt * run['steps']
    cov.label('steps: {}'.format(min(total, 6)), 'runs: {}'.format(case['runs']), case['scheme']['s'])
    cov.nontrivial(max(r['steps'] for r in runs) >= 2)
