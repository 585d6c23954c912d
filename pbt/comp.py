"""Components described by a generated case, and their reference semantics."""
import datetime as _dt
import itertools

import numpy as np

from . import build as B
from .core import fail


def raw_name(q):
    return q.get('alias', q['name'])


def declared(case, dims, where='in'):
    return tuple(dims) if case.get('tuples') in (True, where) else list(dims)


def in_props(case):
    out = {}
    for q in case['inputs']:
        p = {'dims': declared(case, q['pdims']), 'units': q['punits']}
        if 'alias' in q:
            p['alias'] = q['alias']
        if case.get('tuples'):
            p['long_name'] = 'input ' + q['name']
        out[q['name']] = p
    return out


def out_props(case, group):
    out = {}
    for o in case['groups'].get(group, []):
        p = {'units': o['units']}
        if o['dims'] is not None:
            p['dims'] = declared(case, o['dims'], 'out')
        if 'alias' in o:
            p['alias'] = o['alias']
        out[o['name']] = p
    return out


def properties(case):
    props = {'input': in_props(case)}
    for g in case['groups']:
        props[g] = out_props(case, g)
    if case.get('style'):
        props['style'] = case['style']
    return props


def out_dims(case, o):
    if o['dims'] is not None:
        return list(o['dims'])
    return list([q for q in case['inputs'] if q['name'] == o['name']][0]['pdims'])


def out_raw_name(case, o):
    if 'alias' in o:
        return o['alias']
    for q in case['inputs']:
        if q['name'] == o['name'] and 'alias' in q:
            return q['alias']
    return o['name']


def wild_dims(case):
    """The dims that '*' stands for, in no particular order."""
    return sorted({d for q in case['inputs'] if '*' in q['pdims'] for d in q['dims'] if d not in q['pdims']})


def dim_lens(case):
    """Length of every dim a component can see: 1 if no input has it."""
    have = {d for q in case['inputs'] for d in q['dims']}
    lens = {}
    for q in case['inputs']:
        for d in q['pdims']:
            if d != '*':
                lens[d] = case['lens'][d] if d in have else 1
    for d in wild_dims(case):
        lens[d] = case['lens'][d]
    for g in case['groups'].values():
        for o in g:
            if 'newlen' in o:
                lens['new'] = o['newlen']
    return lens


def uses(case, o, i):
    """Whether output o depends on input i: it must have all its raw dims."""
    return o['coefs'][i] != 0. and set(case['inputs'][i]['pdims']) <= set(out_dims(case, o))


def compute(case, raw, timestep):
    """What the component does, on raw arrays: a linear function of the inputs."""
    lens = {}
    for q in case['inputs']:
        for d, n in zip(q['pdims'], raw[raw_name(q)].shape):
            lens[d] = n
    result = {}
    for g, outs in case['groups'].items():
        result[g] = {}
        for o in outs:
            dims = out_dims(case, o)
            ol = dict(lens)
            if 'newlen' in o:
                ol['new'] = o['newlen']
            e = [d for d in dims if d != '*']
            total = B.broadcast(B.values(o['seed'], [ol[d] for d in e]), e, dims, ol)
            for i, q in enumerate(case['inputs']):
                if uses(case, o, i):
                    total = total + o['coefs'][i] * B.broadcast(raw[raw_name(q)], q['pdims'], dims, ol)
            result[g][out_raw_name(case, o)] = total
    return result


def expected(case, o, state_values):
    """(dims, values, magnitude of the terms) of an output, from the state's values."""
    lens = dim_lens(case)
    wild = wild_dims(case)
    rdims = out_dims(case, o)
    dims = B.expand(rdims, wild)
    e = [d for d in rdims if d != '*']
    total = B.broadcast(B.values(o['seed'], [lens[d] for d in e]), e, dims, lens)
    scale = 1. + B.top(total)
    for i, q in enumerate(case['inputs']):
        if uses(case, o, i):
            v = B.convert(state_values[q['name']], q['units'], q['punits'])
            total = total + o['coefs'][i] * B.broadcast(v, q['dims'], dims, lens)
            offset = abs(B.scale_offset(q['units'])[1]) + abs(B.scale_offset(q['punits'])[1])
            scale += abs(o['coefs'][i]) * (B.top(v) + offset / B.scale_offset(q['punits'])[0])
    return dims, total, scale


def make_state(case):
    state = {}
    quantities = {q['name']: q for q in case['inputs']}
    for d in case.get('decoys', []):  # nothing of the component's business
        if d['first'] and d['name'] not in quantities:
            state[d['name']] = decoy(d)
    for name, q in quantities.items():
        state[name] = B.data_array(q, case['lens'])
    state['time'] = B.make_time(case['time'])
    for d in case.get('decoys', []):
        if d['name'] not in state:
            state[d['name']] = decoy(d)
    return state


def decoy(d):
    q = B.data_array(d, d['lens'])
    if d['what'] == 'no units':
        del q.attrs['units']
    elif d['what'] == 'array':
        return q.values
    elif d['what'] == 'text':
        return 'text'
    return q


def state_values(case):
    return {q['name']: B.values(q['seed'], [case['lens'][d] for d in q['dims']], q.get('dtype', 'float64'))
            for q in case['inputs']}


def timestep(case):
    return _dt.timedelta(seconds=case['dt'])


def make(case, recorder=None, class_name='Comp', extra=None, **kwargs):
    cls = B.make_class(case['kind'], properties(case), lambda raw, dt: compute(case, raw, dt),
                       recorder, class_name, extra)
    return cls(**kwargs)


def converted(q, got, want):
    """Is got what want is, up to the rounding of the conversion of q to its declared units?"""
    rtol = 1e-5 if q.get('dtype') == 'float32' else 1e-9
    offset = abs(B.scale_offset(q['units'])[1]) + abs(B.scale_offset(q['punits'])[1])
    scale = 1. + B.top(want) + offset / B.scale_offset(q['punits'])[0]
    return B.close(got, want, rtol=rtol, atol=rtol, scale=scale)


def check_raw(case, raw, values, dtypes=False):
    """The arrays given to array_call are the declared view of the state."""
    lens = dim_lens(case)
    wild = wild_dims(case)
    arrays = {}
    for q in case['inputs']:
        key = raw_name(q)
        if key not in raw:
            fail('array_call was not given {} (keys {})', key, sorted(raw))
        a = raw[key]
        want = B.flat_shape(q['pdims'], wild, lens)
        if not isinstance(a, np.ndarray) or a.shape != want:
            fail('input {} with dims {} has shape {} but {} was expected', q['name'], q['pdims'],
                 getattr(a, 'shape', type(a)), want)
        dtype = np.dtype(q.get('dtype', 'float64'))
        if dtypes and B.scale_offset(q['units']) == B.scale_offset(q['punits']) and (
                (a.dtype.kind, a.dtype.itemsize) != (dtype.kind, dtype.itemsize)):
            fail('input {} of dtype {} was given as {}', q['name'], dtype, a.dtype)
        arrays[key] = a
    for order in itertools.permutations(wild):
        ok = True
        for q in case['inputs']:
            v = B.convert(values[q['name']], q['units'], q['punits'])
            full = B.broadcast(v, q['dims'], B.expand(q['pdims'], order), lens)
            if not converted(q, arrays[raw_name(q)], full.reshape(arrays[raw_name(q)].shape)):
                ok = False
                break
        if ok:
            return list(order)
    fail("array_call was given values that are not the state's values in the declared units and dims "
         '(last mismatch: {})', q['name'])


def check_dims_declared(case, o, quantity):
    """Declared explicit dims in the declared order, '*' matches where '*' is."""
    wild = wild_dims(case)
    rdims = out_dims(case, o)
    got = list(quantity.dims)
    marked = []
    for d in got:
        m = '*' if d in wild else d
        if not (m == '*' and marked and marked[-1] == '*'):
            marked.append(m)
    want = [d for d in rdims if not (d == '*' and not wild)]
    if marked != want:
        fail('output {} declared with dims {} has dims {}', o['name'], rdims, got)


def check_outputs(case, result, values, rtol=1e-9, skip=()):
    for g in case['groups']:
        want = {o['name'] for o in case['groups'][g]} | set(skip)
        if set(result[g]) | set(skip) != want:
            fail('{} output has quantities {} but {} were declared', g, sorted(result[g]), sorted(want))
        for o in case['groups'][g]:
            check_output(case, o, result[g][o['name']], values, rtol)


def tolerance(case):
    return 1e-5 if any(q.get('dtype') == 'float32' for q in case['inputs']) else 1e-9


def check_output(case, o, quantity, values, rtol=1e-9):
    import sympl
    if not isinstance(quantity, sympl.DataArray):
        fail('output {} is a {}, not a DataArray', o['name'], type(quantity).__name__)
    if quantity.attrs.get('units') != o['units']:
        fail('output {} declared in {} has units {}', o['name'], o['units'], quantity.attrs.get('units'))
    check_dims_declared(case, o, quantity)
    dims, want, scale = expected(case, o, values)
    got = B.by_name(quantity, dims)
    if not B.close(got, want, rtol=rtol, atol=rtol, scale=scale):
        fail('output {} has wrong values: {} where {} was expected (dims {})', o['name'],
             got.tolist(), want.tolist(), dims)
