"""Independent reference helpers: unit tables, named arrays, component factory.

Nothing in here uses sympl's own unit, dimension or property handling: the
conversion factors are written out by hand and array alignment is done by
explicit axis bookkeeping on numpy arrays.
"""
import copy
import datetime as _dt

import numpy as np

from .core import fail, Violation

# unit string -> (scale, offset): base value = scale * value + offset
FAMILIES = {
    'length': {'m': (1., 0.), 'km': (1000., 0.), 'cm': (0.01, 0.), 'mm': (0.001, 0.), 'meter': (1., 0.),
               'Mm': (1e6, 0.)},
    'temperature': {'degK': (1., 0.), 'K': (1., 0.), 'kelvin': (1., 0.), 'degC': (1., 273.15),
                    'degF': (5. / 9, 459.67 * 5. / 9), 'mK': (1e-3, 0.)},
    'pressure': {'Pa': (1., 0.), 'hPa': (100., 0.), 'mbar': (100., 0.), 'kPa': (1000., 0.), 'atm': (101325., 0.),
                 'mPa': (1e-3, 0.), 'MPa': (1e6, 0.)},
    'ratio': {'': (1., 0.), 'dimensionless': (1., 0.), 'kg/kg': (1., 0.), 'g/kg': (1e-3, 0.),
              'kg kg^-1': (1., 0.), 'percent': (0.01, 0.), '%': (0.01, 0.)},
    'speed': {'m s^-1': (1., 0.), 'm/s': (1., 0.), 'km/hr': (1 / 3.6, 0.), 'cm s^-1': (0.01, 0.),
              'km s^-1': (1000., 0.)},
    'duration': {'s': (1., 0.), 'minute': (60., 0.), 'hr': (3600., 0.), 'day': (86400., 0.), 'seconds': (1., 0.)},
    'mass': {'kg': (1., 0.), 'g': (1e-3, 0.), 'mg': (1e-6, 0.), 'Mg': (1e3, 0.)},
    'flux': {'W m^-2': (1., 0.), 'kW m^-2': (1000., 0.), 'J s^-1 m^-2': (1., 0.), 'W/m**2': (1., 0.)},
}
UNIT_FAMILY = {u: f for f, us in FAMILIES.items() for u in us}
# families whose units are purely multiplicative, usable with tendencies
LINEAR = {f: {u: so for u, so in us.items() if so[1] == 0.} for f, us in FAMILIES.items()}
TIME_FACTORS = {'s': 1., 'minute': 60., 'hr': 3600., 'day': 86400.}


def scale_offset(units):
    return FAMILIES[UNIT_FAMILY[units]][units]


def convert(values, from_units, to_units):
    a, b = scale_offset(from_units)
    c, d = scale_offset(to_units)
    return (np.asarray(values, dtype=float) * a + b - d) / c


def per_time(units, time_unit='s'):
    """Unit string of a tendency of something in the given units."""
    return '{}^-1'.format(time_unit) if units == '' else '{} {}^-1'.format(units, time_unit)


def close(a, b, rtol=1e-9, atol=1e-9, scale=None):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if scale is None:
        scale = max(1., top(b))
    if not np.isfinite(scale):
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol * scale, equal_nan=True))


SPECIAL = {8: np.nan, 9: np.inf, 10: -np.inf}


def values(seed, shape, dtype='float64'):
    """Distinct, reproducible values of moderate size (both signs)."""
    n = int(np.prod(shape)) if len(shape) else 1
    rng = np.random.RandomState(seed % (2 ** 31))
    out = (rng.permutation(n) * 3 + 1 - n).astype(float)
    if dtype.startswith('float'):
        out = out + rng.randint(0, 8, size=n) / 8. + (seed % 97)
    else:
        out = out + (seed % 97)
    if dtype.startswith('float') and n and seed // 10 ** 6 in SPECIAL:
        out[seed % n] = SPECIAL[seed // 10 ** 6]
    return out.reshape(shape).astype(dtype)


def top(array):
    """The largest magnitude in an array."""
    array = np.abs(np.asarray(array, dtype=float))
    array = array[np.isfinite(array)]
    return float(array.max()) if array.size else 0.


def make_time(spec):
    import sympl
    if spec['k'] == 'td':
        return _dt.timedelta(seconds=spec['s'], microseconds=spec.get('us', 0))
    args = spec['d']
    return sympl.datetime(*args, calendar=spec.get('cal', 'proleptic_gregorian'))


MODES = 11


def in_memory(a, mode):
    """The same values, laid out differently in memory."""
    if not a.ndim:
        return a
    if mode == 1:  # another order of axes
        return np.ascontiguousarray(a.T).T
    if mode in (2, 7):  # every second element of a larger array
        big = np.full([2 * n for n in a.shape], 77).astype(a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if mode == 3:  # backwards
        index = tuple(slice(None, None, -1) for _ in a.shape)
        return a[index].copy()[index]
    if mode == 4:
        a.flags.writeable = False
        return a
    if mode == 5:  # other byte order
        return a.astype(a.dtype.newbyteorder())
    return a


def data_array(q, lens):
    """q: {'dims', 'units', 'seed', 'dtype'?, 'attrs'?} -> sympl DataArray

    The millions of the seed choose the memory layout, and whether there are
    coordinates (the same ones for a dim of a length everywhere)."""
    import sympl
    shape = [lens[d] for d in q['dims']]
    attrs = {'units': q['units']}
    attrs.update(q.get('attrs', {}))
    mode = q['seed'] // 10 ** 6 % MODES
    coords = {d: np.arange(lens[d]) * 1.5 + 10. for d in q['dims']} if mode in (6, 7) else None
    return sympl.DataArray(in_memory(values(q['seed'], shape, q.get('dtype', 'float64')), mode),
                           dims=list(q['dims']), attrs=attrs, coords=coords)


def writable(q):
    return q if q.values.flags.writeable else q.copy(deep=True)


def put(state, new):
    """Makes state equal to new, using the objects it has where that is possible."""
    import xarray as xr
    for name in [n for n in state if n not in new]:
        del state[name]
    for name, value in new.items():
        old = state.get(name)
        if isinstance(old, xr.DataArray) and isinstance(value, xr.DataArray) and old.dims == value.dims and \
                old.shape == value.shape and old.dtype == value.dtype and old.values.flags.writeable and \
                set(old.coords) == set(value.coords):
            old.values[...] = value.values
            old.attrs.clear()
            old.attrs.update(value.attrs)
        else:
            state[name] = value
    return state


def broadcast(array, dims, out_dims, lens):
    """Align a named array to out_dims, repeating along the dims it lacks."""
    array = np.asarray(array)
    assert len(dims) == array.ndim
    assert set(dims) <= set(out_dims), (dims, out_dims)
    have = [d for d in out_dims if d in dims]
    array = array.transpose([list(dims).index(d) for d in have])
    index = tuple(slice(None) if d in dims else None for d in out_dims)
    return np.broadcast_to(array[index], [lens[d] for d in out_dims]).copy()


def expand(dims, wild):
    """dims with '*' replaced by the wildcard names."""
    out = []
    for d in dims:
        out.extend(wild if d == '*' else [d])
    return out


def flat_shape(dims, wild, lens):
    return tuple(int(np.prod([lens[w] for w in wild])) if d == '*' else lens[d] for d in dims)


def by_name(quantity, out_dims):
    """Values of a DataArray with axes in the given order; fails on other dims."""
    if sorted(quantity.dims) != sorted(out_dims):
        fail('dims are {} where {} were expected (in some order)', tuple(quantity.dims), tuple(out_dims))
    arr = np.asarray(quantity.values)
    return arr.transpose([list(quantity.dims).index(d) for d in out_dims])


def snapshot(obj):
    """Deep, comparable picture of a state or nested container."""
    import xarray as xr
    if isinstance(obj, xr.DataArray):
        return ('da', obj.dims, np.array(obj.values, copy=True), copy.deepcopy(dict(obj.attrs)), obj.values.dtype.str)
    if isinstance(obj, np.ndarray):
        return ('np', np.array(obj, copy=True), obj.dtype.str)
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [snapshot(v) for v in obj]
    return obj


def same_snapshot(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(sorted(map(repr, a))) == list(sorted(map(repr, b))) and all(same_snapshot(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_snapshot(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    return bool(a == b) or (isinstance(a, float) and a != a and b != b)


def plain_attrs(attrs):
    """Attributes as numbers, strings and lists of them, comparable with ==."""
    def plain(v):
        v = np.asarray(v).tolist()
        if isinstance(v, list):
            return plain(v[0]) if len(v) == 1 else [plain(x) for x in v]
        return 'NaN' if v != v else v
    return {k: plain(v) for k, v in attrs.items()}


class Recorder(object):
    """What array_call was given, call by call."""

    def __init__(self):
        self.calls = []


KINDS = ('tendency', 'implicit', 'diagnostic', 'stepper')


def base_class(kind):
    import sympl
    return {'tendency': sympl.TendencyComponent, 'implicit': sympl.ImplicitTendencyComponent,
            'diagnostic': sympl.DiagnosticComponent, 'stepper': sympl.Stepper}[kind]


def make_class(kind, props, func, recorder=None, class_name='Comp', extra=None):
    """A component class.

    props: {'input':..., 'tendency':..., 'diagnostic':..., 'output':...} as used
    by the kind; func(raw, timestep) -> {'tendency': {...}, 'diagnostic': {...},
    'output': {...}}, again the ones the kind uses.
    """
    body = {'input_properties': props.get('input', {}),
            'diagnostic_properties': props.get('diagnostic', {})}
    if kind in ('tendency', 'implicit'):
        body['tendency_properties'] = props.get('tendency', {})
    if kind == 'stepper':
        body['output_properties'] = props.get('output', {})

    def run(state, timestep):
        if recorder is not None:
            recorder.calls.append(({k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v)
                                    for k, v in state.items()}, timestep))
        return func(state, timestep)

    if kind == 'tendency':
        def array_call(self, state):
            r = run(state, None)
            return r.get('tendency', {}), r.get('diagnostic', {})
    elif kind == 'implicit':
        def array_call(self, state, timestep):
            r = run(state, timestep)
            return r.get('tendency', {}), r.get('diagnostic', {})
    elif kind == 'diagnostic':
        def array_call(self, state):
            return run(state, None).get('diagnostic', {})
    else:
        def array_call(self, state, timestep):
            r = run(state, timestep)
            return r.get('diagnostic', {}), r.get('output', {})
    body['array_call'] = array_call
    style = props.get('style')
    declared = {k: v for k, v in body.items() if k.endswith('_properties')}
    if style == 'property':  # the same dictionaries at each access
        body.update({k: property(lambda self, v=v: v) for k, v in declared.items()})
    elif style == 'instance':  # set by the author in __init__, before initialising the base class
        body.update({k: None for k in declared})

        def init(self, *args, **kwargs):
            for k, v in declared.items():
                setattr(self, k, copy.deepcopy(v))  # sympl adds to it
            base_class(kind).__init__(self, *args, **kwargs)
        body['__init__'] = init
    body.update(extra or {})
    if style == 'inherited':  # from a class which another subclass has used before
        array_call = body.pop('array_call')
        parent = type('Parent', (base_class(kind),), body)
        sibling = type('Sibling', (parent,), {'array_call': array_call})
        try:
            sibling(**({} if kind == 'diagnostic' else {'name': 'sibling', 'tendencies_in_diagnostics': True}))
        except Exception:
            pass  # not with these properties
        return type(class_name, (parent,), {'array_call': array_call})
    return type(class_name, (base_class(kind),), body)


def call(component, kind, state, timestep):
    """Returns {'tendency':..., 'diagnostic':..., 'output':...}."""
    if kind == 'tendency':
        t, d = component(state)
        return {'tendency': t, 'diagnostic': d}
    if kind == 'implicit':
        t, d = component(state, timestep)
        return {'tendency': t, 'diagnostic': d}
    if kind == 'diagnostic':
        return {'diagnostic': component(state)}
    d, o = component(state, timestep)
    return {'diagnostic': d, 'output': o}


def expect_raises(types, func, what):
    """func() must raise one of the types; returns the error."""
    try:
        func()
    except types as err:
        return err
    except Exception as err:
        fail('{}: raised {} ({}) instead of {}', what, type(err).__name__, err,
             '/'.join(t.__name__ for t in (types if isinstance(types, tuple) else (types,))))
    fail('{}: no error was raised', what)


# name -> (factor to SI base, exponents of m, kg, s, K)
ATOMS = {
    'm': (1., (1, 0, 0, 0)), 'g': (1e-3, (0, 1, 0, 0)), 's': (1., (0, 0, 1, 0)), 'K': (1., (0, 0, 0, 1)),
    'degK': (1., (0, 0, 0, 1)), 'minute': (60., (0, 0, 1, 0)), 'min': (60., (0, 0, 1, 0)),
    'hr': (3600., (0, 0, 1, 0)), 'day': (86400., (0, 0, 1, 0)),
    'Pa': (1., (-1, 1, -2, 0)), 'bar': (1e5, (-1, 1, -2, 0)), 'atm': (101325., (-1, 1, -2, 0)),
    'J': (1., (2, 1, -2, 0)), 'W': (1., (2, 1, -3, 0)), 'N': (1., (1, 1, -2, 0)), 'Hz': (1., (0, 0, -1, 0)),
    'percent': (0.01, (0, 0, 0, 0)), 'count': (1., (0, 0, 0, 0)), 'dimensionless': (1., (0, 0, 0, 0)),
}
LONG = {'meter': 'm', 'metre': 'm', 'gram': 'g', 'second': 's', 'kelvin': 'K', 'degree_Kelvin': 'K', 'degreeK': 'K',
        'hour': 'hr', 'pascal': 'Pa', 'joule': 'J', 'watt': 'W', 'newton': 'N', 'hertz': 'Hz', 'days': 'day',
        'seconds': 's', 'minutes': 'minute', 'hours': 'hr', 'meters': 'm', 'h': 'hr', 'd': 'day',
        'standard_atmosphere': 'atm'}
PREFIX = {'k': 1e3, 'h': 1e2, 'c': 1e-2, 'm': 1e-3, 'u': 1e-6, 'M': 1e6,
          'kilo': 1e3, 'hecto': 1e2, 'centi': 1e-2, 'milli': 1e-3, 'micro': 1e-6, 'mega': 1e6}


def atom(name):
    if name in ATOMS:
        return ATOMS[name]
    if name in LONG:
        return ATOMS[LONG[name]]
    for p in sorted(PREFIX, key=len, reverse=True):
        rest = name[len(p):]
        long_form = len(p) > 2
        if name.startswith(p) and rest in (LONG if long_form else ATOMS) and not (
                rest in ('percent', 'count', 'dimensionless', 'degK', 'minute', 'min', 'hr', 'day', 'atm') and not long_form):
            f, e = atom(rest)
            return f * PREFIX[p], e
    raise KeyError(name)


_registry = []


def parse_units(text):
    """(factor, exponents) of a unit expression; raises KeyError if it is none."""
    try:
        return parse_simple(text)
    except KeyError:
        pass
    # a spelling the table does not have: ask pint itself (not sympl's registry)
    import pint
    if not _registry:
        _registry.append(pint.UnitRegistry())
        _registry[0].define('percent = 0.01*count = %')
    try:
        q = _registry[0](text).to_base_units()
        dims = dict(q.dimensionality)
        exps = tuple(float(dims.pop(d, 0)) for d in ('[length]', '[mass]', '[time]', '[temperature]'))
        if dims:
            raise KeyError(text)
        return float(q.magnitude), exps
    except Exception:
        raise BadUnits('{!r} is not a unit'.format(text))


class BadUnits(Violation, KeyError):
    """A label that cannot be understood is a violation unless a check handles it."""


def parse_simple(text):
    import re
    factor, exps = 1., np.zeros(4)
    text = text.strip()
    number = re.match(r'(\d+(?:\.\d*)?(?:e[+-]?\d+)?)\s*(?=[A-Za-z/])', text)
    if number:  # as in '1.0 kilometer / second'
        factor = float(number.group(1))
        text = text[number.end():]
    sign = 1
    pos = 0
    if text.startswith('/'):
        sign, pos = -1, 1
    token = re.compile(r'\s*([A-Za-z_]+|1(?=\s*/))\s*(?:(?:\^|\*\*)\s*([+-]?\d+(?:\.\d+)?))?\s*(\*(?!\*)|/)?')
    while pos < len(text):
        m = token.match(text, pos)
        if not m or m.end() == pos:
            raise KeyError(text)
        if m.group(1) != '1':
            f, e = atom(m.group(1))
            p = sign * float(m.group(2) or 1)
            factor *= f ** p
            exps += p * np.array(e)
        sign = -1 if m.group(3) == '/' else 1
        pos = m.end()
    return factor, tuple(float(e) for e in exps)
