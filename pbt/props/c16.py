"""Unit strings mean what they say: comparison, conversion and validation."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('Random unit expressions (products of powers of named units, in several spellings, with prefixes, % and °) '
        'compared and converted; the oracle computes factor and dimensions from a hand-written table. '
        'Temperatures with offsets are converted with the textbook formulas, and random text is given to the '
        'validity test. Non-trivial: two expressions with the same dimensions but different spelling, or a text '
        'that is not a unit.')

PI = 3.141592653589793
# spelling -> (factor, exponents of m, kg, s, K, mol), synonym group
D = (0, 0, 0, 0, 0)
ATOMS = {
    'm': (1., (1, 0, 0, 0, 0), 'm'), 'meter': (1., (1, 0, 0, 0, 0), 'm'), 'meters': (1., (1, 0, 0, 0, 0), 'm'),
    'km': (1e3, (1, 0, 0, 0, 0), 'km'), 'kilometer': (1e3, (1, 0, 0, 0, 0), 'km'),
    'cm': (1e-2, (1, 0, 0, 0, 0), 'cm'), 'mm': (1e-3, (1, 0, 0, 0, 0), 'mm'),
    'Mm': (1e6, (1, 0, 0, 0, 0), 'Mm'), 'Mg': (1e3, (0, 1, 0, 0, 0), 'Mg'), 'ms': (1e-3, (0, 0, 1, 0, 0), 'ms'),
    'mPa': (1e-3, (-1, 1, -2, 0, 0), 'mPa'), 'MPa': (1e6, (-1, 1, -2, 0, 0), 'MPa'),
    'mW': (1e-3, (2, 1, -3, 0, 0), 'mW'), 'MW': (1e6, (2, 1, -3, 0, 0), 'MW'),
    'g': (1e-3, (0, 1, 0, 0, 0), 'g'), 'gram': (1e-3, (0, 1, 0, 0, 0), 'g'),
    'kg': (1., (0, 1, 0, 0, 0), 'kg'), 'mg': (1e-6, (0, 1, 0, 0, 0), 'mg'),
    's': (1., (0, 0, 1, 0, 0), 's'), 'second': (1., (0, 0, 1, 0, 0), 's'), 'seconds': (1., (0, 0, 1, 0, 0), 's'),
    'minute': (60., (0, 0, 1, 0, 0), 'minute'), 'hr': (3600., (0, 0, 1, 0, 0), 'hr'),
    'hour': (3600., (0, 0, 1, 0, 0), 'hr'), 'day': (86400., (0, 0, 1, 0, 0), 'day'),
    'days': (86400., (0, 0, 1, 0, 0), 'day'), 'week': (604800., (0, 0, 1, 0, 0), 'week'),
    'K': (1., (0, 0, 0, 1, 0), 'K'), 'degK': (1., (0, 0, 0, 1, 0), 'K'), 'kelvin': (1., (0, 0, 0, 1, 0), 'K'),
    'Pa': (1., (-1, 1, -2, 0, 0), 'Pa'), 'pascal': (1., (-1, 1, -2, 0, 0), 'Pa'),
    'hPa': (100., (-1, 1, -2, 0, 0), 'hPa'), 'kPa': (1e3, (-1, 1, -2, 0, 0), 'kPa'),
    'mbar': (100., (-1, 1, -2, 0, 0), 'mbar'), 'millibar': (100., (-1, 1, -2, 0, 0), 'mbar'),
    'bar': (1e5, (-1, 1, -2, 0, 0), 'bar'), 'atm': (101325., (-1, 1, -2, 0, 0), 'atm'),
    'J': (1., (2, 1, -2, 0, 0), 'J'), 'kJ': (1e3, (2, 1, -2, 0, 0), 'kJ'), 'W': (1., (2, 1, -3, 0, 0), 'W'),
    'N': (1., (1, 1, -2, 0, 0), 'N'), 'Hz': (1., (0, 0, -1, 0, 0), 'Hz'),
    'mole': (1., (0, 0, 0, 0, 1), 'mol'), 'mol': (1., (0, 0, 0, 0, 1), 'mol'),
    'percent': (0.01, D, '%'), '%': (0.01, D, '%'), 'dimensionless': (1., D, '1'), 'count': (1., D, 'count'),
    'degree': (PI / 180, D, 'deg'), 'radian': (1., D, 'rad'), '°': (PI / 180, D, 'deg'),
    'degree_north': (PI / 180, D, 'degN'), 'degrees_N': (PI / 180, D, 'degN'), 'degreeN': (PI / 180, D, 'degN'),
    'degreesN': (PI / 180, D, 'degN'), 'degree_east': (PI / 180, D, 'degE'), 'degree_E': (PI / 180, D, 'degE'),
    'degrees_E': (PI / 180, D, 'degE'), 'degreesE': (PI / 180, D, 'degE'),
    'degrees_north': (PI / 180, D, 'degN'), 'degree_N': (PI / 180, D, 'degN'),
    'degrees_east': (PI / 180, D, 'degE'), 'degreeE': (PI / 180, D, 'degE'), '°N': (PI / 180, D, 'degN'),
}
NAMES = sorted(ATOMS)
GROUPS = {}
for _n in NAMES:
    GROUPS.setdefault(ATOMS[_n][2], []).append(_n)
BY_DIM = {}
for _n in NAMES:
    BY_DIM.setdefault(ATOMS[_n][1], []).append(_n)


def power(name, p, style):
    if p == 1:
        return name
    if isinstance(p, float) and p.is_integer():
        p = int(p)
    return '{}{}{}'.format(name, '**' if style % 2 else '^', p)


def render(terms, style):
    """style: bit 0 '**' instead of '^', bit 1 '*' instead of ' ', bit 2 divide by negative powers"""
    if not terms:
        return ''
    sep = '*' if style & 2 else ' '
    if style & 4:
        top = sep.join(power(n, p, style) for n, p in terms if p > 0)
        text = top or '1'
        for n, p in terms:
            if p < 0:
                text += '/' + power(n, -p, style)
        return text
    return sep.join(power(n, p, style) for n, p in terms)


def meaning(terms):
    f, e = 1., np.zeros(5)
    for n, p in terms:
        f *= ATOMS[n][0] ** p
        e += p * np.array(ATOMS[n][1])
    return f, tuple(e.tolist())


def check_pair(case, cov):
    import sympl
    a, b = render(case['a'], case['sa']), render(case['b'], case['sb'])
    fa, ea = meaning(case['a'])
    fb, eb = meaning(case['b'])
    compatible = ea == eb
    for x, y in ((a, b), (b, a)):
        for u in (x, y):
            if sympl.is_valid_unit(u) is not True:
                fail('is_valid_unit({!r}) is {}', u, sympl.is_valid_unit(u))
        if sympl.units_are_compatible(x, y) is not compatible:
            fail('units_are_compatible({!r}, {!r}) is {}', x, y, sympl.units_are_compatible(x, y))
        if not sympl.units_are_compatible(x, x) or not sympl.units_are_same(x, x):
            fail('{!r} is not the same unit as itself', x)
        same = bool(sympl.units_are_same(x, y))
        differs = not compatible or abs(fa / fb - 1) > 1e-6
        if same and differs:
            fail('units_are_same({!r}, {!r}) though they differ by a factor {} / dims {} {}', x, y, fa / fb, ea, eb)
        if case['rename'] and not same:
            fail('units_are_same({!r}, {!r}) is False', x, y)
    if compatible and not 1e-6 < fa / fb < 1e6:
        case['dtype'] = 'float64'  # others would overflow
    lens = {'x': case['len'], 'y': 3}
    q = {'dims': case['dims'], 'units': a, 'seed': case['seed'], 'dtype': case['dtype'],
         'attrs': {k: 'some thing' for k in case['attrs']}}
    da = B.data_array(q, lens)
    snap = B.snapshot(da)
    if compatible:
        result = da.to_units(b)
        want = np.asarray(da.values, dtype=float) * (fa / fb)
        if result.dims != da.dims or not isinstance(result, sympl.DataArray):
            fail('to_units gives dims {} for {}', result.dims, da.dims)
        text = result.attrs.get('units')
        if text != b and not (text == a and abs(fa / fb - 1) < 1e-6):
            fail('to_units({!r}) of a quantity in {!r} is labelled {!r}', b, a, text)
        if not B.close(result.values, want, rtol=1e-5 if case['dtype'] == 'float32' else 1e-9, atol=1e-12,
                       scale=max(1e-300, B.top(want))):
            fail('{} {!r} is {} {!r} where {} was expected', da.values.tolist(), a, result.values.tolist(), b,
                 want.tolist())
        if {k: v for k, v in result.attrs.items() if k != 'units'} != q['attrs']:
            fail('to_units lost an attribute: {}', result.attrs)
    else:
        B.expect_raises(ValueError, lambda: da.to_units(b), 'converting {!r} to {!r}'.format(a, b))
    if not B.same_snapshot(snap, B.snapshot(da)):
        fail('to_units({!r}) changed the quantity it was called on from {} to {}', b, snap, B.snapshot(da))
    cov.label('compatible' if compatible else 'incompatible', 'renamed' if case['rename'] else 'different')
    cov.nontrivial(compatible and a != b)


@st.composite
def terms(draw, max_size=3):
    out = []
    for _ in range(draw(st.integers(0, max_size))):
        out.append([draw(st.sampled_from(NAMES)), draw(st.sampled_from([1, 2, -1, -2, 3, -3, 1, -1, 0.5]))])
    return out


@st.composite
def pair_cases(draw):
    a = draw(terms())
    how = draw(st.sampled_from(['rename', 'rename', 'convert', 'convert', 'convert', 'other', 'drop']))
    if how == 'rename':  # same units, other spellings and order
        b = [[draw(st.sampled_from(GROUPS[ATOMS[n][2]])), p] for n, p in a]
        b = list(draw(G.permuted(b)))
    elif how == 'convert':
        b = [[draw(st.sampled_from(BY_DIM[ATOMS[n][1]])), p] for n, p in a]
        b = list(draw(G.permuted(b)))
        if draw(st.integers(0, 3)) == 0:
            b = b + [[draw(st.sampled_from(BY_DIM[D])), draw(st.sampled_from([1, -1]))]]
    elif how == 'drop':
        b = a[1:]
    else:
        b = draw(terms())
    return {'a': a, 'b': b, 'sa': draw(st.integers(0, 7)), 'sb': draw(st.integers(0, 7)), 'rename': how == 'rename',
            'dims': draw(G.subset(['x', 'y'])), 'seed': draw(G.seeds), 'len': draw(st.sampled_from([2, 2, 2, 1, 0])),
            'attrs': draw(G.attr_names),
            'dtype': draw(st.sampled_from(['float64', 'float64', 'float32', 'int64', 'int32', 'int16', 'int8', 'bool']))}


# pairs that mean the same unit, exactly; and pairs that do not
EQUAL = [('N m', 'J'), ('Pa', 'N/m^2'), ('W', 'J/s'), ('Hz', 's^-1'), ('hPa', 'mbar'), ('J/m^3', 'Pa'), ('', 'kg/kg'),
         ('dimensionless', 'm/m'), ('J', 'kg m^2 s^-2'), ('100 Pa', 'hPa'), ('1000 m', 'km'), ('0.5 km', '500 m'),
         ('1 m', 'm'), ('1', ''), ('0.01', 'percent'), ('60 s', 'minute'), ('3600 s', 'hr'), ('86400 s', 'day'),
         ('24 hr', 'day'), ('1e3 m', 'km'), ('W s', 'J'), ('1000 g', 'kg'), ('2 * 3 m', '6 m')]
UNEQUAL = [('2 m', 'm'), ('100 m', 'm'), ('10 hPa', 'hPa'), ('1000 Pa', 'hPa'), ('100', '1'), ('2 s', '3 s'),
           ('N m', 'N'), ('100 Pa', 'Pa'), ('0.1 m', '1 m'), ('1e-3 kg/kg', 'kg/kg'), ('7 day', 'day')]
PLAIN = ['m', 's', 'kg', 'K', 'mole']


def check_scaled(case, cov):
    """Numbers in units and derived units are part of what a unit means."""
    import sympl
    equal = case['pair'] < len(EQUAL)
    a, b = (EQUAL + UNEQUAL)[case['pair']]
    if case['swap']:
        a, b = b, a
    for n, p in case['extra']:
        term = power(n, p, 0)
        a, b = (' '.join(x for x in (u, term) if x) if case['after'] or not u or u[0].isdigit() else
                (term + ' ' + u) for u in (a, b))
    for u in (a, b):
        if sympl.is_valid_unit(u) is not True:
            fail('is_valid_unit({!r}) is not True', u)
    if bool(sympl.units_are_same(a, b)) is not equal:
        fail('units_are_same({!r}, {!r}) is {}', a, b, sympl.units_are_same(a, b))
    v = np.array([3., -1.5])
    da = sympl.DataArray(v.copy(), dims=['x'], attrs={'units': a})
    try:
        got = da.to_units(b)
    except ValueError:  # a number in units that are converted may be refused
        if equal or not (any(c.isdigit() for c in a + b)) and sympl.units_are_compatible(a, b):
            raise
    else:
        if equal and not B.close(got.values, v):
            fail('{} {!r} is {} {!r}', v.tolist(), a, got.values.tolist(), b)
        if not equal and B.close(got.values, v):
            fail('{} {!r} is also {} {!r}', v.tolist(), a, got.values.tolist(), b)
        if not sympl.units_are_same(got.attrs['units'], b):
            fail('{!r} converted to {!r} is labelled {!r}', a, b, got.attrs['units'])
    if not np.array_equal(da.values, v):
        fail('the converted quantity changed')
    cov.label('equal' if equal else 'unequal')
    cov.nontrivial()


@st.composite
def scaled_cases(draw):
    return {'pair': draw(st.integers(0, len(EQUAL) + len(UNEQUAL) - 1)), 'swap': draw(st.booleans()),
            'after': draw(st.booleans()),
            'extra': [[draw(st.sampled_from(PLAIN)), draw(st.sampled_from([1, 2, -1, -2]))]
                      for _ in range(draw(st.integers(0, 2)))]}


# base value (K) = scale * value + offset
TEMP = {'degK': (1., 0.), 'K': (1., 0.), 'kelvin': (1., 0.), 'mK': (1e-3, 0.), 'degC': (1., 273.15),
        'celsius': (1., 273.15), '°C': (1., 273.15), 'degF': (5. / 9, 459.67 * 5. / 9), '°F': (5. / 9, 459.67 * 5. / 9),
        'degree_Celsius': (1., 273.15)}


def check_temperature(case, cov):
    import sympl
    a, b, c = case['units']
    v = np.array(case['values'], dtype=float)
    da = sympl.DataArray(v.copy(), dims=['x'], attrs={'units': a, 'note': 'n'})
    for u in (a, b, c):
        if not sympl.is_valid_unit(u):
            fail('{!r} is not a valid unit', u)
    for x, y in ((a, b), (b, a)):
        if not sympl.units_are_compatible(x, y):
            fail('{!r} and {!r} are not compatible', x, y)
        if bool(sympl.units_are_same(x, y)) is not (TEMP[x] == TEMP[y]):
            fail('units_are_same({!r}, {!r}) is {}', x, y, sympl.units_are_same(x, y))

    def want(u):
        return (v * TEMP[a][0] + TEMP[a][1] - TEMP[u][1]) / TEMP[u][0]
    there = da.to_units(b)
    scale = B.top(v) * 1000 + 300000.
    if not B.close(there.values, want(b), scale=scale, atol=1e-12):
        fail('{} {!r} is {} {!r} where {} was expected', v.tolist(), a, there.values.tolist(), b, want(b).tolist())
    if not B.close(there.to_units(c).values, want(c), scale=scale, atol=1e-12):
        fail('{} {!r} is {} {!r} by way of {!r}', v.tolist(), a, there.to_units(c).values.tolist(), c, b)
    if not B.close(there.to_units(a).values, v, scale=scale, atol=1e-12):
        fail('{} {!r} comes back from {!r} as {}', v.tolist(), a, b, there.to_units(a).values.tolist())
    if not np.array_equal(da.values, v) or dict(da.attrs) != {'units': a, 'note': 'n'}:
        fail('the converted quantity changed')
    if there.attrs.get('note') != 'n' or (there.attrs['units'] != b and TEMP[a] != TEMP[b]):
        fail('attrs are {} after converting from {!r} to {!r}', there.attrs, a, b)
    kept = there.values.copy()
    v = v[::-1] * 2 + 1
    da.values[...] = v
    if not B.close(da.to_units(b).values, want(b), scale=2 * scale, atol=1e-12):
        fail('{} {!r} (altered) is {} {!r} where {} was expected', v.tolist(), a, da.to_units(b).values.tolist(), b,
             want(b).tolist())
    if a != b and TEMP[a] != TEMP[b] and not np.array_equal(there.values, kept):
        fail('what had been converted from {!r} to {!r} changed', a, b)
    da.attrs['units'], a = b, b
    if not B.close(da.to_units(c).values, want(c), scale=2 * scale, atol=1e-12):
        fail('{} {!r} (relabelled) is {} {!r} where {} was expected', v.tolist(), a, da.to_units(c).values.tolist(), c,
             want(c).tolist())
    cov.nontrivial(len({TEMP[u] for u in case['units']}) > 1)


@st.composite
def temperature_cases(draw):
    return {'units': [draw(st.sampled_from(sorted(TEMP))) for _ in range(3)],
            'values': draw(st.lists(st.floats(-1e3, 1e4, allow_nan=False, width=32), min_size=1, max_size=4))}


PIECES = ['m', 's', 'kg', 'foo', '%', '°', '/', '*', '**', '^', '2', '-1', ' ', '(', ')', '[', ',', '=', '!', '"', '#',
          '.', '_', 'é', 'degC', 'units', '$', '\\', '\n', '~', 'None', "'", ';', ':', '@', '+', '-', '&']
WRONG = ['foo', 'mm/', '#', 'm s^', 'notaunit', 'kg//m', 'metersecondz', '(m', 'm)', 'm^^2', '!', 'K K^K)', 'qq s^-1']


def check_text(case, cov):
    import sympl
    text = ''.join(case['text'])
    valid = sympl.is_valid_unit(text)
    if valid is not True and valid is not False:
        fail('is_valid_unit({!r}) returned {!r}', text, valid)
    if text in WRONG and valid:
        fail('{!r} is a valid unit', text)
    if valid:
        sympl.set_constant('of_some_unit', 2., text)
        cov.label('valid')
    else:
        sympl.set_constant('of_some_unit', 5., 'm')
        B.expect_raises(ValueError, lambda: sympl.set_constant('of_some_unit', 7., text),
                        'set_constant with units {!r}'.format(text))
        if sympl.get_constant('of_some_unit', 'm') != 5.:
            fail('a rejected set_constant changed the constant')
        cov.label('invalid')
        cov.nontrivial()


@st.composite
def text_cases(draw):
    if draw(st.integers(0, 9)) == 0:
        return {'text': [draw(st.sampled_from(WRONG))]}
    if draw(st.booleans()):
        return {'text': draw(st.lists(st.sampled_from(PIECES), max_size=4))}
    return {'text': list(draw(st.text(st.characters(exclude_categories=['Cs', 'Nd', 'Nl', 'No']), max_size=6)))}


def check_no_units(case, cov):
    import sympl
    attrs = {k: 'v' for k in case['attrs']}
    da = sympl.DataArray(np.zeros([2] * len(case['dims'])), dims=case['dims'], attrs=attrs)
    B.expect_raises(KeyError, lambda: da.to_units(case['units']), 'converting a quantity without units')
    if dict(da.attrs) != attrs:
        fail('attrs changed to {}', da.attrs)
    cov.nontrivial()


SUBS = [
    Sub('pair', pair_cases, check_pair, 12000, 60000),
    Sub('scaled', scaled_cases, check_scaled, 1800, 6000),
    Sub('temperature', temperature_cases, check_temperature, 2400, 10000),
    Sub('text', text_cases, check_text, 4800, 20000),
    Sub('no_units', lambda: st.fixed_dictionaries({
        'attrs': st.lists(st.sampled_from(['Units', 'unit', 'long_name']), unique=True),
        'dims': st.sampled_from([[], ['x'], ['x', 'y']]), 'units': st.sampled_from(['m', '', 's'])}), check_no_units,
        60, 100),
]
