"""get_numpy_array and restore_dimensions move data by dimension name, and undo each other."""
import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('Random quantities (0-4 dims, with or without coordinates) and requested dims (any order, wildcard anywhere, '
        'missing x/y/z); every element is checked to be where its named indices say, and restore_dimensions to give '
        'the quantity back. Non-trivial: at least two dims, and the request is not the order they have.')

DIMS = ['x', 'y', 'z', 'lat', 'lev', 't']


def make(case):
    import sympl
    dims = case['dims']
    coords = {d: np.arange(case['lens'][d]) * 2. + 5 for d in dims if d in case['coords']}
    return sympl.DataArray(B.values(case['seed'], [case['lens'][d] for d in dims], case['dtype']), dims=dims,
                           coords=coords, attrs={'units': 'm', 'note': 'n'})


def check_get(case, cov):
    import sympl
    da = make(case)
    out = case['out']
    snap = B.snapshot(da)
    rest = [d for d in case['dims'] if d not in out]
    bad = [d for d in out if d != '*' and d not in case['dims'] and d not in 'xyz']
    kw = {}
    order = list(rest)
    if case['require'] and '*' in out:
        order = [rest[i] for i in case['require_order'] if i < len(rest)]
        kw['require_wildcard_matches'] = {'*': list(order)}
    if case['matches']:
        kw['return_wildcard_matches'] = True
    if bad or (rest and '*' not in out):
        B.expect_raises(Exception, lambda: sympl.get_numpy_array(da, list(out), **kw),
                        'dims {} requested of {}'.format(out, case['dims']))
        cov.label('refused')
        cov.nontrivial(len(case['dims']) > 1)
        return
    result = sympl.get_numpy_array(da, list(out), **kw)
    if case['matches']:
        result, matches = result
        want = {'*': order} if '*' in out else {}
        if {k: list(v) for k, v in matches.items()} != want:
            fail('wildcard matches of {} in {} are {} where {} was expected', out, case['dims'], matches, want)
    lens = dict(case['lens'])
    full_dims = B.expand(out, order)
    missing = {d for d in full_dims if d not in case['dims']}
    want = B.broadcast(np.asarray(snap[2]), case['dims'], full_dims, {d: 1 if d in missing else lens[d] for d in full_dims})
    shape = [int(np.prod([lens[w] for w in order])) if d == '*' else (1 if d in missing else lens[d]) for d in out]
    if not isinstance(result, np.ndarray) or list(result.shape) != shape:
        fail('{} requested as {} has shape {} where {} was expected', case['dims'], out, getattr(result, 'shape', None),
             shape)
    if not np.array_equal(result, want.reshape(shape), equal_nan=True):
        fail('{} requested as {} is {} where {} was expected', case['dims'], out, result.tolist(),
             want.reshape(shape).tolist())
    if not B.same_snapshot(snap, B.snapshot(da)):
        fail('the quantity changed')
    cov.label('wildcard' if '*' in out else 'explicit', 'missing dims' if missing else 'all dims')
    if case['require'] and order != rest:
        return
    copy = np.array(result, copy=True) * 3 + 1
    attrs = case['attrs']
    back = sympl.restore_dimensions(copy, list(out), da, result_attrs=attrs)
    if list(back.dims) != list(case['dims']):
        fail('restoring {} from {} gives dims {}', case['dims'], out, back.dims)
    if not np.array_equal(back.values, np.asarray(snap[2]) * 3 + 1, equal_nan=True):
        fail('restoring {} from {} gives {} where {} was expected', case['dims'], out, back.values.tolist(),
             (snap[2] * 3 + 1).tolist())
    if dict(back.attrs) != (attrs or {}):
        fail('restored quantity has attrs {} where {} were given', back.attrs, attrs)
    for d in case['coords']:
        if d in case['dims'] and not np.array_equal(back.coords[d].values, da.coords[d].values):
            fail('coordinate {} is {} after restoring where {} was expected', d, back.coords[d].values,
                 da.coords[d].values)
    cov.nontrivial(len(case['dims']) > 1 and full_dims != case['dims'])


@st.composite
def get_cases(draw):
    dims = draw(G.subset(DIMS, max_size=4))
    out = list(draw(G.permuted(dims)))
    how = draw(st.sampled_from(['perm', 'star', 'star', 'extra', 'any']))
    if how in ('star', 'extra'):
        out = draw(G.subset(out))
        out.insert(draw(st.integers(0, len(out))), '*')
    if how == 'extra':
        for d in draw(G.subset([d for d in ['x', 'y', 'z'] if d not in dims])):
            out.insert(draw(st.integers(0, len(out))), d)
    if how == 'any':
        out = draw(G.subset(DIMS + ['*'], max_size=4))
    rest = [d for d in dims if d not in out]
    return {'dims': dims, 'out': out, 'lens': {d: draw(G.lengths) for d in DIMS}, 'seed': draw(G.seeds),
            'dtype': draw(st.sampled_from(['float64', 'int64', 'float32'])), 'coords': draw(G.subset(DIMS)),
            'require': draw(st.integers(0, 3)) == 0, 'require_order': list(draw(G.permuted(range(len(rest))))),
            'matches': draw(st.booleans()),
            'attrs': draw(st.sampled_from([None, {}, {'units': 's'}, {'note': ''}]))}


def check_mismatch(case, cov):
    """An array that has not got the size of the reference is not restored."""
    import sympl
    da = make(case)
    out = case['out']
    drop = [d for d in out if case['lens'][d] == 1]
    if drop and case['by'] == 1:
        # all the values are there, but not all the dims
        from_dims = [d for d in out if d != drop[0]]
        array = B.values(case['seed'], [case['lens'][d] for d in from_dims])
        try:
            back = sympl.restore_dimensions(array, from_dims, da)
        except Exception:
            cov.label('missing dim refused')
        else:
            if list(back.dims) != list(da.dims) or back.shape != da.shape:
                fail('restoring {} from {} gives dims {}', da.dims, from_dims, back.dims)
        cov.nontrivial()
        return
    array = np.zeros([n + (i == case['which'] % max(1, len(case['shape']))) * case['by']
                      for i, n in enumerate(case['shape'])])
    if array.size == da.size:
        return
    B.expect_raises(Exception, lambda: sympl.restore_dimensions(array, out, da),
                    'restoring an array of shape {} to {}'.format(array.shape, da.shape))
    cov.nontrivial()


@st.composite
def mismatch_cases(draw):
    case = draw(get_cases())
    case['out'] = list(draw(G.permuted(case['dims'])))
    case['shape'] = [case['lens'][d] for d in case['out']]
    case['which'] = draw(st.integers(0, 3))
    case['by'] = draw(st.integers(1, 2))
    return case


SUBS = [
    Sub('get', get_cases, check_get, 12000, 40000),
    Sub('mismatch', mismatch_cases, check_mismatch, 1200, 2000),
]
