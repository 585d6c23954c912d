"""Sums and differences of DataArrays keep the left operand's metadata."""
import operator

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('Random DataArrays added to and subtracted from DataArrays, xarray DataArrays, numpy arrays and numbers: the '
        'values must be those of aligning by dimension name, the attributes those of the left operand, neither '
        'operand may change and the attributes must not be shared. Non-trivial: an attribute and a dim.')


def check_arithmetic(case, cov):
    import sympl
    import xarray as xr
    lens = case['lens']
    a = B.data_array(case['a'], lens)
    if case['bare']:
        a.attrs.clear()
    if case['right'] in ('da', 'xr'):
        b = B.data_array(case['b'], lens)
        bv, bdims = np.array(b.values), case['b']['dims']
        if case['right'] == 'xr':
            b = xr.DataArray(b.values, dims=b.dims, attrs=b.attrs)
    elif case['right'] == 'np':
        bdims = case['a']['dims']
        b = B.values(case['b']['seed'], [lens[d] for d in bdims], case['b']['dtype'])
        bv = b.copy()
    else:
        b, bdims = case['number'], []
        bv = np.asarray(b)
    sa, sb = B.snapshot(a), B.snapshot(b)
    op = operator.add if case['op'] == '+' else operator.sub
    result = op(a, b)
    if not isinstance(result, sympl.DataArray):
        fail('the result is a {}', type(result))
    dims = list(case['a']['dims']) + [d for d in bdims if d not in case['a']['dims']]
    want = op(B.broadcast(sa[2], case['a']['dims'], dims, lens), B.broadcast(bv, bdims, dims, lens))
    if not np.array_equal(B.by_name(result, dims), want, equal_nan=True):
        fail('{} {} {} is {} where {} was expected', sa, case['op'], sb, result.values.tolist(), want.tolist())
    if dict(result.attrs) != sa[3]:
        fail('attributes are {} where the left operand has {}', dict(result.attrs), sa[3])
    result.attrs['units'] = 'changed'
    result.attrs['new'] = 1
    result.values[...] = 0
    if not B.same_snapshot(sa, B.snapshot(a)) or not B.same_snapshot(sb, B.snapshot(b)):
        fail('an operand changed: {} {} {}', sa, case['op'], sb)
    cov.label(case['right'], case['op'])
    cov.nontrivial(bool(case['a']['dims']) and len(sa[3]) > 0)


@st.composite
def cases(draw):
    def one():
        return {'dims': draw(G.subset(['x', 'y', 'z'])), 'units': draw(st.sampled_from(['m', 's', ''])),
                'seed': draw(G.seeds), 'dtype': draw(st.sampled_from(['float64', 'float32', 'int64'])),
                'attrs': draw(st.sampled_from([{}, {'long_name': 'n'}, {'a': 1, 'b': [1, 2]}, {'standard_name': 's', '_p': 1}]))}
    return {'a': one(), 'b': one(), 'lens': {d: draw(G.lengths) for d in 'xyz'}, 'op': draw(st.sampled_from('+-')),
            'bare': draw(st.integers(0, 5)) == 0,
            'right': draw(st.sampled_from(['da', 'da', 'xr', 'np', 'number'])),
            'number': draw(st.sampled_from([0, 1, -2.5, 1e6]))}


SUBS = [Sub('arithmetic', cases, check_arithmetic, 8000, 20000)]
