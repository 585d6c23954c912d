"""AdamsBashforth follows the Adams-Bashforth scheme."""

from .. import build as B, step as S
from ..core import Sub

RULE = ('Random systems of 1-3 quantities (any dims, units, dtypes) with 1-3 tendency components in their own dims '
        'and units, stepped by 1-2 interleaved steppers in histories mixing steps with changes of units, dim order '
        'and values, refused timesteps and failing calls; compared after every step with the scheme written in '
        'numpy. Non-trivial: at least two steps by one stepper.')


def strategy():
    return S.cases([S.ab])


def check_order(case, cov):
    import sympl
    order = case['order']
    ok = isinstance(order, (int, float)) and float(order).is_integer() and 1 <= order <= 4
    comp = sympl.ConstantTendencyComponent({})
    if ok:
        sympl.AdamsBashforth(comp, order=order)
    else:
        B.expect_raises((ValueError, TypeError), lambda: sympl.AdamsBashforth(comp, order=order),
                        'order={!r}'.format(order))
    cov.nontrivial()


SUBS = [
    Sub('trajectory', strategy, S.check, 2250, 24000),
    Sub('order', None, check_order, 1, 1, enum=lambda: [
        {'order': o} for o in (-3, -1, 0, 1, 2, 3, 4, 5, 6, 100, 1., 2.0, 4., 5., 2.5, 0.5, '3', None, [2])]),
]
