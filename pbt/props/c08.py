"""Leapfrog follows the filtered leapfrog scheme."""

from .. import step as S
from ..core import Sub

RULE = ('Random systems of 1-3 quantities (any dims, units, dtypes) with 1-3 tendency components in their own dims '
        'and units, stepped by 1-2 interleaved steppers in histories mixing steps with changes of units, dim order '
        'and values, refused timesteps and failing calls; compared after every step with the scheme written in '
        'numpy. Non-trivial: at least two steps by one stepper.')


def strategy():
    return S.cases([S.leapfrog])


SUBS = [
    Sub('trajectory', strategy, S.check, 2250, 24000),
]
