"""SSPRungeKutta follows its scheme."""

from .. import build as B, step as S
from ..core import Sub

RULE = ('Random systems of 1-3 quantities (any dims, units, dtypes) with 1-3 tendency components in their own dims '
        'and units, stepped by 1-2 interleaved steppers in histories mixing steps with changes of units, dim order '
        'and values, refused timesteps and failing calls; compared after every step with the scheme written in '
        'numpy. Non-trivial: at least two steps by one stepper.')


def strategy():
    return S.cases([S.ssprk])


def check_stages(case, cov):
    import sympl
    comp = sympl.ConstantTendencyComponent({})
    if case['stages'] in (2, 3):
        sympl.SSPRungeKutta(comp, stages=case['stages'])
    else:
        B.expect_raises((ValueError, TypeError), lambda: sympl.SSPRungeKutta(comp, stages=case['stages']),
                        'stages={!r}'.format(case['stages']))
    cov.nontrivial()


SUBS = [
    Sub('trajectory', strategy, S.check, 2250, 24000),
    Sub('stages', None, check_stages, 1, 1, enum=lambda: [
        {'stages': o} for o in (-1, 0, 1, 2, 3, 4, 5, 2.5, '3', None)]),
]
