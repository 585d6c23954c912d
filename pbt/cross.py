"""Sub-checks that decide part of another property too.

A statement such as "calls do not modify their arguments" is about everything
the package offers, so the checks of the parts are also run, with fewer and
other cases, for the broad properties whose statements imply what they assert.
"""
import importlib

from .core import Sub

SHARE = 0.5
MOST = {'quick': 800, 'thorough': 12000}

CROSS = {
    'C01': ['C18.call', 'C02.relayout', 'C16.pair', 'C24.functions'],
    'C02': ['C18.call', 'C26.round_trip', 'C04.outputs'],
    'C03': ['C01.function', 'C16.no_units', 'C10.declared', 'C14.history'],
    'C04': ['C02.component', 'C12.combine', 'C18.invalid', 'C26.aliases'],
    'C05': ['C15.difference', 'C14.history', 'C22.constant', 'C22.relaxation', 'C07.trajectory', 'C08.trajectory',
            'C09.trajectory', 'C13.scaling', 'C25.arithmetic', 'C28.history', 'C16.pair'],
    'C06': ['C07.trajectory', 'C08.trajectory', 'C09.trajectory'],
    'C07': ['C10.regroup', 'C10.columns', 'C10.tracers'],
    'C08': ['C10.regroup', 'C10.columns', 'C10.tracers'],
    'C09': ['C10.regroup', 'C10.columns', 'C10.tracers'],
    'C10': ['C07.trajectory', 'C08.trajectory', 'C09.trajectory', 'C11.sum', 'C18.call'],
    'C11': ['C10.regroup', 'C12.combine', 'C06.composite', 'C25.arithmetic'],
    'C12': ['C11.sum', 'C11.diagnostics', 'C11.same_state', 'C10.declared', 'C06.composite'],
    'C13': ['C27.alone', 'C22.relaxation'],
    'C14': ['C13.cached', 'C29.history'],
    'C15': ['C06.stepper', 'C18.call'],
    'C16': ['C01.component', 'C17.history'],
    'C17': ['C16.pair', 'C16.scaled'],
    'C18': ['C10.tracers', 'C15.tracers', 'C26.initialize', 'C12.combine'],
    'C19': ['C05.monitors', 'C11.monitors', 'C23.single'],
    'C20': ['C05.monitors', 'C29.monitor'],
    'C21': ['C24.restore', 'C26.round_trip'],
    'C22': ['C05.vehicles', 'C15.timestepper', 'C11.sum'],
    'C24': ['C01.function', 'C26.round_trip', 'C22.constant'],
    'C25': ['C11.sum', 'C22.constant'],
    'C26': ['C01.function', 'C02.roundtrip', 'C18.call', 'C04.properties'],
    'C27': ['C13.scaling', 'C11.types', 'C11.sum'],
    'C28': ['C05.monitors', 'C11.monitors'],
    'C29': ['C14.history', 'C05.instances'],
}


def subs(prop_id):
    out = []
    for name in CROSS.get(prop_id, []):
        home, sub = name.split('.')
        module = importlib.import_module('pbt.props.' + home.lower())
        s = [s for s in module.SUBS if s.name == sub][0]
        out.append(Sub(name, s.strategy, s.check, min(int(s.quick * SHARE), MOST['quick']),
                       min(int(s.thorough * SHARE), MOST['thorough']), enum=s.enum, shards=s.shards))
    return out
