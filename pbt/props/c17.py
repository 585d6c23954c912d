"""The constants library is a dictionary with units, aliases and a reset."""
import math

from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('Random histories of set_constant / get_constant (by name, alias and condensible-phase name, in random '
        'compatible and incompatible units) / set_condensible_name / reset_constants / get_constants_string against a '
        'dictionary model with hand-written defaults; after every operation the constants it concerns, and at the '
        'end every constant, must agree. Non-trivial: at least one set and one condensible change or reset.')

DEFAULTS = {
    'stefan_boltzmann_constant': (5.670367e-8, 'W m^-2 K^-4'),
    'gravitational_acceleration': (9.80665, 'm s^-2'),
    'heat_capacity_of_dry_air_at_constant_pressure': (1004.64, 'J kg^-1 K^-1'),
    'heat_capacity_of_water_vapor_at_constant_pressure': (1846.0, 'J kg^-1 K^-1'),
    'specific_enthalpy_of_water_vapor': (2500.0, 'J kg^-1'),
    'heat_capacity_of_liquid_water': (4185.5, 'J kg^-1 K^-1'),
    'freezing_temperature_of_liquid_water': (273.0, 'K'),
    'thermal_conductivity_of_liquid_water': (0.57, 'W m^-1 K^-1'),
    'heat_capacity_of_solid_water_as_ice': (2108., 'J kg^-1 K^-1'),
    'thermal_conductivity_of_solid_water_as_ice': (2.22, 'W m^-1 K^-1'),
    'heat_capacity_of_solid_water_as_snow': (2108., 'J kg^-1 K^-1'),
    'thermal_conductivity_of_solid_water_as_snow': (0.2, 'W m^-1 K^-1'),
    'reference_air_pressure': (1.0132e5, 'Pa'),
    'reference_air_temperature': (300., 'degK'),
    'thermal_conductivity_of_dry_air': (0.026, 'W m^-1 K^-1'),
    'gas_constant_of_dry_air': (287., 'J kg^-1 K^-1'),
    'gas_constant_of_water_vapor': (461.5, 'J kg^-1 K^-1'),
    'planetary_rotation_rate': (7.292e-5, 's^-1'),
    'planetary_radius': (6.371e6, 'm'),
    'latent_heat_of_vaporization_of_water': (2.5e6, 'J kg^-1'),
    'latent_heat_of_fusion_of_water': (333550.0, 'J kg^-1'),
    'density_of_liquid_water': (1e3, 'kg m^-3'),
    'density_of_solid_water_as_ice': (916.7, 'kg m^-3'),
    'density_of_solid_water_as_snow': (100.0, 'kg m^-3'),
    'solar_constant': (1367., 'W m^-2'),
    'planck_constant': (6.62607004e-34, 'J s'),
    'speed_of_light': (299792458., 'm s^-1'),
    'seconds_per_day': (86400., 'dimensionless'),
    'avogadro_constant': (6.022140857e23, 'mole^-1'),
    'boltzmann_constant': (1.38064852e-23, 'J K^-1'),
    'loschmidt_constant': (2.6516467e25, 'm^-3'),
    'universal_gas_constant': (8.3144598, 'J mole^-1 K^-1'),
}
ALIASES = {
    'latent_heat_of_condensation': 'latent_heat_of_vaporization',
    'enthalpy_of_fusion': 'latent_heat_of_fusion',
    'stellar_irradiance': 'solar_constant',
    'heat_capacity_of_ice': 'heat_capacity_of_solid_phase_as_ice',
    'heat_capacity_of_snow': 'heat_capacity_of_solid_phase_as_snow',
    'thermal_conductivity_of_ice': 'thermal_conductivity_of_solid_phase_as_ice',
    'thermal_conductivity_of_snow': 'thermal_conductivity_of_solid_phase_as_snow',
    'density_of_ice': 'density_of_solid_phase_as_ice',
    'density_of_snow': 'density_of_solid_phase_as_snow',
}
PHASE = {
    'gas_constant_of_vapor_phase': 'gas_constant_of_{}_vapor',
    'heat_capacity_of_vapor_phase': 'heat_capacity_of_{}_vapor_at_constant_pressure',
    'specific_enthalpy_of_vapor_phase': 'specific_enthalpy_of_{}_vapor',
    'density_of_liquid_phase': 'density_of_liquid_{}',
    'heat_capacity_of_liquid_phase': 'heat_capacity_of_liquid_{}',
    'latent_heat_of_vaporization': 'latent_heat_of_vaporization_of_{}',
    'freezing_temperature_of_liquid_phase': 'freezing_temperature_of_liquid_{}',
    'thermal_conductivity_of_liquid_phase': 'thermal_conductivity_of_liquid_{}',
    'latent_heat_of_fusion': 'latent_heat_of_fusion_of_{}',
    'density_of_solid_phase_as_ice': 'density_of_solid_{}_as_ice',
    'density_of_solid_phase_as_snow': 'density_of_solid_{}_as_snow',
    'heat_capacity_of_solid_phase_as_ice': 'heat_capacity_of_solid_{}_as_ice',
    'heat_capacity_of_solid_phase_as_snow': 'heat_capacity_of_solid_{}_as_snow',
    'thermal_conductivity_of_solid_phase_as_ice': 'thermal_conductivity_of_solid_{}_as_ice',
    'thermal_conductivity_of_solid_phase_as_snow': 'thermal_conductivity_of_solid_{}_as_snow',
}
USER = ['my_constant', 'my_length', 'other']
CONDENSIBLES = ['water', 'methane', 'carbon_dioxide']
NAMES = sorted(set(DEFAULTS) | set(ALIASES) | set(PHASE) | set(USER) |
               {t.format(c) for t in PHASE.values() for c in CONDENSIBLES})
UNIT_SETS = {
    'J kg^-1': [('J kg^-1', 1.), ('kJ kg^-1', 1e3), ('J g^-1', 1e3), ('m^2 s^-2', 1.), ('J/kg', 1.)],
    'J kg^-1 K^-1': [('J kg^-1 K^-1', 1.), ('kJ kg^-1 degK^-1', 1e3), ('m^2 s^-2 K^-1', 1.)],
    'kg m^-3': [('kg m^-3', 1.), ('g cm^-3', 1e3), ('g/m**3', 1e-3)],
    'm': [('m', 1.), ('km', 1e3), ('mm', 1e-3)],
    'Pa': [('Pa', 1.), ('hPa', 100.), ('mbar', 100.)],
    '': [('', 1.), ('dimensionless', 1.), ('percent', 0.01)],
    's^-1': [('s^-1', 1.), ('day^-1', 1 / 86400.)],
    'W m^-2': [('W m^-2', 1.), ('kW m^-2', 1e3), ('J s^-1 m^-2', 1.)],
}
KEYS = sorted(UNIT_SETS)


class Model(object):

    def __init__(self):
        self.reset()

    def reset(self):
        self.condensible = 'water'
        self.constants = {n: (v, u, None) for n, (v, u) in DEFAULTS.items()}

    def resolve(self, name):
        name = ALIASES.get(name, name)
        if name in PHASE:
            name = PHASE[name].format(self.condensible)
        return name


def compare(model, name, what):
    import sympl
    key = model.resolve(name)
    if key not in model.constants:
        B.expect_raises(KeyError, lambda: sympl.get_constant(name, 'm'), '{}: {} which is not set'.format(what, name))
        return
    v, u, fam = model.constants[key]
    got = sympl.get_constant(name, u)
    if got != v or isinstance(got, complex):
        fail('{}: {} is {} {} where {} was expected', what, name, got, u, v)


def check_history(case, cov):
    import sympl
    model = Model()
    kinds = set()
    for step, op in enumerate(case['ops']):
        what = 'after operation {} ({})'.format(step, op[0])
        kinds.add(op[0])
        if op[0] == 'set':
            _, name, value, fam, k = op
            unit, factor = UNIT_SETS[fam][k % len(UNIT_SETS[fam])]
            sympl.set_constant(name, value, unit)
            model.constants[model.resolve(name)] = (value, unit, (fam, factor))
            compare(model, name, what)
        elif op[0] == 'bad':
            _, name, value = op
            B.expect_raises(ValueError, lambda: sympl.set_constant(name, value, 'not_a_unit'),
                            'set_constant with a wrong unit')
            compare(model, name, what)
        elif op[0] == 'get':
            _, name, k = op
            key = model.resolve(name)
            compare(model, name, what)
            if key in model.constants and model.constants[key][2]:
                v, u, (fam, factor) = model.constants[key]
                unit, f = UNIT_SETS[fam][k % len(UNIT_SETS[fam])]
                got = sympl.get_constant(name, unit)
                if not math.isclose(got, v * factor / f, rel_tol=1e-12, abs_tol=0.):
                    fail('{}: {} of {} {} is {} {}', what, name, v, u, got, unit)
                other = KEYS[(KEYS.index(fam) + 1 + k % (len(KEYS) - 1)) % len(KEYS)]
                B.expect_raises(ValueError, lambda: sympl.get_constant(name, UNIT_SETS[other][0][0]),
                                '{} in {} requested in {}'.format(name, u, UNIT_SETS[other][0][0]))
        elif op[0] == 'condensible':
            sympl.set_condensible_name(op[1])
            model.condensible = op[1]
            for name in sorted(PHASE) + sorted(ALIASES):
                compare(model, name, what)
        elif op[0] == 'reset':
            sympl.reset_constants()
            model.reset()
        else:
            text = sympl.get_constants_string()
            for name, (v, u, _) in sorted(model.constants.items()):
                lines = [l.strip() for l in text.splitlines()
                         if l.strip().startswith(name + ':')]
                if not lines or not all(repr(float(v)) in l or str(v) in l for l in lines):
                    fail('{}: get_constants_string gives {} for {} = {} {}', what, lines, name, v, u)
    for name in NAMES:
        compare(model, name, 'at the end')
    cov.label(*kinds)
    cov.nontrivial('set' in kinds and (kinds & {'condensible', 'reset'}))


number = st.one_of(st.floats(-1e6, 1e6, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-12),
                   st.sampled_from([0., 1., -3.5, 1e-9, 6e23]))


@st.composite
def histories(draw, max_size=10):
    favourites = draw(G.subset(NAMES, min_size=4, max_size=6))
    some = st.one_of(st.sampled_from(favourites), st.sampled_from(sorted(PHASE) + sorted(ALIASES)),
                     st.sampled_from(NAMES))
    ops = []
    for _ in range(draw(st.integers(1, max_size))):
        kind = draw(st.sampled_from(['set', 'set', 'set', 'get', 'get', 'condensible', 'condensible', 'reset', 'bad',
                                     'string']))
        if kind == 'set':
            ops.append(['set', draw(some), draw(number), draw(st.sampled_from(KEYS)), draw(st.integers(0, 4))])
        elif kind == 'get':
            ops.append(['get', draw(some), draw(st.integers(0, 20))])
        elif kind == 'condensible':
            ops.append(['condensible', draw(st.sampled_from(CONDENSIBLES))])
        elif kind == 'bad':
            ops.append(['bad', draw(some), draw(number)])
        else:
            ops.append([kind])
    return {'ops': ops}


SUBS = [Sub('history', histories, check_history, 7200, 40000)]
