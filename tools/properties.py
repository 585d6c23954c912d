"""Writes properties.jsonl and MANIFEST.json (the single place where both are kept in step)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'sympl/_core/'
COMP = 'sympl/_components/'


def P(id, title, statement, over, text, why, files, mechanism, note, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, note=note, observe=observe or [], state=state or [])


BASE = CORE + 'base_components.py'
PROPS = [
    P('C01', 'Components are given exactly the view of the state they declare',
      'Whatever dimension order, units, dtype or extra quantities a state has, the raw arrays a component computes with '
      'hold the values of the state (in its dtype unless converted) in the declared units, with the declared dimension order, under the declared alias, '
      'with all undeclared dimensions flattened into the wildcard (in one order shared by all inputs) and missing '
      'dimensions broadcast. The same holds for the public function that extracts arrays by properties, and the time is passed on unchanged. '
      'What a component is given depends on this call only, not on earlier calls.',
      ['inputs', 'programs', 'histories'],
      'all states, all declared input properties, all four component types, all sequences of calls',
      'Tests use a few hand-written shapes, mostly one wildcard dimension and units that already match; combinations of '
      'permutation, broadcasting, several wildcard dims and conversion are not sampled.',
      [BASE, CORE + 'get_np_arrays.py', CORE + 'wildcard.py', CORE + 'backend.py'],
      [('array extraction by properties', CORE + 'get_np_arrays.py:get_numpy_arrays_with_properties'),
       ('wildcard matching and dim lengths', CORE + 'wildcard.py:get_wildcard_matches_and_dim_lengths'),
       ('alignment, broadcasting, flattening', CORE + 'backend.py:DataArrayBackend.get_array')],
      'Generated components record the arrays they are given; compared element by element with a named-axis and '
      'unit-table oracle that shares no code with sympl. Trusts numpy and xarray construction.'),
    P('C02', 'What a component computes comes back as correctly labelled quantities',
      'The quantities a component returns hold the numbers it computed, with the declared units and dimension names, '
      'wildcard dimensions expanded back to the names and lengths of the state, under the quantity name rather than the '
      'alias, and with the input\'s dims when none are declared. A component written in terms of dimension names therefore '
      'gives the same result (by name) for every equivalent layout and units of the same state.',
      ['inputs', 'programs'], 'all states, output properties (explicit, wildcard, inherited, missing dims), component types',
      'Tests check single outputs with one or two dims; mixes of wildcard and inherited dims, aliases and several outputs are not sampled.',
      [BASE, CORE + 'restore_dataarray.py', CORE + 'wildcard.py'],
      [('restoring arrays to quantities', CORE + 'restore_dataarray.py:restore_data_arrays_with_properties'),
       ('wildcard expansion', CORE + 'wildcard.py:expand_array_wildcard_dims')],
      'Generated linear components evaluated by sympl and by name in numpy; plus relayout metamorphic relation and round trip of arrays.'),
    P('C03', 'Invalid states are refused before anything is computed',
      'When a state lacks a needed quantity or the time, or has a needed quantity without units, with units that cannot be '
      'converted to the declared ones, with dimensions that are neither declared nor covered by a wildcard, or with '
      'conflicting dimension lengths, the call raises an error and the component\'s computation is never run. This '
      'also holds when the component is called through composites, time steppers or wrappers.',
      ['inputs', 'programs', 'configurations'], 'all components and valid states, every single corruption of the state, every way of calling',
      'Tests cover one corruption of one quantity at a time on bare components with one or two inputs.',
      [BASE, CORE + 'get_np_arrays.py', CORE + 'wildcard.py', CORE + 'backend.py', CORE + 'tendencystepper.py'],
      [('state checking', BASE + ':InputChecker.check_inputs'), ('unit and dim checks', CORE + 'backend.py'),
       ('length consistency', CORE + 'wildcard.py:get_wildcard_matches_and_dim_lengths')],
      'Fault injection into generated valid states; any accepted invalid state or computation that ran is a violation; unbroken controls must pass.'),
    P('C04', 'Components that break their declared contract are reported',
      'A component whose computation returns a missing, undeclared or wrongly shaped output raises an error instead of '
      'returning a state; a component declared with unusable properties (not a dictionary, no units, no determinable dims, clashing '
      'aliases, output or tendency units incompatible with the input\'s) or not initialised is refused. '
      'Components that keep their contract are never refused.',
      ['programs', 'inputs'], 'all components, every single breach of contract, all states',
      'Tests break one hand-written component per error class; multi-dimensional, wildcard and aliased outputs and breaches on the second output are not sampled.',
      [BASE, CORE + 'restore_dataarray.py', CORE + 'wildcard.py'],
      [('output checkers', BASE + ':TendencyChecker, DiagnosticChecker, OutputChecker'),
       ('property checks', BASE + ':InputChecker, check_overlapping_aliases'),
       ('shape checks', CORE + 'restore_dataarray.py:check_array_shape')],
      'Contract breaches injected in generated components, with unbroken controls.'),
    P('C05', 'Calls do not modify their arguments, other components or themselves',
      'Calling a component, composite, time stepper, wrapper or monitor leaves the given state (values, attributes, keys) as '
      'it was (apart from the documented filtering of the current state by Leapfrog), and does not change declared properties, arrays given at construction, or the results of other instances. '
      'Calling a component whose computation is a pure function again with the same state gives the same result, and '
      'modifying returned states does not change later results.',
      ['histories', 'programs', 'inputs'], 'all interleavings of calls of several instances of pure components on any states',
      'Tests check that inputs are unmodified for single calls of mock components only; aliasing across calls and instances needs histories.',
      [BASE, CORE + 'composite.py', CORE + 'wrappers.py', CORE + 'tendencystepper.py', COMP + 'basic.py', COMP + 'timesteppers.py', COMP + 'netcdf.py', COMP + 'plot.py'],
      [('instance-specific properties', BASE + ':make_properties_instance_specific'), ('copies before scaling', CORE + 'wrappers.py:ScalingWrapper.__call__'),
       ('tendency copies', CORE + 'composite.py')],
      'Deep snapshots before and after generated call histories; differential against fresh instances.'),
    P('C06', 'Tendencies put in diagnostics are the tendencies, and nothing else changes',
      'With tendencies in diagnostics requested, a component or stepper additionally returns, as declared diagnostics with '
      'declared dims and per-second units (or its own time unit for steppers that declare one), exactly the tendency of each quantity '
      '- for a stepper, (new - old)/timestep. All other outputs are equal to those without the option, and other instances are unaffected.',
      ['programs', 'inputs', 'configurations'], 'all tendency, implicit tendency and stepper components, in and out of composites and time steppers',
      'Tests cover components with one quantity in fixed units; aliases, wildcards, different time units and several instances are not sampled.',
      [BASE, CORE + 'tendencystepper.py'],
      [('tendency diagnostics of components', BASE + ':_insert_tendencies_to_diagnostics, _insert_tendency_properties'),
       ('tendency diagnostics of time steppers', CORE + 'tendencystepper.py:_insert_tendencies_to_diagnostics')],
      'Differential (with/without option) plus reference difference quotient on generated components. One known finding (property-attribute steppers).'),
    P('C07', 'AdamsBashforth steps are those of the Adams-Bashforth scheme',
      'Each call advances every quantity with a tendency by the Adams-Bashforth formula of the configured order, starting '
      'up with lower orders, using only past tendencies of this stepper\'s successful steps; diagnostics are those of '
      'the components at the old state, and quantities without tendencies are not modified. '
      'The result does not depend on the units, dims order or dtype in which states and tendencies are written, and a changed timestep is refused.',
      ['histories', 'inputs', 'configurations'], 'all systems of components, orders 1-4, states and call histories including refused and failing calls and interleaved steppers',
      'Tests step scalar or one-dimensional quantities in one unit a few times with constant mock tendencies.',
      [COMP + 'timesteppers.py', CORE + 'tendencystepper.py', CORE + 'state.py'],
      [('scheme', COMP + 'timesteppers.py:AdamsBashforth'), ('unit conversion', COMP + 'timesteppers.py:convert_tendencies_units_for_state')],
      'Model-based histories against the scheme written in numpy (weights from the literature), plus observed order of convergence.'),
    P('C08', 'Leapfrog steps are those of the filtered leapfrog scheme',
      'The first call is a forward Euler step; each later call advances from the previous filtered state by two timesteps of the '
      'current tendency and applies the Robert-Asselin-Williams filter (strength and alpha as configured) to the current state it was given and '
      'the new one. Diagnostics are those at the current state, quantities without tendencies are not modified, results '
      'do not depend on units, dims order or dtype, and a changed timestep is refused.',
      ['histories', 'inputs', 'configurations'], 'all systems, filter strengths, alphas, states and call histories including refused and failing calls and interleaved steppers',
      'Tests step a single quantity a few times with default or zero filter.',
      [COMP + 'timesteppers.py', CORE + 'tendencystepper.py'],
      [('scheme and filter', COMP + 'timesteppers.py:Leapfrog, step_leapfrog')],
      'Model-based histories against the scheme written in numpy.'),
    P('C09', 'SSPRungeKutta steps are those of the strong-stability-preserving schemes',
      'Each call advances every quantity with a tendency by the 2- or 3-stage strong-stability-preserving Runge-Kutta '
      'formula (Euler for one), evaluating tendencies at the stage states; diagnostics are those of the state the call '
      'was given, and other quantities are not modified. Results do not depend on units, dims order, dtype or earlier calls.',
      ['histories', 'inputs', 'configurations'], 'all systems, stage numbers, states and call histories including failing calls',
      'Tests step a single quantity a few times.',
      [COMP + 'timesteppers.py', CORE + 'tendencystepper.py', CORE + 'state.py'],
      [('scheme', COMP + 'timesteppers.py:SSPRungeKutta')],
      'Model-based histories against the scheme written in numpy, plus observed order of convergence.'),
    P('C10', 'Time stepping does not depend on how the same problem is written',
      'Grouping the same components in nested composites or listing them in another order, writing the state in other units or '
      'dimension order, stepping columns together or one by one, or removing quantities that the time stepper does not '
      'declare as input gives the same new values and diagnostics. Tracers handled by components are stepped like any other quantity.',
      ['programs', 'inputs', 'histories'], 'all systems, all three time steppers, all regroupings, relayouts and column splits',
      'No test compares two ways of writing the same model.',
      [CORE + 'tendencystepper.py', CORE + 'composite.py', CORE + 'combine_properties.py', COMP + 'timesteppers.py', CORE + 'tracers.py'],
      [('composite of tendency components', CORE + 'tendencystepper.py:TendencyStepper.__init__'), ('combination', CORE + 'combine_properties.py')],
      'Metamorphic relations between two runs over generated systems.'),
    P('C11', 'Composites compute what their components compute, summed',
      'A composite\'s tendency of a quantity is the sum, by dimension name and in consistent units, of its components\' tendencies, '
      'its diagnostics are the union of theirs, every component being given the same state, and a '
      'monitor composite stores the same state in each monitor. Order and nesting do not matter to sums; two components giving the same diagnostic are refused, and '
      'a composite refuses components of the wrong kind.',
      ['programs', 'inputs', 'configurations'], 'all lists and nestings of components, all states',
      'Tests use two mock components with equal units and dims.',
      [CORE + 'composite.py', CORE + 'util.py'],
      [('composites', CORE + 'composite.py'), ('tendency addition', CORE + 'util.py:update_dict_by_adding_another')],
      'Sum by name in SI units as oracle over generated component sets; all pairings of composite and component kinds are enumerated.'),
    P('C12', 'Combined properties are satisfiable by exactly what satisfies all components',
      'The input properties of composites and time steppers describe states on which every component can be called, in '
      'dims and units compatible with each component\'s, independently of the order of components; tendency, output and diagnostic properties '
      'describe what is returned. Incompatible dims or units are refused at construction, and compatible ones never are.',
      ['programs', 'configurations'], 'all lists of property dictionaries with explicit and wildcard dims and any units',
      'Tests sample a few pairs of dims; order independence and the result being usable are not tested.',
      [CORE + 'combine_properties.py', CORE + 'composite.py', CORE + 'tendencystepper.py'],
      [('dims combination', CORE + 'combine_properties.py:combine_dims'), ('units check', CORE + 'combine_properties.py:combine_properties')],
      'Closed-form set model of dims compatibility, and running components on states built from the combined properties.'),
    P('C13', 'ScalingWrapper multiplies the named quantities and nothing else',
      'A wrapped component computes with the named inputs multiplied by their factors, and its named tendencies, diagnostics and outputs '
      'come back multiplied, all else (including tracers and the time) being as without the wrapper, in every call and when wrapped repeatedly. '
      'Naming a quantity the component does not have, or wrapping something that is not a component, is refused.',
      ['inputs', 'programs', 'histories'], 'all components, factors, nestings and call sequences',
      'Tests scale one quantity of a mock component once.',
      [CORE + 'wrappers.py'], [('wrapper', CORE + 'wrappers.py:ScalingWrapper')],
      'Reference scaling in numpy over generated components, factors and repeated calls.'),
    P('C14', 'UpdateFrequencyWrapper recomputes exactly when the interval has passed',
      'The wrapped component is computed on the first call and whenever at least the update interval has passed since the time of the state at '
      'its last computation, and on no other call; between computations the output of the last one is returned unchanged, '
      'whatever states are given and however states given earlier are altered. A failing computation is reported and does not count.',
      ['histories', 'schedules', 'inputs'], 'all sequences of state times (repeats, exact multiples, just short, large jumps) with changing states, several wrappers',
      'Tests make two or three calls at fixed times.',
      [CORE + 'wrappers.py'], [('cached output and last update time', CORE + 'wrappers.py:UpdateFrequencyWrapper')],
      'Model-based histories over times with a fresh-component oracle.'),
    P('C15', 'TimeDifferencingWrapper gives the rate of change its stepper makes',
      'For every quantity the wrapped stepper outputs (tracers included), the tendency is (new - old)/timestep by dimension '
      'name in consistent units, labelled with the declared tendency units and dims; diagnostics are the '
      'stepper\'s. This holds for any stepper, time steppers included.',
      ['inputs', 'programs'], 'all steppers, states, timesteps',
      'Tests use one quantity whose units equal those of the state.',
      [COMP + 'basic.py'], [('wrapper', COMP + 'basic.py:TimeDifferencingWrapper')],
      'Differential against the bare stepper with an independent difference quotient.'),
    P('C16', 'Unit strings mean what they say',
      'Unit strings compare as compatible exactly when they have the same dimensions, and as the same exactly when they also have the '
      'same scale, in every spelling; conversion multiplies by the ratio of scales (with offsets for temperatures), keeps dims and '
      'attributes other than units, never modifies its argument, and incompatible or missing units are refused. Validity tests answer for any string.',
      ['inputs'], 'all unit expressions and spellings, all arrays',
      'Tests sample a dozen unit pairs.',
      [CORE + 'units.py', CORE + 'dataarray.py'],
      [('unit registry and comparison', CORE + 'units.py'), ('conversion', CORE + 'units.py:data_array_to_units')],
      'Hand-written unit table as oracle over generated expressions. Trusts nothing of pint.'),
    P('C17', 'The constants library behaves as a dictionary with units, aliases and reset',
      'After any history of setting constants, changing the condensible and resetting, every constant asked for by name, alias or '
      'condensible-phase name, in any compatible units, has the value last set for it (or its default); asking for an unknown name or in incompatible '
      'units, or setting invalid units, is refused and changes nothing. Resetting restores every documented default.',
      ['histories', 'inputs'], 'all histories of set, get, condensible change and reset, all names and units',
      'Tests perform one or two operations on fixed names.',
      [CORE + 'constants.py'], [('constants dictionary and alias maps', CORE + 'constants.py')],
      'Model-based histories against a dictionary model with hand-written defaults.'),
    P('C18', 'Tracers reach components packed in order and come back under their names',
      'A component that uses tracers is given one array in which each registered tracer (prepended ones first, each once, then in order of '
      'registration, leaving out those it handles itself) holds its values in its registered units and dims, and '
      'what it returns for that array comes back per tracer with the right name, units and dims. '
      'Registering again with the same units changes nothing, with different units or names that components already output is refused and changes nothing.',
      ['histories', 'programs', 'inputs'], 'all histories of registrations and component creations, all tracer dims and states',
      'Tests register at most three tracers in fixed dims and call once.',
      [CORE + 'tracers.py', BASE, CORE + 'init_np_arrays.py'],
      [('registry', CORE + 'tracers.py:register_tracer'), ('packing', CORE + 'tracers.py:TracerPacker')],
      'Numpy reference for packing and unpacking; list model for registry histories.'),
    P('C19', 'What NetCDFMonitor stored is what is in the file',
      'After writing, the file has one row per stored state at its time (in the state\'s calendar, to the precision of the time unit), ordered within each write, and each '
      'requested quantity holds, under its alias, the values, units, dims and attributes it had when stored, whatever happened to the state '
      'afterwards and however stores and writes were interleaved. A state that cannot be stored faithfully is refused, without losing or '
      'altering rows already written.',
      ['histories', 'inputs', 'configurations'], 'all histories of store, write, mutation and re-opening; all store_names, aliases, time units, calendars, dtypes',
      'Tests store one to three one-quantity states in increasing time order and read back.',
      [COMP + 'netcdf.py'],
      [('cache and write', COMP + 'netcdf.py:NetCDFMonitor'), ('compatibility checks', COMP + 'netcdf.py:ensure_variable_is_compatible')],
      'Model of file rows; files read back with netCDF4 directly. Files live in a scratch directory in memory.'),
    P('C20', 'RestartMonitor gives back what was stored, and a crash does not lose it',
      'Loading a restart file gives the state last stored: every quantity\'s values bit for bit, dims, dtype and attributes, and the time to the microsecond in its calendar. '
      'If the process dies or a file operation fails at any point during a store, the restart file, when present, still holds a complete old or new '
      'state, and at least one complete state remains on disk.',
      ['crash_points', 'fault_sequences', 'inputs', 'histories'], 'all states, all sequences of stores, every executed line and file operation of a store',
      'Tests store and load one state; no test interrupts a store.',
      [COMP + 'netcdf.py'], [('write to new file, rename', COMP + 'netcdf.py:RestartMonitor.store'), ('load', COMP + 'netcdf.py:RestartMonitor.load')],
      'Random round trips, and killing forked processes at random executed lines and file operations. Kernel or disk failure (fsync) is not modelled.'),
    P('C21', 'Arrays requested by direction and restored are the same data by name',
      'The array obtained from a quantity for requested directions or dims (with a wildcard for the rest) has every element where its named indices '
      'say, with missing directions of length one, and restoring it gives back the quantity with its dims, shape, values, coordinates and requested attributes. Requests that would '
      'drop a dimension and shapes that do not match are refused.',
      ['inputs'], 'all quantities and requests', 'Tests sample fixed shapes with distinct two- and three-dimensional layouts.',
      [CORE + 'util.py'], [('extraction', CORE + 'util.py:get_numpy_array'), ('restoration', CORE + 'util.py:restore_dimensions')],
      'Element-wise named-index oracle plus round trip.'),
    P('C22', 'The ready-made constant and relaxation components do what they say',
      'Constant components return, on every call and whatever the state or caller did, exactly the quantities (values, dims, units) given at '
      'construction; relaxation returns (equilibrium - value)/timescale by dimension name in consistent units, with equilibrium and timescale '
      'read from the state.',
      ['inputs', 'histories', 'configurations'], 'all quantities, dims, units and call sequences',
      'Tests call once with scalar or one-dimensional quantities in matching units.',
      [COMP + 'basic.py'], [('constants', COMP + 'basic.py:ConstantTendencyComponent, ConstantDiagnosticComponent'), ('relaxation', COMP + 'basic.py:RelaxationTendencyComponent')],
      'Generated quantities; reference formula by name.'),
    P('C23', 'Dates are those of the requested calendar',
      'A date made for a calendar has the requested fields exactly, orders, differs and adds with timedeltas by the rules of that '
      'calendar, and dates the calendar does not have and unknown calendars are refused.',
      ['inputs'], 'all dates, times, calendar names in any case', 'Tests construct a handful of dates.',
      [CORE + 'time.py'], [('calendar dispatch', CORE + 'time.py:datetime')],
      'Hand-written day counts per calendar over generated dates.'),
    P('C24', 'Components work the same through any state backend',
      'With any backend implementing the documented interface set, components of every type (tracers included) get their arrays from it in the declared '
      'units and dims, and return quantities made by it; setting a backend takes effect for all later calls, '
      'and objects that are not backends are refused.',
      ['configurations', 'programs', 'histories'], 'all components and states under a custom backend, switching between calls',
      'Tests check a mock backend on one component.',
      [CORE + 'backend.py', BASE, CORE + 'get_np_arrays.py', CORE + 'restore_dataarray.py', CORE + 'wildcard.py', CORE + 'tracers.py'],
      [('global backend', CORE + 'backend.py:get_backend, set_backend')],
      'A second backend with its own container and array types; differential with the reference values.'),
    P('C25', 'Sums and differences of quantities keep the left operand\'s metadata',
      'Adding to or subtracting from a quantity gives the values of aligning by dimension name, with the attributes (units included) of the '
      'left operand, as a quantity of the same type; neither operand is modified and nothing is shared with the result.',
      ['inputs'], 'all pairs of quantities, arrays and numbers', 'Tests add fixed arrays with one attribute.',
      [CORE + 'dataarray.py'], [('operators', CORE + 'dataarray.py:DataArray.__add__, __sub__')],
      'Named-axis oracle over generated operands.'),
    P('C26', 'The array helpers for authors agree with what components do',
      'Extracting arrays by properties and restoring them gives the quantities back; initialised arrays are zeros of exactly the shape and dtype the '
      'properties declare for that input (tracers included); aliases collected from components are complete and exact, and '
      'clashing dictionary keys are detected. Functions decorated with jit, in any of its forms, compute what they do without it.',
      ['inputs', 'programs'], 'all states, property dictionaries, ignored and missing names, lists of components',
      'Tests use single quantities in fixed shapes.',
      [CORE + 'get_np_arrays.py', CORE + 'restore_dataarray.py', CORE + 'init_np_arrays.py', CORE + 'util.py'],
      [('initialisation', CORE + 'init_np_arrays.py'), ('restoring', CORE + 'restore_dataarray.py'), ('aliases', CORE + 'util.py:get_component_aliases')],
      'Named-axis bookkeeping oracle and direct set models.'),
    P('C27', 'Whatever implements a kind of component is usable as one',
      'An object is recognised as a component of a kind exactly when it inherits from it or has its properties and call signature, '
      'and as no other kind. Components in any disguise - objects that do not inherit, subclasses, wrappers that change nothing, '
      'composites of one, nested - give in composites, wrappers and time steppers what the plain component gives.',
      ['inputs', 'programs'], 'all components, disguises and places where components are used',
      'Tests check recognition of a few empty classes and never run duck-typed components in composites or time steppers.',
      [BASE, CORE + 'wrappers.py', CORE + 'composite.py', CORE + 'tendencystepper.py'],
      [('recognition', BASE + ':ComponentMeta.__instancecheck__'), ('wrappers passing through', CORE + 'wrappers.py:UpdateFrequencyWrapper.__getattr__'),
       ('dispatch by kind', CORE + 'composite.py:ImplicitTendencyComponentComposite.__call__')],
      'Differential against the plain component; recognition enumerated over all subsets of the interface.'),
    P('C28', 'PlotFunctionMonitor draws each stored state once from a copy',
      'Each store calls the plot function exactly once, with a clear figure (its own for interactive monitors, a new one otherwise) and a '
      'copy of exactly the state stored, and nothing the plot function or the caller does to their state afterwards reaches the other; '
      'a monitor that is not interactive shows the figure; a failing plot function is reported and later stores work.',
      ['histories', 'faults'], 'all histories of stores into several monitors, plot functions that alter, keep or fail',
      'There are no tests of this monitor.',
      [COMP + 'plot.py'],
      [('copying', COMP + 'plot.py:copy_state'), ('figures', COMP + 'plot.py:PlotFunctionMonitor.store')],
      'Snapshot invariants over generated histories, with matplotlib\'s Agg backend.'),
    P('C29', 'Objects can be shown, copied and pickled at any time',
      'str and repr of components, wrappers, composites, time steppers and monitors work at any time, name what is shown, also for '
      'objects which hold themselves or each other, and change nothing. A deep copy or unpickled pickle made at any point of a history goes on '
      'exactly as the original would, and original and copies do not affect each other (an ensemble can be branched from one model).',
      ['histories', 'programs'], 'all histories of steps, showing and copying, and all ways of combining components',
      'Tests never copy a component, and show a few unused ones.',
      [BASE, CORE + 'wrappers.py', CORE + 'composite.py', CORE + 'tendencystepper.py', COMP + 'timesteppers.py', COMP + 'basic.py'],
      [('showing', BASE + ':Stepper.__repr__'), ('wrappers passing through', CORE + 'wrappers.py:UpdateFrequencyWrapper.__getattr__'),
       ('histories of time steppers', COMP + 'timesteppers.py:AdamsBashforth'), ('cached output', CORE + 'wrappers.py:UpdateFrequencyWrapper.__call__')],
      'Differential against objects made afresh and given the same part of the history.'),
]


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'hook_needed': None}}) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{
            'property': p['id'],
            'quick_cmd': './run.sh check {}'.format(p['id']),
            'thorough_cmd': './run.sh check {} thorough'.format(p['id']),
            'technique': TECH.get(p['id'], 'property-based testing against a reference oracle, with shrinking'),
            'level': 'exploration',
            'level_note': p['note'] + ' Random search over a bounded domain: absence of a counterexample is evidence, not proof.',
        } for p in PROPS],
        'not_applicable': [],
        'notes': 'No hooks in /repo. Checks import sympl from /repo\'s working tree (pure Python, nothing to build).',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


TECH = {
    'C03': 'property-based testing with fault injection into generated states',
    'C04': 'property-based testing with contract breaches injected in generated components',
    'C05': 'stateful property-based testing with snapshots and differential fresh instances',
    'C07': 'model-based (stateful) property testing against a numpy reference',
    'C08': 'model-based (stateful) property testing against a numpy reference',
    'C09': 'model-based (stateful) property testing against a numpy reference',
    'C10': 'metamorphic property-based testing',
    'C14': 'model-based (stateful) property testing of call histories',
    'C17': 'model-based (stateful) property testing of operation histories',
    'C18': 'model-based (stateful) property testing of registration histories and calls',
    'C19': 'model-based (stateful) property testing of store/write histories',
    'C20': 'property-based round trips and generated crash and fault injection',
    'C27': 'differential property-based testing, with the recognition table enumerated',
    'C29': 'stateful differential property-based testing against fresh objects',
    'C28': 'stateful property-based testing with snapshots',
    'C24': 'differential property-based testing of two backends',
}

if __name__ == '__main__':
    main()
