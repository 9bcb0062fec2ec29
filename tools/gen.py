#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed; run by hand after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEV, SIM, ENV, REP = 'gerabaldi/models/devices.py', 'gerabaldi/sim.py', 'gerabaldi/models/phys_envs.py', 'gerabaldi/models/reports.py'
RV, TS, ST, HLP = 'gerabaldi/models/random_vars.py', 'gerabaldi/models/test_specs.py', 'gerabaldi/models/states.py', 'gerabaldi/helpers.py'
MIN = 'gerabaldi/math/minimize.py'
CB = ['gerabaldi/cookbook/test_specs.py', 'gerabaldi/cookbook/test_envs.py', 'gerabaldi/cookbook/mech_mdls.py']

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, observe, technique, level note
P = [
 ('C01', 'Accumulated degradation follows the equivalent-time principle',
  'After any sequence of stress phases, the degradation of each mechanism in each device equals the mechanism\'s equation evaluated, under the conditions of the latest phase, at the time which would have produced the prior degradation under those conditions plus the length of the phase, within the numerical precision of the solver. The reported parameter value is the parameter\'s equation applied to its initial value, conditional shift and all mechanism values.',
  ['histories', 'inputs', 'configurations'], 'for all device models with monotone mechanisms, condition sequences, durations, latents and population shapes',
  'Existing tests simulate a few fixed models for one or two stress phases; the equation forms, condition changes and time scales are unbounded.',
  [SIM, DEV, MIN], [('stress step with equivalent time and recomputation', f'{SIM}:_sim_stress_step'), ('equivalent time search', f'{DEV}:DegMechMdl.calc_equiv_strs_time'), ('solver', f'{MIN}:minimize')],
  ['measurement table of the report'], 'generated worlds against a closed-form reference simulator', 'Random search over generated models and histories against an independent closed-form reference; assumes monotone mechanism laws and a solver slack of 4e-5 relative or 1e-3 time units.'),
 ('C02', 'Splitting stress phases or inserting measurements changes nothing',
  'Dividing a stress phase into consecutive phases with the same conditions and the same total length, or inserting measurements anywhere, does not change the degradation that later measurements show.',
  ['histories'], 'for all tests and all ways of splitting phases and inserting measurements (degradation mechanisms; hard failures are judged per phase)',
  'The tests never compare two equivalent tests with one another.',
  [SIM, DEV], [('equivalent time carried over between phases', f'{SIM}:_sim_stress_step'), ('measurement works on copies', f'{SIM}:_sim_meas_step')],
  ['measurement table of the report'], 'metamorphic generated tests', 'Random search over pairs of equivalent tests; same numerical slack as C01.'),
 ('C03', 'Time units do not change the physical outcome',
  'A mechanism written for another time unit (with its rate rescaled accordingly) gives the same parameter values for the same test, whichever of the mechanism, parameter or device model the unit is given on. The most specific unit given applies, hours if there is none, for degradation and for hard failures, at every time scale.',
  ['configurations', 'inputs'], 'for all units, levels on which they are given, time scales and mechanism laws',
  'Tests use one or two units with fixed durations.',
  [DEV, HLP, SIM], [('unit propagation', f'{DEV}:DeviceMdl.propagate_time_unit'), ('unit conversion', f'{HLP}:_convert_time')],
  ['measurement table of the report'], 'metamorphic generated models in all units', 'Random search; differences must stay within the solver slack of the coarser unit.'),
 ('C04', 'Hard failures latch and are judged device by device on each phase',
  'A device whose failure condition is met during a stress phase takes the failed value and keeps it for the rest of the test under any later stress. A device whose failure condition is not met by the conditions, latents and length of any single phase stays at the unfailed value, whatever happens to other devices.',
  ['histories', 'inputs'], 'for all failure predicates over time, conditions and latents and all phase sequences',
  'Tests use one failure model with a fixed threshold.',
  [DEV, SIM], [('failure state', f'{DEV}:FailMechMdl'), ('stress step', f'{SIM}:_sim_stress_step')],
  ['measurement table of the report'], 'generated histories against a latch model', 'Random search against an explicit latch model per device.'),
 ('C05', 'Ineffective stress leaves devices as they are and none heals them',
  'A stress phase which cannot add degradation (zero rate below a threshold, or a saturation level that is already exceeded) leaves each affected device\'s value unchanged, and devices which it does affect degrade as usual. No stress phase ever moves a device back towards its fresh value.',
  ['histories', 'inputs'], 'for all interleavings of effective and ineffective phases and mixed populations',
  'Tests have no phases that cannot age the device after damage was done.',
  [DEV, MIN], [('no-degradation mask', f'{DEV}:MechMdl.calc_deg_vals'), ('upper bound of equivalent time', f'{DEV}:MechMdl._max_equiv_time')],
  ['measurement table of the report'], 'generated histories, invariant and reference', 'Random search with monotonicity invariants and the closed-form reference.'),
 ('C06', 'Devices do not influence one another',
  'What is reported for a device depends only on its own latent values, initial value and conditions: simulating any subset of devices, chips, lots or parameters, or permuting them, gives the same values for the devices that both tests have. Failed, saturated, unaffected or extreme devices in the population do not disturb their neighbours.',
  ['inputs', 'configurations'], 'for all populations and all ways of taking parts of them',
  'Tests look at fixed populations as a whole only.',
  [SIM, DEV, MIN], [('vectorised computation over lots, chips and devices', DEV), ('vectorised solver', MIN)],
  ['measurement table of the report'], 'metamorphic population surgery', 'Random search over sub-populations and permutations; numerical slack of the solver.'),
 ('C07', 'The measurement table holds exactly what the test asked for',
  'Each measurement step contributes exactly one row per requested device of each requested parameter on every chip and lot and one row per requested sensor of each requested condition, in test order, and nothing else. Each row carries the right step, device, chip, lot and time and the value of that very device; condition rows carry no device, chip or lot.',
  ['inputs', 'configurations', 'histories'], 'for all tests, counts and population shapes',
  'Tests count rows of a few fixed tests and do not tie values to labels.',
  [REP, SIM], [('formatting of measurements', f'{REP}:SimReport.format_measurements'), ('measurement step', f'{SIM}:_sim_meas_step')],
  ['measurement table of the report'], 'generated tests with self-identifying values', 'Random search; every value encodes the device it belongs to.'),
 ('C08', 'The test summary and clock follow the specification',
  'The summary has one row per step in order with its name, kind, number, duration and requested (not varied) conditions. The clock starts at the elapsed time of the initial state, advances by exactly the duration of each stress phase and not at all for measurements, and gives the start and end times of steps and the times of measurements without gaps.',
  ['histories', 'configurations'], 'for all step sequences, names, condition sets, durations and start times',
  'Tests check a fixed short summary.',
  [SIM, REP], [('summary rows', f'{SIM}:_sim_stress_step'), ('elapsed time', f'{ST}:SimState')],
  ['summary and measurement tables of the report'], 'generated tests against a clock model', 'Random search against an exact microsecond clock model.'),
 ('C09', 'Simulating leaves its inputs alone and is repeatable',
  'Simulating does not alter the test, the environment, the device model, the initial state or dictionaries passed in, nor earlier reports, so models and specifications can be reused in any order. With equal seeds (or without randomness) equal inputs give equal reports.',
  ['histories'], 'for all interleavings of simulations that share models, tests, environments and states',
  'Tests build new objects for every simulation.',
  [SIM, ST, REP, DEV], [('copy of the initial state', f'{SIM}:simulate'), ('state copies', f'{ST}:SimState')],
  ['reports', 'objects passed in'], 'generated interleavings with snapshots', 'Random search over interleavings; exact comparison to 1e-12.'),
 ('C10', 'Latent variables are layered by lot, chip and device and stay fixed',
  'A latent variable value is its base value combined, by sum for offset and product for scaling, with one draw for its lot, one for its chip and one for its own device, each shared by exactly the devices of that lot or chip. Changing a layer, the base value or the variation type of the variable afterwards acts as if it had been built that way. A device keeps its latent values throughout a test.',
  ['inputs', 'histories'], 'for all layer combinations, orders of changes and population shapes',
  'Tests check shapes and a few means.',
  [DEV], [('layered sampling', f'{DEV}:LatentVar.gen_latent_vals'), ('attribute changes', f'{DEV}:LatentVar.__setattr__')],
  ['sampled values', 'measurement table of the report'], 'model-based generation with recognisable draws', 'Random search; coded draws make every contribution of every layer visible.'),
 ('C11', 'Environmental variation is layered by batch, chip and device',
  'Each condition that a device is exposed to in a step is the requested value combined, by sum or product, with one draw for the step\'s batch, one for its chip and one for the device and parameter, drawn anew for every step. Conditions without a variation model are exactly as requested; sensors of a condition share the batch draw and count as separate chips. Chips of different lots do not share their draws.',
  ['inputs', 'configurations'], 'for all variation models, conditions, populations and step sequences',
  'Tests check shapes and a few values of one environment.',
  [ENV, SIM], [('layered conditions', f'{ENV}:PhysTestEnv.gen_env_cond_vals'), ('variation layers', f'{ENV}:EnvVrtnMdl')],
  ['measured values that reveal the conditions', 'generated condition values'], 'generated environments with recognisable draws', 'Random search; coded draws make every contribution of every layer visible.'),
 ('C12', 'Instruments add error, then round, then clip',
  'A reading is the true value plus the sample\'s own error draw, rounded to the instrument\'s number of significant figures, then limited to its range; whatever an instrument does not specify is not applied. Each parameter or condition is read by the instrument assigned to it (several may share one) and exactly if it has none, and readings come back in the form, order and index of the true values.',
  ['inputs', 'configurations'], 'for all true values, forms, instruments and assignments',
  'Tests measure a few fixed values.',
  [ENV, SIM], [('measurement', f'{ENV}:MeasInstrument.measure'), ('instrument lookup', f'{ENV}:PhysTestEnv.meas_instm')],
  ['readings', 'measurement table of the report'], 'generated readings against an exact calculation', 'Random search against an independent decimal calculation; ties in rounding accept both neighbours.'),
 ('C13', 'Random variables sample what they describe, reproducibly when seeded',
  'Samples of a random variable follow the distribution given by its current parameters (also after these are changed), in the requested quantity. Two variables with the same seed give the same sequence for the same calls, for every seed including zero; differently seeded or unseeded ones differ.',
  ['inputs', 'histories'], 'for all distributions, parameters, quantities, seeds and call sequences',
  'Tests check single samples for one seed.',
  [RV], [('sampling', f'{RV}:RandomVar.sample'), ('parameter mapping', f'{RV}:Gamma._params_for_numpy')],
  ['samples'], 'generated parameters, goodness of fit and twin sequences', 'Random search; distribution tests with a false alarm probability below 1e-9.'),
 ('C14', 'A report survives export to JSON and loading',
  'Exporting a report and loading the file gives the same name, description, quantities, measurements and summary, to full precision of values and to the microsecond for times, in every time unit and any number of times over. Exporting does not alter the report, writes to any path whose directories can be made, and also works after the report\'s times were converted.',
  ['inputs', 'histories', 'configurations'], 'for all reports, values, times, units, paths and repetitions',
  'Tests export one report and compare a few fields.',
  [REP, HLP], [('export', f'{REP}:SimReport.export_to_json'), ('loading', f'{REP}:SimReport.__init__')],
  ['loaded report', 'file written'], 'generated round trips', 'Random search over simulated and assembled reports; exact comparison.'),
 ('C15', 'A test specification is exactly the sequence it was built from',
  'A test consists of the steps it was given, in order, followed by those appended; appending in a loop repeats the given steps until their stress time first reaches the requested duration, and warns exactly if it does not fit a whole number of times. Iterating gives exactly these steps each time, also after an abandoned iteration, the number of samples needed is the largest count per parameter, and lists passed in stay unchanged and independent.',
  ['histories', 'inputs'], 'for all sequences of construction, appends, loops and iterations',
  'Tests append a few fixed steps.',
  [TS], [('appending', f'{TS}:TestSpec.append_steps'), ('iteration', f'{TS}:TestSpec.__iter__')],
  ['steps of the test'], 'model-based operation sequences', 'Random operation sequences against a plain list model.'),
 ('C16', 'Durations mean the same in every unit and spelling',
  'A duration given as a number with any supported unit (long or short name, hours if none) is the same as the equivalent time difference, to the microsecond, in stress phases, loops, elapsed times and reports. Converting the times of a report to a unit gives the times in that unit, also if they were converted before.',
  ['inputs', 'configurations'], 'for all values, units, spellings and sequences of conversions',
  'Tests convert a few fixed values.',
  [HLP, TS, REP], [('conversion', f'{HLP}:_convert_time'), ('report conversion', f'{REP}:SimReport.convert_report_time')],
  ['durations of steps', 'times in reports'], 'generated durations and conversion sequences', 'Random search against exact microsecond arithmetic.'),
 ('C17', 'The minimiser solves each of many problems at once',
  'Minimising a vectorised function with one independent one-dimensional problem per element finds, for each element, a point whose value is as low as at its minimum within the bounds, to the requested precision, on linear and on logarithmic scale. The result for an element does not depend on the other elements or on the arrangement of the array, and never leaves the bounds.',
  ['inputs'], 'for all smooth single-minimum problems, bounds, shapes and mixtures of them in one call',
  'Tests minimise a few fixed functions.',
  [MIN], [('vectorised Brent iteration', f'{MIN}:minimize')],
  ['result of the minimiser'], 'generated problems with known minima', 'Random search over problems whose minimum is known in closed form; stated problem classes only.'),
 ('C18', 'Array and single-value equations give the same results',
  'An equation for a mechanism, initial value, conditional shift, parameter or circuit that can only handle single values (for instance because it branches) gives the same results as one that handles whole arrays, for every population shape, as do equations that return constants or ignore some inputs, and parameters declared as not array computable.',
  ['programs', 'inputs'], 'for all equations in both forms, in all sub-models and population shapes',
  'Tests use array equations with few shapes.',
  [DEV, HLP], [('fall back to loops', f'{HLP}:_loop_compute'), ('computing of sub-models', DEV)],
  ['measurement table of the report'], 'differential generated equations', 'Random search over pairs of equivalent equations; exact comparison to 1e-9.'),
 ('C19', 'Circuit parameters are computed from the same device\'s parameters',
  'The value of a circuit parameter is its equation applied to the current values of the degraded parameters of the device with the same number on the same chip and lot, its own latent values and the conditions of the measurement. This holds for any number of measured circuits up to the devices available, also if the degraded parameters are not measured, have more devices or have failed.',
  ['inputs', 'histories', 'configurations'], 'for all circuit equations, device counts, populations and histories',
  'Tests have one circuit with equal counts.',
  [DEV, SIM], [('circuit values', f'{DEV}:CircPrmMdl.calc_circ_vals'), ('dependencies in the initial state', f'{SIM}:gen_init_state')],
  ['measurement table of the report'], 'generated circuits against measured parts', 'Random search; reference and consistency between reported circuit and device values.'),
 ('C20', 'Conditional shifts act at the moment of measurement only',
  'The conditions during a measurement shift the reported value as given by the parameter\'s conditional model for exactly that measurement; they never enter the stored value, degradation or later measurements. Measuring under the same conditions again gives the same shift.',
  ['histories', 'inputs'], 'for all conditional models, measurement conditions and histories',
  'Tests do not measure one device under several conditions between phases.',
  [DEV, SIM], [('conditional shift', f'{DEV}:DegPrmMdl.calc_cond_shifted_vals')],
  ['measurement table of the report'], 'metamorphic generated measurements', 'Random search; exact reference for the shift, numerical slack for degradation.'),
 ('C21', 'Prebuilt tests, environments and mechanisms do what they describe',
  'The prebuilt life test measures all requested parameters at 25 degrees and nominal voltage before and after, stresses at the given temperature and multiplied voltage for exactly the requested hours, measures under stress at the start and after every interval if that is shorter than the test, and rejects intervals that do not fit. The ideal environment is exact; the stochastic one varies and measures temperature and voltage with its described spreads, digits, Celsius conversion and ranges; the prebuilt mechanism follows its published equation with its described latent distributions; separately built ones are independent.',
  ['inputs', 'configurations'], 'for all arguments, targets and population sizes',
  'Tests build one default life test.',
  CB, [('life test', 'gerabaldi/cookbook/test_specs.py:htol'), ('environment', 'gerabaldi/cookbook/test_envs.py:volt_and_temp_env'), ('mechanism', 'gerabaldi/cookbook/mech_mdls.py:jedec_nbti_mdl')],
  ['steps of the test', 'measurement table of the report'], 'generated arguments, exact and statistical oracles', 'Random search; statistical comparisons with a false alarm probability below 1e-9.'),
 ('C22', 'Variables exported for inference are equivalent to the simulated ones',
  'A random or latent variable exported to either supported inference framework has the same distribution as the values which the simulator samples, with all layers, variation types and deterministic base values, is available under its own name together with any number of other exported variables, and registers observed values. Exporting does not affect later simulation and can be repeated; what cannot be exported is rejected with the documented error.',
  ['inputs', 'configurations', 'histories'], 'for all distributions, layers, base values, frameworks and combinations of variables',
  'Tests check types of two exported distributions only.',
  [DEV, RV], [('latent export', f'{DEV}:LatentVar.cbi_export'), ('distribution export', f'{RV}:RandomVar.get_cbi_form')],
  ['samples and densities of the exported variables'], 'generated variables, distribution comparison', 'Random search; two-sample tests with a false alarm probability below 1e-9, exact densities for single distributions.'),
 ('C23', 'Logger configuration replaces handlers of the same kind and nothing else',
  'After configuring the logger with a stream or file handler, log messages of this kind go to the given handler only and no longer to the previous one of that kind (including the default one), while the other kind is untouched. A given level applies to all later messages and persists until changed; messages below it go nowhere.',
  ['histories'], 'for all sequences of configuration calls and log messages',
  'Tests configure single handlers once.',
  [HLP], [('configuration', f'{HLP}:configure_logger')],
  ['messages received by handlers'], 'model-based operation sequences', 'Random operation sequences against a model with one handler of each kind.'),
 ('C24', 'Unusable specifications are rejected with the documented error',
  'Latents without a source of values, unknown variation types or time units, misspelt attributes of variation models, zero durations, loops without stress, unnamed models, missing quantities, measurements of undefined parameters, initial states that lack devices, chips or lots of the test and missing report files give the documented error instead of results. The objects involved stay unchanged and usable, and the same specification without the mistake is accepted.',
  ['inputs', 'configurations'], 'for all documented mistakes at any place of otherwise valid specifications',
  'Tests cover some of the errors with one input each.',
  [DEV, ENV, TS, SIM, REP, HLP], [('error checks', f'{TS}:TestSpec.append_steps'), ('undefined parameters', f'{SIM}:_sim_meas_step')],
  ['errors raised'], 'generated mistakes with valid twins', 'Random search over the documented mistakes.'),
 ('C25', 'The initial population has the requested devices, all fresh',
  'An initial state has, for each requested parameter, exactly the requested devices on every chip and lot (more only if a circuit parameter needs them), and enough of all others for every circuit parameter; mechanisms start at their neutral value, parameters at their own sampled initial value, every latent has one value per device, and the clock shows the given elapsed time. States share nothing with one another, and quantities may be given directly or through a report.',
  ['configurations', 'inputs'], 'for all device models, requested quantities and elapsed times',
  'Tests check one small population.',
  [SIM, DEV, ST], [('initial state', f'{SIM}:gen_init_state'), ('population', f'{DEV}:DeviceMdl.gen_init_state')],
  ['initial state', 'measurements at the start'], 'generated populations against a model', 'Random search against an independent count model and reference values.'),
 ('C26', 'Left out, default and neutral components do not change results',
  'Leaving out a mechanism\'s equation, a conditional shift, an initial value, a variation model, an instrument, a latent layer or a unit is the same as giving a neutral one explicitly: zero for sums, one for products, no error, hours. Adding default mechanisms, unused latents or conditions, or unrelated parameters does not change the report of the others.',
  ['configurations', 'programs'], 'for all models and all sets of neutral additions',
  'Tests never compare two equivalent models.',
  [DEV, ENV], [('default equations', f'{DEV}:MechMdl.__init__'), ('default environment', f'{ENV}:PhysTestEnv.vrtn_mdl')],
  ['report'], 'metamorphic generated models', 'Random search over pairs of equivalent models; comparison to 1e-9.'),
 ('C27', 'A model exported for inference keeps its equation, latents and data',
  'Exporting a mechanism, failure, conditional shift, initial value, parameter or circuit model to either inference framework gives an observed normal variable under the name of the model, centred at its own equation of its exported latents and the given conditions (standard deviation 1 in PyMC, 0.1 in pyro), holding exactly the given measurements; every layer of every latent becomes one free variable with its own distribution. For pyro the equation takes at least one array of conditions.',
  ['inputs', 'configurations', 'programs'], 'for all equations, latents, conditions, observations and frameworks',
  'Tests never export a model.',
  [DEV, RV], [('model export', f'{DEV}:LatentMdl.export_to_cbi'), ('latent export', f'{DEV}:LatentVar.cbi_export')],
  ['joint density of the exported model'], 'generated models, density comparison with a reference', 'Random search; densities compared to 1e-6 (PyMC) and 2e-3 (pyro, single precision).'),
 ('C28', 'Optional packages matter only where they are used',
  'With any of the optional packages missing or failing to load, the package imports, all names in each public listing can be imported, and simulating, sampling and exporting to the other framework work as usual; using a feature that needs a missing package raises an import error naming the package to install.',
  ['configurations', 'histories', 'fault_sequences'], 'for all sets of missing packages, ways of failing to load and sequences of operations',
  'Tests run with everything installed.',
  [HLP, DEV, RV, 'gerabaldi/__init__.py'], [('on demand import', f'{HLP}:_on_demand_import'), ('public listings', 'gerabaldi/models/__init__.py')],
  ['errors raised', 'report', 'importable names'], 'fault injection into imports with generated operations', 'Random search over the (few) combinations of missing packages and operations.'),
]

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for i, title, stmt, over, qt, why, files, mech, obs, tech, note in P:
        assert len(title) <= 80, title
        f.write(json.dumps({
            'id': i, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs, 'hook_needed': None},
        }) + '\n')
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python harness/run.py --setup',
    'checks': [{
        'property': p[0], 'quick_cmd': f'/opt/venv/bin/python harness/run.py {p[0]}',
        'thorough_cmd': f'VERIF_TIER=thorough /opt/venv/bin/python harness/run.py {p[0]}',
        'technique': 'property-based testing: ' + p[9], 'level': 'exploration', 'level_note': p[10],
    } for p in P],
    'not_applicable': [],
    'notes': 'No hooks in /repo. Known findings: known-findings.txt. Design and catch table: DESIGN.md.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
