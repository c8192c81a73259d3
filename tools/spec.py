"""The properties; tools/gen.py writes properties.jsonl and MANIFEST.json."""

P = 'balloon_learning_environment/'
ENV, BAL, UT = P + 'env/', P + 'env/balloon/', P + 'utils/'
AG, EV, GE, ME, MO = (P + 'agents/', P + 'eval/', P + 'generative/',
                      P + 'metrics/', P + 'models/')

PROPS = []
NOT_APPLICABLE = []


def p(id_, title, statement, over, quant, why, mech, technique, note):
  """mech: list of (name, file, function)."""
  files = []
  for _, f, _ in mech:
    if f not in files:
      files.append(f)
  PROPS.append(dict(
      id=id_, title=title, statement=statement,
      quantifier=dict(over=over, text=quant), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[
          dict(name=n, where=f'{f}: {w}') for n, f, w in mech]),
      _technique=technique, _note=note))


p('C01', 'Episodes are determined by seed, winds and actions alone',
  'For a given environment seed (constructor, seed call or seeded reset), wind '
  'field and action sequence, every observation, reward, terminal flag, info '
  'and balloon state of every episode of the series is the same, whatever the '
  'environment flew before the seeding, whatever the global random state is, '
  'and whatever other environments do in the same process. Different seeds, '
  'or none, start different episodes, and successive episodes of one series differ.',
  ['inputs', 'histories', 'schedules'],
  'Over all seeds, action sequences, numbers of preceding episodes and '
  'interleavings of several environments (step, reset, re-read).',
  'The tests step a handful of fixed seeds once and never compare histories '
  'with different pasts or interleaved environments; env tests are not among '
  'those that pass here.',
  [('seeding of the episode series', ENV + 'balloon_env.py', 'BalloonEnv.seed, reset'),
   ('key splitting per episode', ENV + 'balloon_arena.py', 'BalloonArena.reset')],
  'Stateful property-based testing: metamorphic comparison of generated '
  'episodes (replay, dirty past, interleaving) that must be equal bit by bit',
  'Generated seeds, action sequences and interleavings; episodes up to ten '
  'steps, static and random gridded winds.')

p('C02', 'Step and reset obey the documented environment contract',
  'Every step advances the clock by one control period of three minutes, moves '
  'the balloon by the wind it started in, and returns an observation inside '
  'the declared observation space, the reward of the state after the step, '
  'an info that names the event and elapsed time, and a terminal flag that is '
  'true exactly when the flight has ended. An ended flight '
  'refuses further steps until reset, an invalid action is refused without '
  'flying, and the reward function is consulted exactly once per step. An '
  'environment that is given an arena flies that arena.',
  ['inputs', 'histories'],
  'Over all seeds and action sequences, including flights driven into each '
  'terminal event by draining the battery, overpressure or lost pressure.',
  'Tests step fresh, healthy balloons; terminal events inside an environment '
  'are never reached and the environment tests do not pass here.',
  [('step and info', ENV + 'balloon_env.py', 'BalloonEnv.step'),
   ('control period', ENV + 'balloon_arena.py', 'BalloonArena.step')],
  'Property-based testing of generated episodes against the contract '
  '(invariants over the history, including provoked terminal events)',
  'Generated episodes of up to a dozen steps.')

p('C03', 'The station-keeping reward follows the published formula',
  'The reward is 1 inside the station radius and 0.4 * 2^(-(d - r)/100 km) at '
  'distance d beyond radius r, times a factor that only penalises descents '
  'made without excess solar power, between 0.95 (no power used) and 0.65 '
  'scaled by the compressor power; it always lies in [0, 1]. It depends on '
  'nothing but distance, last command, compressor power and whether there is '
  'excess energy, and never grows with distance.',
  ['inputs'],
  'Over all balloon positions (including the radius boundary), commands, '
  'compressor powers, charges and times of day.',
  'No stable test evaluates the reward; the existing ones sample a few points.',
  [('reward', ENV + 'balloon_env.py', 'perciatelli_reward_function'),
   ('excess energy', BAL + 'balloon.py', 'BalloonState.excess_energy')],
  'Property-based testing against an independent reference formula, plus '
  'monotonicity', 'Generated states.')

p('C04', 'The balloon drifts with the wind and the clocks advance exactly',
  'A simulation step moves the balloon horizontally by exactly wind velocity '
  'times simulated time, advances the date and the elapsed time by the '
  'simulated time, and its position on the globe is the great-circle offset '
  'from its centre. A step split in two has the same effect as one, and a '
  'duration that is not a multiple of the stride is rejected without moving '
  'the balloon.',
  ['inputs', 'histories'],
  'Over all balloon states, winds, strides, durations and command histories.',
  'The balloon module could not even be imported on this Python; its tests '
  'sample single steps.',
  [('stepping', BAL + 'balloon.py', 'Balloon.simulate_step'),
   ('latlng', BAL + 'balloon.py', 'BalloonState.latlng')],
  'Property-based testing of flight histories against reference kinematics',
  'Histories of up to 8 steps of up to 18 strides.')

p('C05', 'Vertical motion, gas and superpressure follow the balloon physics',
  'In every stride pressure, ambient and internal temperature, ballonet air, '
  'envelope volume and superpressure follow the documented Euler step of '
  'buoyancy against weight with drag, compressor mass flow (down) or vent '
  'flow (up), thermal balance, ideal gas law and envelope law. Descending '
  'never removes ballonet air, ascending never adds any, and the air never '
  'becomes negative.',
  ['inputs', 'histories'],
  'Over all physically plausible balloon states (on and off equilibrium), '
  'vehicle constants, atmospheres, commands, strides and histories.',
  'Existing balloon tests (not passing here) check directions for single '
  'steps of one vehicle.',
  [('physics', BAL + 'balloon.py', 'Balloon._simulate_step_internal'),
   ('volume', BAL + 'balloon.py', 'calculate_superpressure_and_volume')],
  'Differential property-based testing of flight histories against an '
  'independent reference implementation of the physics',
  'Histories of up to 6 steps of up to 18 strides.')

p('C06', 'Battery, solar and load power are accounted in every stride',
  'In every stride the solar charging power is that of the panels at the '
  'solar elevation and shading of that moment, the load is the day or night '
  'load plus the compressor power, and the battery gains their difference '
  'times the stride, never leaving [0, capacity].',
  ['inputs', 'histories'],
  'Over all balloon states, vehicle constants, times of day, commands and '
  'strides.',
  'No stable test steps a balloon; the others never compare the charge with '
  'an account.',
  [('energy', BAL + 'balloon.py', 'Balloon._simulate_step_internal')],
  'Differential property-based testing of flight histories against a '
  'reference energy account', 'Histories of up to 8 steps.')

p('C07', 'A flight ends exactly when envelope or battery fail',
  'After every stride the status is burst if the superpressure exceeds the '
  'envelope limit, zero pressure if it is not positive, out of power if the '
  'battery is empty, and healthy otherwise; the simulation stops at the '
  'stride in which the flight ends and refuses to continue. A balloon '
  'initialised in its accessible range starts healthy.',
  ['inputs', 'histories'],
  'Over all balloon states close to and beyond every limit, commands and '
  'strides.', 'Tests construct single failures by hand, each with one value.',
  [('status', BAL + 'balloon.py', 'Balloon._simulate_step_internal')],
  'Property-based testing of failure-biased flight histories against a '
  'reference status', 'Histories of up to 8 steps.')

p('C08', 'Altitude and envelope safety layers act as documented',
  'Below the minimum altitude (50,000 ft), or within 150 Pa of either '
  'superpressure limit (zero and the maximum), every command becomes an '
  'ascent; within the buffer next to it (500 ft, 250 Pa) descents become '
  'stays, and that lasts until a further hysteresis margin (500 ft, 50 Pa) is '
  'cleared. The action that takes effect in a step is the command filtered by '
  'the power, then the envelope, then the altitude layer, decided once per '
  'step; a layer that is not triggered never changes a command. '
  'Navigation counts as paused exactly while some layer is triggered.',
  ['inputs', 'histories'],
  'Over all sequences of altitudes, superpressures and commands, and over '
  'flights near the limits.',
  'Tests check single transitions with fresh layers.',
  [('altitude', BAL + 'altitude_safety.py', 'AltitudeSafetyLayer.get_action'),
   ('envelope', BAL + 'envelope_safety.py', 'EnvelopeSafetyLayer.get_action'),
   ('order', BAL + 'balloon.py', 'Balloon.simulate_step')],
  'Model-based stateful testing against reference hysteresis automata',
  'Sequences of up to 14 events; flights of up to 8 steps.')

p('C09', 'The power safety layer keeps the balloon alive until sunrise',
  'At night a descent is replaced by staying, and stays paused until power '
  'returns, when the charge left after running the night load until half an '
  'hour after sunrise would be below 2.5 % of capacity; by day navigation '
  'resumes once the charge is at least 5 % of capacity. Sunrises and sunsets '
  'are tracked over many days, and an ascent or stay is never changed.',
  ['inputs', 'histories'],
  'Over all sequences of times (up to days), places, charges, loads and '
  'commands.',
  'The existing test samples a few times of one night.',
  [('layer', BAL + 'power_safety.py', 'PowerSafetyLayer.get_action')],
  'Model-based stateful testing against a reference pause automaton, plus '
  'threshold probing from both sides', 'Sequences of up to 12 events.')

p('C10', 'The atmosphere is a consistent standard atmosphere for every seed',
  'For every seed, temperature, pressure and density at a height follow the '
  'documented layered lapse rates, hydrostatic balance and ideal gas law; '
  'height and pressure are inverse to each other and strictly monotone, and '
  'queries outside the model are rejected. Equal seeds give equal '
  'atmospheres, also through reset, and seeds vary the lapse rates over the '
  'whole documented band.',
  ['inputs'], 'Over all seeds, heights and pressures (including layer limits).',
  'Tests check a few heights of one atmosphere.',
  [('layers', BAL + 'standard_atmosphere.py', 'Atmosphere')],
  'Property-based testing against a reference atmosphere, with round trips',
  'Generated heights and pressures over the whole model.')

p('C11', 'Sun elevation, azimuth and flux follow the NOAA ephemeris',
  'For every place, instant and timezone the solar elevation (with '
  'refraction) and azimuth agree with the NOAA solar calculator and the flux '
  'with the Earth-Sun distance of the day; they depend on the instant, not on '
  'the timezone it is written in. Invalid positions and naive times are '
  'rejected.',
  ['inputs'], 'Over all latitudes, longitudes, instants 2000-2037 and timezones.',
  'Tests check a few instants, all in UTC.',
  [('ephemeris', BAL + 'solar.py', 'solar_calculator')],
  'Differential property-based testing against the NOAA formulas and the '
  'Astronomical Almanac series', 'Places |lat| < 89.')

p('C12', 'Sunrise, sunset, noon and midnight are where the sun says',
  'The next sunrise and sunset are the next crossings of the horizon dip seen '
  'from the stratosphere by the solar elevation, to the documented search '
  'resolution; steps until sunrise count the started control periods up to it '
  'and are zero by day. Solar noon and midnight are the extreme elevations '
  'within a day, solar afternoon is when the sun sinks, and latitudes '
  'with no sunrise are rejected.',
  ['inputs'], 'Over all places, instants and timezones in the supported range.',
  'Tests check a few fixed dates.',
  [('search', BAL + 'solar.py', 'get_next_sunrise_sunset, get_next_solar_noon, steps_until_sunrise')],
  'Property-based testing against a scan of the elevation function',
  'Places |lat| < 60.')

p('C13', 'Solar power, shading and the thermal balance obey the model',
  'Solar attenuation, balloon shadow and panel power follow the documented '
  'formulas and are monotone in elevation, and the envelope heating rate is '
  'the balance of absorbed sunlight, earthshine, upwelling infrared, emission '
  'and convection over the heat capacity: it falls with gas temperature and '
  'grows with sunlight and infrared. Out-of-range elevations and pressures '
  'are rejected.',
  ['inputs'], 'Over all elevations, pressures, temperatures, fluxes and geometries.',
  'Tests check a few points and signs.',
  [('solar power', BAL + 'solar.py', 'solar_power, balloon_shadow, solar_atmospheric_attenuation'),
   ('thermal', BAL + 'thermal.py', 'd_balloon_temperature_dt')],
  'Property-based testing against reference formulas, with metamorphic sign '
  'and monotonicity relations', 'Generated inputs over the documented ranges.')

p('C14', 'Compressor and power tables are read by their documented axes',
  'Compressor power and fan efficiency are the linear or bilinear '
  'interpolation of the documented tables at the pressure ratio (and power), '
  'and mass flow is efficiency times power per hour. The power to use on a '
  'descent is the entry of its pressure-ratio and charge interval, is never '
  'lower for more charge, and pressure ratios outside the table are rejected.',
  ['inputs'], 'Over all pressure ratios, powers and charges, including interval ends.',
  'Tests check a few entries.',
  [('compressor', BAL + 'acs.py', 'get_most_efficient_power, get_fan_efficiency, get_mass_flow'),
   ('power table', BAL + 'power_table.py', 'lookup')],
  'Property-based testing against reference table lookups',
  'Generated inputs over and beyond the tables.')

p('C15', 'Units and positions form a consistent algebra',
  'Every unit converts consistently to and from every other of its kind, '
  'arithmetic and comparison agree with the numbers they stand for, and '
  'mixing incompatible kinds raises instead of giving a number. The position '
  'at an offset is the great-circle destination at that distance and bearing, '
  'normalised, and positions survive copying and pickling.',
  ['inputs'], 'Over all magnitudes, unit pairs, operators, positions and offsets.',
  'Tests check a few values per unit.',
  [('units', UT + 'units.py', 'Distance, Velocity, Energy, Power'),
   ('offset', UT + 'spherical_geometry.py', 'calculate_latlng_from_offset')],
  'Property-based testing of algebraic laws and against a reference '
  'great-circle formula', 'Generated values and operators.')

p('C16', 'Feature rescalings are monotone, bounded and invertible',
  'Linear rescaling maps its interval onto [0, 1] in order, extrapolates or '
  'saturates as named, and is undone by its inverse; squashing maps '
  'non-negative values into [0, 1) in order with the constant at one half, is '
  'undone by its inverse, and both reject what they cannot map.',
  ['inputs'], 'Over all values, intervals and constants.',
  'Tests check a few values.',
  [('transforms', UT + 'transforms.py', 'linear_rescale..., squash_to_unit_interval, undo_squash_to_unit_interval')],
  'Property-based testing of round-trip, order and range laws',
  'Generated values.')

p('C17', 'True winds are the forecast plus a seeded documented noise',
  'The true wind at any point is the forecast there plus a noise vector that '
  'depends only on the seed and the point: the same in any query order, '
  'repeatedly, and from any instance. The noise is the documented weighted '
  'blend of simplex harmonics, continuous, of documented variance, with '
  'independent components that differ between seeds.',
  ['inputs', 'histories'],
  'Over all seeds, points, query orders, resets and interleaved instances.',
  'Tests sample a few points and never mix queries of several fields.',
  [('ground truth', ENV + 'wind_field.py', 'WindField.get_ground_truth'),
   ('noise', ENV + 'simplex_wind_noise.py', 'SimplexWindNoise, NoisyWindComponent')],
  'Property-based testing: metamorphic query orders, and a differential '
  'reference blend of the recorded noise generators',
  'Generated fields and points.')

p('C18', 'Gridded wind fields interpolate their grid everywhere',
  'Inside its limits a gridded forecast is the multilinear interpolation of '
  'its grid in position, pressure and time; beyond them it takes the value at '
  'the nearest limit in space and time is reflected at both ends, so that it '
  'is continuous and periodic. A column query equals the single queries, '
  'results do not depend on query order, and a reset replaces the grid by the one '
  'sampled from its key alone.',
  ['inputs', 'histories'],
  'Over all field shapes, grids, points inside, on and beyond the limits, and '
  'reset histories.',
  'Tests query a handful of points of one field.',
  [('interpolation', ENV + 'grid_based_wind_field.py', 'GridBasedWindField.get_forecast, get_forecast_column')],
  'Differential property-based testing against a reference interpolation',
  'Grids up to 7x7x6x5 and the default shape.')

p('C19', 'The wind estimate is the Gaussian-process posterior of recent data',
  'The estimate at any point is the forecast plus the posterior mean of the '
  'deviations measured within the last six hours before the query under the '
  'documented kernel, and its uncertainty is the posterior deviation relative '
  'to the prior (one without fresh observations), clipped to [0, 1]. '
  'Observations never increase uncertainty, and a reset forgets everything.',
  ['inputs', 'histories'],
  'Over all histories of observations, resets and queries (including only '
  'stale or no observations).',
  'Tests check a few observations and trends.',
  [('posterior', ENV + 'wind_gp.py', 'WindGP.query, query_batch')],
  'Differential property-based testing of histories against an exact '
  'Cholesky posterior', 'Histories of up to 12 events.')

p('C20', 'The observation vector describes balloon, station and winds',
  'After any sequence of observations every entry of the feature vector is '
  'the documented rescaled quantity: pressure, battery, solar cycle and '
  'azimuth, time, station bearing and distance, safety flags, last command '
  'and excess energy, followed by the wind column centred on the balloon with '
  'magnitude, relative bearing and uncertainty per level. Levels that are '
  'unreachable carry the documented constants, and all entries lie within '
  'the declared bounds.',
  ['inputs', 'histories'],
  'Over all balloon states, winds, forecasts, atmospheres and observation '
  'sequences.',
  'Tests check single entries for hand-made states.',
  [('vector', ENV + 'features.py', 'PerciatelliFeatureConstructor.get_features')],
  'Differential property-based testing against a reference feature vector',
  'Sequences of up to 4 observations.')

p('C21', 'The named view decodes exactly what the vector encodes',
  'Every named accessor of the feature view returns the entry the documented '
  'layout assigns to it, wind lookups convert bearing, magnitude and validity '
  'of the requested level, and levels outside the column or unreachable are '
  'rejected. A vector built from a balloon names that balloon again.',
  ['inputs'], 'Over all feature vectors and levels.',
  'Tests check a few names.',
  [('names', ENV + 'features.py', 'NamedPerciatelliFeatures')],
  'Property-based round-trip testing against the documented layout',
  'Generated vectors and all levels.')

p('C22', 'Flights start in the documented distribution of conditions',
  'Every reset starts a healthy balloon in equilibrium, at a documented place '
  'and time, within 200 km of the station, at a pressure within its '
  'documented range above the minimum altitude, with infrared in range (and of '
  'its documented distribution), zero '
  'elapsed time and the battery at 95 %; the distance follows Beta(1.2, 2), '
  'direction, place, time and pressure are uniform, all independent. A fresh feature constructor is given '
  'the new forecast and atmosphere and exactly one observation.',
  ['inputs', 'histories'],
  'Over all seeds; distributions over samples of hundreds of starts.',
  'Tests sample a few seeds and never look at a distribution.',
  [('starts', ENV + 'balloon_arena.py', 'BalloonArena.reset, _initialize_balloon'),
   ('samplers', UT + 'sampling.py', 'sample_location, sample_time, sample_pressure, sample_upwelling_infrared')],
  'Property-based testing of invariants over seeds, and seeded goodness-of-fit '
  'tests with negligible false-alarm probability',
  'Hundreds of starts per sample.')

p('C23', 'The simulator state is a complete snapshot of a flight',
  'A copy (or pickle) of the full simulator state taken at any moment and set '
  'on any arena resumes the flight exactly: under the same actions, balloon, '
  'safety layers and winds evolve as they did in the original. Setting the '
  'balloon state alone changes the balloon but keeps winds and atmosphere, '
  'and what was set is what is measured and flown.',
  ['histories', 'crash_points'],
  'Over all flights, snapshot moments, later histories and target arenas.',
  'No test restores a snapshot and flies on.',
  [('state', ENV + 'balloon_arena.py', 'get_simulator_state, set_simulator_state'),
   ('copying', ENV + 'simulator_data.py', 'SimulatorState')],
  'Stateful property-based testing: snapshot/restore round trip at every '
  'generated moment, differential against the uninterrupted flight',
  'Flights of up to 14 steps.')

p('C37', 'Balloons start in equilibrium inside their accessible range',
  'Cold-start initialisation leaves the balloon in buoyant and thermal '
  'equilibrium at its level, with the ballonet air, volume and superpressure '
  'of the envelope law, and touches nothing else. The accessible pressure '
  'range is ordered, respects the altitude floor, is safe for the '
  'superpressure at both ends, and ends where flight would become unsafe.',
  ['inputs'], 'Over all balloon states, vehicle constants and atmospheres.',
  'Tests check a few balloons.',
  [('stable init', BAL + 'stable_init.py', 'cold_start_to_stable_params'),
   ('range', BAL + 'pressure_range_builder.py', 'get_pressure_range')],
  'Property-based testing of the defining equations and ends of the range',
  'Generated balloons.')

p('C24', 'Evaluation reports what was flown',
  'Evaluating an agent on a suite flies every seed exactly once in order, in '
  'evaluation mode, until the flight ends or the maximum length is reached, '
  'and tells the agent of every reward exactly once. Each result names its '
  'seed and gives the cumulative reward, the share of time within the radius, '
  'the flight path at the requested period, and how and when the flight ended. '
  'Results do not depend on which seeds were evaluated before, in which order '
  'or in which environment.',
  ['inputs', 'histories'],
  'Over all suites, episode lengths, rewards, positions, endings and radii.',
  'The evaluation tests do not pass here, and check one scripted episode.',
  [('evaluation', EV + 'eval_lib.py', 'eval_agent')],
  'Model-based property-based testing: scripted environments and recording '
  'agents against a reference evaluation; metamorphic on real flights',
  'Suites of up to five seeds and 30 steps.')

p('C25', 'Sharded evaluation equals the whole, and results survive storage',
  'The evaluation program flies the agent, checkpoint, configuration and '
  'winds it is asked for, and combining the shards of a suite in any split '
  'gives every seed of the suite exactly once, sorted by seed, each with its '
  'own result, whatever files of other models lie beside them. Results written '
  'as JSON read back as the same numbers, also when they are array scalars. '
  'The named suites have their documented sizes, no repeated seed, strata that '
  'partition each quantile family, and cannot be damaged by their users.',
  ['inputs', 'histories'],
  'Over all flags, shard counts, suites, model names, neighbours and results.',
  'No test combines shards; the suite tests check sizes.',
  [('sharding', EV + 'eval.py', 'main, write_result'),
   ('combining', EV + 'combine_eval_shards.py', 'combine_shards'),
   ('encoding', EV + 'eval_lib.py', 'EvalResult, EvalResultEncoder'),
   ('suites', EV + 'suites.py', 'get_eval_suite')],
  'Round-trip and metamorphic property-based testing: split, write, combine, '
  'compare with the whole',
  'Shards of generated suites on scripted environments, files in scratch '
  'folders.')

p('C26', 'Training loses and repeats nothing, even across crashes',
  'A training run plays exactly the requested iterations of episodes, gives '
  'the agent every reward exactly once and every episode exactly one begin and '
  'one end, keeps collectors in step, and checkpoints once after every '
  'iteration. A run that crashed anywhere and is restarted goes on from the '
  'last completed iteration, with its episode numbers, and in the end every '
  'iteration has been completed exactly once.',
  ['histories', 'crash_points'],
  'Over all numbers of iterations and episodes, episode lengths, and crash '
  'points in environment or agent.',
  'The test mocks everything and runs once; it never crashes or restarts.',
  [('training loop', P + 'train_lib.py', 'run_training_loop'),
   ('collectors', P + 'train_lib.py', 'get_collector_data')],
  'Stateful property-based testing with injected faults and restarts, against '
  'a model of the protocol',
  'Up to a few iterations, episodes and crashes per case.')

p('C27', 'Metrics report what happened',
  'Every training event reaches every collector once, in order, with its '
  'statistics. Console, console.log, pickles and TensorBoard report, per '
  'episode number, the total reward, length and action distribution of the '
  'episode, and of single steps exactly those asked for. Actions out of range '
  'and missing folders are refused.',
  ['inputs', 'histories'],
  'Over all histories of episodes, statistics, collector sets and '
  'fine-grained frequencies.',
  'Tests check single calls on mocks.',
  [('dispatcher', ME + 'collector_dispatcher.py', 'CollectorDispatcher'),
   ('console', ME + 'console_collector.py', 'ConsoleCollector'),
   ('pickle', ME + 'pickle_collector.py', 'PickleCollector'),
   ('TensorBoard', ME + 'tensorboard_collector.py', 'TensorboardCollector')],
  'Stateful property-based testing: what is read back from the outputs '
  'against the generated history',
  'Up to five episodes of 30 steps. Known finding: the last step of a training '
  'episode is counted twice.')

p('C28', 'Checkpoints bring back exactly what was saved',
  'The latest checkpoint is the highest numbered complete one, whatever other '
  'files lie in its directory and whatever the directory is called; cleaning '
  'up removes exactly the checkpoints older than the given duration and '
  'nothing else. An agent restored from a checkpoint has the parameters and '
  'step count that were saved and goes on acting and learning exactly as the '
  'saved one would have, also when a crash cut the saving of a later one '
  'short.',
  ['inputs', 'histories', 'crash_points'],
  'Over all histories of saving, loading, cleaning and foreign files, all '
  'iteration numbers, agents and experiences, and crashes while saving.',
  'Tests mock the file system and never restore an agent.',
  [('checkpoint files', AG + 'dopamine_utils.py',
    'save_checkpoint, load_checkpoint, get_latest_checkpoint, clean_up_old_checkpoints'),
   ('DQN agent', AG + 'dqn_agent.py', 'save_checkpoint, reload_latest_checkpoint'),
   ('quantile agent', AG + 'quantile_agent.py',
    'save_checkpoint, reload_latest_checkpoint')],
  'Stateful property-based testing against a model of the folder, and '
  'differential continuation of saved and restored agents with injected '
  'partial saves',
  'Histories of up to 14 operations; small networks. Known finding: a cut-off '
  'checkpoint file.')

p('C29', 'StationSeeker navigates to the best scoring level',
  'For every observation StationSeeker goes up, stays or goes down according '
  'to whether the reachable level with the highest published score (of wind '
  'angle, speed, uncertainty, distance and remoteness) lies above, at or below '
  'the balloon. The action depends on nothing but the present observation, '
  'which it leaves untouched.',
  ['inputs', 'histories'],
  'Over all observations, including near ties in every variable.',
  'Tests check a few hand-made columns with clear winners.',
  [('score', AG + 'station_seeker_agent.py', 'StationSeekerAgent.pick_action')],
  'Differential property-based testing with solver-made near ties',
  'Scores that differ by at least 1e-6.')

p('C30', 'The random agents are random as documented, and only so',
  'The random agent takes uniform, independent actions in range. The random '
  'walk agent seeks a target pressure with a hysteresis of 100 Pa, sampled '
  'uniformly from the documented range in every episode and moved by normal '
  'noise of 0.1666 Pa per second of the episode at each step; its actions are '
  'determined by seed and pressures alone, and without a seed no two agents '
  'are alike.',
  ['inputs', 'histories'],
  'Over all seeds, episodes and observations; distributions over samples.',
  'Tests check one action and that the target changes.',
  [('random', AG + 'agent.py', 'RandomAgent'),
   ('random walk', AG + 'random_walk_agent.py', 'RandomWalkAgent')],
  'Property-based testing of agents as black boxes (targets are found by '
  'bisection on copies), and goodness-of-fit tests at 1e-9',
  'Samples of hundreds of actions and targets.')

p('C31', 'Exploration follows the Marco Polo timetable',
  'In an exploratory episode four hours of the agent and two hours of the '
  'explorer alternate, starting with the agent; other episodes are all the '
  'agent\'s. Episodes are exploratory independently with the configured '
  'probability, reproducibly by seed, and the explorer begins every episode '
  'and is told of exactly the steps it decides.',
  ['inputs', 'histories'],
  'Over all episode lengths, successions of episodes, probabilities and seeds.',
  'Tests force single phases by mocks.',
  [('phases', AG + 'marco_polo_exploration.py', 'MarcoPoloExploration'),
   ('no exploration', AG + 'exploration.py', 'Exploration')],
  'Stateful property-based testing against a timetable model, binomial tests '
  'at 1e-9',
  'Episodes of up to 400 steps.')

p('C32', 'Learned agents act greedily, learn as specified and record what flew',
  'Networks compute the multi-layer perceptron they are configured as, and '
  'agents in evaluation take the action of highest value and learn nothing. '
  'In training the MLP agent does one SARSA step per transition, and the DQN '
  'and quantile agents act, record and learn exactly as the Dopamine agents '
  'they wrap, recording the action that was flown after exploration. '
  'Agents made from frozen networks act by the network at their path.',
  ['inputs', 'histories'],
  'Over all network sizes, parameters, observations, experiences, '
  'configurations and alternations of training and evaluation.',
  'Tests mock the superclasses and check one call each.',
  [('networks', AG + 'networks.py', 'MLPNetwork, QuantileNetwork'),
   ('MLP', AG + 'mlp_agent.py', 'MLPAgent'),
   ('DQN', AG + 'dqn_agent.py', 'DQNAgent'),
   ('quantile', AG + 'quantile_agent.py', 'QuantileAgent'),
   ('frozen network', AG + 'perciatelli44.py', 'Perciatelli44')],
  'Differential property-based testing: numpy forward passes, reference SARSA '
  'steps, and Dopamine\'s own agents on the same histories',
  'Small networks; made-up weights in place of Perciatelli44, which is not '
  'part of this checkout.')


p('C33', 'Generated winds are source-free and determined by their key',
  'The generative wind field of a key is what the decoder makes of normal '
  'latents of this key: the central differences of a stream function (no '
  'cell is a source or sink of wind), enlarged linearly to the grid of its '
  'field shape. The field between grid points is the linear interpolation, '
  'and the autoencoder reconstructs fields in the shape that it is given.',
  ['inputs'],
  'Over all keys, network parameters and sizes, field shapes and query points.',
  'Tests check shapes of outputs for one field shape; the weights are missing '
  'here, so that the tests of the generative wind field do not run.',
  [('decoder', GE + 'vae.py', 'Decoder, Encoder, WindFieldVAE, FieldShape'),
   ('sampling', ENV + 'generative_wind_field.py',
    'GenerativeWindFieldSampler, GenerativeWindField')],
  'Differential property-based testing against a numpy decoder, and invariants '
  'of the fields',
  'Made-up weights in place of offlineskies22, which is not part of this '
  'checkout.')


p('C34', 'Model files and wind datasets are what was asked for',
  'Models are loaded byte by byte from the path that is given (ValueError if '
  'it cannot be read), else from the package, else relative to the working '
  'directory (RuntimeError if nowhere). Training batches of a wind dataset are '
  'uniform samples of distinct rows, never of the evaluation rows, which are '
  'the last ones; they are determined by the seed and independent of each '
  'other. Statistics of winds: speeds, and whether the winds of a column '
  'surround the origin.',
  ['inputs', 'histories'],
  'Over all placements of files, sizes of datasets and batches, seeds, and '
  'wind columns in general position.',
  'Tests check one dataset of random numbers and three wind columns.',
  [('models', MO + 'models.py', 'load_offlineskies22, load_perciatelli44'),
   ('datasets', GE + 'dataset_wind_field_reservoir.py',
    'DatasetWindFieldReservoir'),
   ('statistics', UT + 'wind.py', 'is_station_keeping_winds, wind_field_speeds, '
    'mean_speed_in_wind_field')],
  'Property-based testing over file layouts (in scratch directories) and '
  'datasets; binomial tests at 1e-9; differential testing against the largest '
  'windless angle',
  'Wind columns whose hull the origin is clear of by 1e-6 rad.')

p('C35', 'Runs do what their names, flags and configurations say',
  'Every agent name denotes its class and default configuration, every wind '
  'field name its wind field, and unknown names raise ValueError. Bindings '
  'override further gin files, which override the file of the agent, which '
  'replaces its defaults. The training script flies the episodes, lengths, '
  'agent, winds and renderings of its flags, writes everything below '
  'base_dir/agent/run_number, resumes, and its flights are those that '
  'environment and agent make by themselves.',
  ['inputs', 'histories'],
  'Over all names, combinations of configurations and flags.',
  'There are no tests of the registry, run helpers and scripts.',
  [('names', AG + 'agent_registry.py', 'agent_constructor, '
    'get_default_gin_config'),
   ('run helpers', UT + 'run_helpers.py', 'bind_gin_variables, create_agent, '
    'get_wind_field_factory'),
   ('training script', P + 'train.py', 'main'),
   ('registration', ENV + 'gym.py', 'register_env')],
  'Property-based testing against a dictionary of settings, scripted '
  'environments, and a reference training loop',
  'Runs of up to nine episodes of up to 24 steps.')

p('C36', 'Renderers see the flight and leave it alone',
  'A renderer is reset and shown the first state at every reset and shown '
  'every later state once; rendering goes to it with the mode asked for, '
  'raises ValueError for modes it does not know, and does nothing without a '
  'renderer. No renderer changes any observation, reward or state. The '
  'matplotlib renderer draws path, height, charge and place of the balloon of '
  'the present episode.',
  ['inputs', 'histories'],
  'Over all histories of resets, steps and renderings.',
  'Tests check with mocks that some calls are made.',
  [('environment', ENV + 'balloon_env.py', 'reset, step, render'),
   ('matplotlib', ENV + 'rendering/matplotlib_renderer.py',
    'MatplotlibRenderer')],
  'Differential property-based testing of flights with and without renderer, '
  'against the history of states',
  'Agg backend; what is drawn is read from the figure.')


p('C38', 'Acme agents train and act on the same environment',
  'The Acme environment gives the station keeping reward in training, and in '
  'evaluation rewards that sum to the share of the longest flight within the '
  'radius; combined actors follow the Marco Polo timetable, and the actor '
  'sees every action that was flown. The Acme quantile agent has the network '
  'and the parameters of the quantile agent of the repository, and acts '
  'epsilon-greedily in training and greedily in evaluation, fresh or restored '
  'from the checkpoint asked for; the recurrent network gives the same values '
  'step by step and unrolled. The scripts alternate episodes of training '
  'and evaluation as often as they are asked to.',
  ['inputs', 'histories'],
  'Over all radii, flights, episode lengths, parameters, observations and '
  'checkpoints.',
  'There are no tests of them: acme is not installed.',
  [('environment, actors and agent', P + 'acme_utils.py',
    'create_env, create_dqn, CombinedActor, marco_polo_actor'),
   ('evaluation', AG + 'acme_eval_agent.py', 'AcmeEvalAgent'),
   ('scripts', P + 'train_acme_qrdqn.py', 'main'),
   ('distributed script', P + 'distributed_train_acme_qrdqn.py',
    'get_program')],
  'Differential and stateful property-based testing against numpy networks, '
  'the configuration file of the quantile agent and a timetable model',
  'acme, dm_env, haiku, rlax and launchpad are not installed: minimal '
  'stand-ins of their interfaces take their place, so that the parts that are '
  'only passed on to Acme (learner, replay, R2D2 network) are not covered.')

p('C39', 'The wind model is trained on its loss, epoch by epoch',
  'A training step of the wind field autoencoder applies the mean gradient, '
  'over the batch, of squared error over twice the variance plus its log '
  'normaliser plus weighted KL divergence, and evaluation reports exactly '
  'these terms and the wind speeds for fixed fields and latents. Training '
  'does every epoch once with its scheduled KL coefficient and distinct '
  'training rows, reports its averages, saves after every epoch, and a '
  'restarted run goes on from the last complete epoch, or from another run '
  'if it is fresh and asked to. The schedules are constant, or grow by steps '
  'up to their maximum.',
  ['inputs', 'histories', 'crash_points'],
  'Over all parameters, fields, coefficients, schedules, numbers of epochs '
  'and crashes.',
  'There are no tests of it: it imports flax.optim, which the installed flax '
  'no longer has.',
  [('loss and training', GE + 'learn_wind_field_generator.py',
    'train_step, evaluation, train, step_schedule')],
  'Differential property-based testing against losses in numpy and their '
  'finite differences; stateful testing of runs with injected crashes',
  'A small autoencoder, and plain gradient descent in place of flax.optim.')

p('C40', 'The parts an environment is configured with are used as they are',
  'A feature constructor, reward function, wind field or arena given to the '
  'environment (directly or through gym.make) decides what it stands for: each '
  'episode has one new feature constructor, made for the winds and atmosphere '
  'of the episode and shown the present state and true wind once per reset and '
  'step; the winds are reset once per episode, with its start and a key that '
  'its seed determines, and move the balloon. A given arena is reset or '
  'stepped once per call, and nothing else is done to it. Features, observation '
  'space and rewards are passed on unchanged, whatever their size, shape and '
  'type.',
  ['configurations', 'histories'],
  'Over all wind fields, feature shapes and types, rewards of any size, '
  'arenas, seeds and sequences of resets and steps.',
  'The tests of the environment are not among those that pass here, and mock '
  'one part at a time.',
  [('environment', ENV + 'balloon_env.py', 'BalloonEnv'),
   ('arena', ENV + 'balloon_arena.py', 'BalloonArena.reset, step'),
   ('winds', ENV + 'wind_field.py', 'WindField.reset')],
  'Model-based property-based testing with recording parts',
  'Up to three episodes of five steps, scripted arenas of twelve calls.')
