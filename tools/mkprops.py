#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
V = 'AMAT/vehicle.py'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop('C01', 'Every flight is classified once and reported only up to its end event',
     'An atmospheric flight is reported as skipped out exactly when it exceeds the skip-out altitude (the top of the planet\'s atmosphere unless set otherwise) without ever going below the surface, as trapped exactly when it is not skipped out and falls below the trap-in altitude, and as timed out otherwise. '
     'The report is exactly the computed flight up to, and not including, the first sample past the end event (the whole flight if timed out), starts at the requested initial state, and is sampled every requested time step; the flight lasts the requested time unless its path points straight down (within two degrees, for the second integrator) or it comes to rest. '
     'Every reported series has one entry per reported sample, in SI and plot units alike, and the entry plots show these series.',
     ['inputs', 'configurations'], 'every altitude history, planet, initial state, bank angle, flight duration and time step, for both integrators and for the prediction flights',
     'The tests fly a handful of nominal trajectories and check end values; they never meet the boundary orderings (touching the trap or skip altitude, skipping out and crashing later, surface contact) that decide the classification.',
     [V], [('classifyTrajectory', V), ('truncateTrajectory', V), ('propogateEntry, propogateEntry2', V), ('propogateEntry_util, propogateEntry_util2, propogateEntry_utilD, propogateEntry_utilD2', V)],
     ['exit flag, number of reported samples, and every reported series after a propagation call'],
     [('skip-out and trap-in altitudes', 'bounds of the flight window', 'AMAT/planet.py Planet.__init__')])

prop('C02', 'Corridor limits bracket the real capture boundary within tolerance',
     'A corridor search reports success exactly when the two ends of the bracket it is given lie on different sides of the target (apoapsis at or above target or escape, against below target or lost in the atmosphere); the angle it then returns lies in the bracket, on the same side as the high end, and within the tolerance of an angle on the other side. '
     'The overshoot limit is flown full lift down and the undershoot limit full lift up, and for drag modulation both are flown without lift, the overshoot with the drag skirt and the undershoot after its jettison. '
     'The corridor width is the overshoot limit minus the undershoot limit, and a capture test says captured exactly when the final orbital energy is negative.',
     ['inputs', 'configurations'], 'every vehicle, planet, target apoapsis, bracket (in either order) and tolerance, for the lift and drag modulation searches and for both integrators',
     'The tests run three or four searches and compare the answers with recorded numbers; a search that is right for those brackets and wrong for another order, tolerance or side cannot be seen.',
     [V], [('findOverShootLimit*, findUnderShootLimit*', V), ('findEFPALimitD, findEFPALimitD2, find*ShootLimitD*', V), ('hitsTargetApoapsis, hitsTargetApoapsis2, isCaptured', V), ('computeTCW, computeTCW2, computeTCWD, computeTCWD2', V)],
     ['returned limit, success flag and corridor width; flights at the returned angle and next to it'])

prop('C03', 'Analysis calls leave no trace: results depend only on the configuration',
     'Capture tests, corridor searches, corridor widths, heating sweeps over nose radii, load and heating evaluations, atmosphere queries, plots and flight predictions leave the arrays they are given and the vehicle and planet configuration (initial state, ballistic coefficient and drag coefficient, lift, nose radius, atmosphere, solver settings) exactly as they found it, also when the search finds no limit. '
     'The result of every such call and of every flight is therefore a function of the configuration in force, whatever calls were made before it, also on copies of the vehicle or on other vehicles at the same planet.',
     ['histories', 'configurations'], 'every sequence of analysis and flight calls on one vehicle, in every order, with successful and unsuccessful searches',
     'Each test builds a fresh vehicle and makes one call; leaks from one call to the next only show in sequences of calls.',
     [V, 'AMAT/planet.py'], [('save and restore of entry angle, L/D, CL, beta, CD', V + ' find*Limit*'), ('nose radius restore', V + ' computeHeatingForMultipleRN'), ('copies flown by predictions', V + ' propogateEntry_util*')],
     ['configuration attributes before and after each call, results of repeated calls'])

prop('C04', 'Predictions fly a copy, faithfully, through the measured atmosphere',
     'An on-board prediction never changes the vehicle, its planet, its atmosphere or the trajectory being flown. '
     'It returns exactly the apoapsis that the same vehicle reaches when flown from the given state through the given atmosphere (with the post-jettison ballistic coefficient for a jettison prediction). '
     'The atmosphere rebuilt from measurements agrees with every measurement and continues exponentially below the lowest one.',
     ['inputs', 'histories'], 'every state, bank angle, density profile and measurement history, for lift and drag modulation and both integrators',
     'The tests never call a prediction on its own nor compare it with a flight; guided runs only check an end value.',
     [V, 'AMAT/planet.py'], [('propogateEntry_util*, predictApoapsisAltitudeKm_*', V), ('createDensityMeasuredFunction', V), ('scaleHeight', 'AMAT/planet.py')],
     ['predicted apoapsis, vehicle attributes before and after, rebuilt density function'])

prop('C05', 'A guided flight is one continuous flight of chained guidance cycles',
     'In a lift or drag modulation guided flight every guidance cycle starts at the exact state (position, velocity, downrange, accumulated heat load) in which the previous one ended and flies the equations of motion at that cycle\'s recorded bank angle; time runs forward without gap or overlap and all reported series stay aligned. '
     'The flight goes through the entry phase and then the exit phase, each recorded cycle once, and always ends: as soon as it leaves the atmosphere, is trapped, or cannot be integrated further. '
     'The reported final orbit and manoeuvre costs are those of the last flown state.',
     ['histories', 'inputs', 'configurations'], 'every entry state, guidance setting, cycle length and integration step, at every cycle of the flight, for lift and drag modulation and both integrators',
     'The repository has no test of any guided flight; a broken hand-over at a phase change still gives a plausible end value.',
     [V], [('propogateEquilibriumGlide*, propogateExitPhase*, propogateGuidedEntry*', V), ('propogateEntryPhaseD*, propogateExitPhaseD*, propogateGuidedEntryD*', V)],
     ['full-trajectory series, per-cycle series, switch point, terminal orbit and delta-V'])

prop('C06', 'Bank angle follows the guidance law and never outruns the roll rate',
     'From one guidance cycle to the next the flown bank angle moves from its previous value towards the command by at most the maximum roll rate times the cycle length, never past the command and never away from it, at the full rate when the command is out of reach, and reaches it when it is within reach. '
     'In the entry phase the command is the equilibrium-glide law limited to between full lift up and full lift down, and in the exit phase it is full lift up. '
     'The entry phase is left at the first cycle in which the predicted apoapsis with lift up is at or below the target (within its tolerance), the speed is at or below the switch speed, or the vehicle has reached the exit altitude or left the flight window.',
     ['histories', 'inputs', 'configurations'], 'every command sequence, roll rate, cycle length, gain and entry state, at every cycle, for both integrators',
     'There is no test of the controller or of the guidance; the limits only bind in sequences of cycles.',
     [V], [('psuedoController', V), ('bank command and phase switch', V + ' propogateEquilibriumGlide*, propogateExitPhase*'), ('setMaxRollRate, setEquilibriumGlideParams', V)],
     ['recorded bank angle, altitude, altitude rate and time of every cycle; switch point'])

prop('C07', 'Drag modulation jettisons the skirt exactly once, at the right moment',
     'A drag modulation flight flies its entry phase with the initial ballistic coefficient and without banking, jettisons exactly once, and flies everything after that with the post-jettison ballistic coefficient. '
     'Jettison happens at the first cycle in which the predicted post-jettison apoapsis is at or below the target (within its tolerance), the speed is at or below the switch speed, or the vehicle has reached the exit altitude or left the flight window, and not before the altitude rate exceeds its threshold when it is triggered by a prediction. '
     'A second flight of the same vehicle starts again with the skirt attached.',
     ['histories', 'inputs', 'configurations'], 'every entry state, ballistic coefficient ratio, target and cycle length, at every cycle, for both integrators and for repeated flights',
     'No test flies a drag modulation guided entry.',
     [V], [('propogateEntryPhaseD*, propogateExitPhaseD*', V), ('predictApoapsisAltitudeKm_afterJettision*', V), ('setDragModulationVehicleParams, setDragEntryPhaseParams', V)],
     ['deceleration along the flight, switch point, ballistic coefficient'])

prop('C08', 'Loads and heating are consistent along every flight',
     'At every reported sample the heat rate is the sum of its convective and radiative parts and nonnegative, the dynamic pressure is half the density times speed squared, the stagnation pressure adds the static pressure, and the net load is the norm of its components (the drag load its drag part only), for every bank angle. '
     'The heat load starts at the configured initial heat load, never decreases, and grows by exactly the time integral of the heat rate. '
     'The convective and radiative parts follow the stagnation-point correlation of the planet in density, speed and nose radius (hotter when denser or faster, no jump between ranges of speed, no radiative part for Mars and Titan). Heating for several nose radii equals flying the vehicle with each radius, and Mach number and stagnation temperature follow from the local speed of sound and temperature.',
     ['inputs', 'configurations', 'histories'], 'every planet, atmosphere, flight, bank angle, nose radius and initial heat load, including segments chained after one another',
     'Tests compare a few peak values with zero initial heat load and zero bank, where most terms vanish.',
     [V, 'AMAT/planet.py'], [('qStagConvective, qStagRadiative, qStagTotal', V), ('computeAccelerationLoad, computeAccelerationDrag, computeDynPres, computeStagPres, computeMach, computeStagTemp', V), ('computeHeatingForMultipleRN', V), ('heat load accumulation', V + ' propogateEntry*')],
     ['load, pressure, heat rate and heat load series of a flight'])

prop('C09', 'A Monte Carlo campaign records exactly what each run flew, also when cut off',
     'Each run of a campaign starts from the reference entry state with the sampled entry angle and flies exactly the sampled vehicle and atmosphere that it records, drawn afresh from the configured distributions and independent of the runs before it. '
     'The record of each run and its entry in every summary agree with what was flown, and every summary covers all finished runs after each run. '
     'A campaign never overwrites an existing campaign folder, and if it is interrupted at any point every record already written stays, belongs to its own run, and is true.',
     ['crash_points', 'histories', 'configurations'], 'every campaign length, sample sequence and interruption point, for lift, drag modulation and Earth campaigns and both integrators',
     'No test runs a campaign.',
     [V], [('runMonteCarlo, runMonteCarlo2, runMonteCarloD, runMonteCarloD2, runMonteCarloD_Earth', V), ('setupMonteCarloSimulation*', V)],
     ['campaign folder contents, configuration at each flight'])

prop('C10', 'A sampled atmosphere is one profile, perturbed on the right side',
     'The atmosphere built for Monte Carlo sample number i uses the data of the i-th profile of the file and of no other. '
     'Its density is the mean, plus the dispersion factor times the upper half-width when the factor is positive or the lower half-width when it is negative, plus that profile\'s own perturbation (none in the variant without perturbations); a zero factor leaves mean plus perturbation. '
     'It interpolates linearly between its own altitudes and is zero outside them, whatever altitude unit the file uses.',
     ['inputs', 'configurations'], 'every file layout, profile number from first to last, profile length, dispersion factor of either sign, and altitude unit',
     'No test loads a Monte Carlo density file.',
     ['AMAT/planet.py'], [('loadMonteCarloDensityFile2, loadMonteCarloDensityFile3', 'AMAT/planet.py'), ('loadAtmosphereModel5, loadAtmosphereModel6, pSigmaFunc, nSigmaFunc', 'AMAT/planet.py')],
     ['density function returned for a profile and factor'])

prop('C11', 'Atmosphere queries agree with the loaded data and with each other',
     'Within the atmosphere every density, pressure, temperature and speed of sound query (scalar or array, by altitude or radius, dimensional or not) returns the interpolated table value, exactly the table value at table altitudes; the speed of sound follows from pressure, density and the heat capacity ratio of the planet\'s air. '
     'Above the atmosphere the density used in flight is zero and below the surface it is the surface reference density. '
     'Profile plots show these values. Altitude and radius, and dimensional and non-dimensional states, convert back and forth without loss.',
     ['inputs', 'configurations'], 'every planet, loaded table (altitude unit, column order, interpolation kind), altitude from below the surface to above the atmosphere, and state',
     'Tests sample density at two or three altitudes per planet and only check inequalities.',
     ['AMAT/planet.py'], [('loadAtmosphereModel, density', 'AMAT/planet.py'), ('densityvectorized, tempvectorized, presvectorized, avectorized, rho, rhovectorized, pressurevectorized, temperaturevectorized, sonicvectorized, rho2, rhobar', 'AMAT/planet.py'), ('computeR, computeH, nonDimState, dimensionalize', 'AMAT/planet.py')],
     ['return values of the queries'])

prop('C12', 'Flight dynamics obey the conservation laws and both integrators agree',
     'Without an atmosphere a flight conserves its energy in the rotating frame of the real, oblate planet (its size, mass, spin and oblateness); with one, energy only falls, drag acts against the velocity, and lift does no work and turns the path up at zero bank, down at half a turn and sideways in between, in proportion to lift over drag; every force term is the same as a scalar, as an array and nondimensional. '
     'Position, downrange and velocity are consistent along the flight, and both integrators give the same flight. '
     'The apoapsis and periapsis computed from a state are those of the inertial two-body orbit through that state, and periapsis and apoapsis raise costs are those of the transfers at the opposite apsis.',
     ['inputs', 'configurations'], 'every planet (prograde and retrograde rotators), latitude, heading, flight-path angle, speed, bank angle, lift and drag including Mach-dependent drag',
     'Tests fly nearly equatorial nominal cases and check recorded numbers; signs and terms that vanish on the equator, at zero bank or for one rotation sense are not seen.',
     [V], [('EOM, EOM2 and their terms', V), ('solveTrajectory, solveTrajectory2', V), ('computeEnergy*, computeAngMomScalar, computeSemiMajorAxisScalar, computeEccScalar, compute_ApoapsisAltitudeKm, compute_PeriapsisAltitudeKm', V), ('compute_periapsis_raise_DV, compute_apoapsis_raise_DV', V)],
     ['state series of a flight; orbit computed from a state'])

prop('C13', 'Launch capability follows the table and never extrapolates',
     'The launch capability at a given launch energy is the vehicle\'s table value at table energies and the interpolated value between them, and it is exactly zero outside the tabulated range. '
     'It is the same for scalar and array queries, and a trajectory catalogue gets for each of its trajectories, in order, the capability at that trajectory\'s launch energy next to that trajectory\'s own date, flight time and arrival speed.',
     ['inputs', 'configurations'], 'every launcher table (any row order), launch energy inside, at the edges of and outside the table, and every catalogue',
     'Tests check two launchers at two energies and one catalogue entry.',
     ['AMAT/launcher.py', 'AMAT/interplanetary.py'], [('Launcher.launchMass', 'AMAT/launcher.py'), ('Interplanetary.compute_launch_capability', 'AMAT/interplanetary.py')],
     ['returned launch mass; catalogue columns'])

prop('C14', 'An approach trajectory is the hyperbola it was asked for',
     'The approach is the planet-centred hyperbola with the given arrival velocity and periapsis radius: arriving along the given velocity far out, its position and velocity at every point conserve energy and angular momentum (magnitude and direction), lie in its plane, and match its reported orbital elements and aim point. '
     'The entry point lies on it, inbound, at the entry altitude, and the entry latitude, longitude, speed, flight-path angle and heading are those of that state, inertial and relative to the rotating atmosphere. '
     'The aim-plane axes are orthonormal and frame changes are rotations, for every planet with its real orientation.',
     ['inputs', 'configurations'], 'every planet, arrival velocity vector, periapsis radius, aim angle, entry altitude and point on the trajectory, both before and after periapsis',
     'Tests cover one Neptune arrival with two aim angles and compare recorded numbers.',
     ['AMAT/approach.py'], [('Approach.__init__', 'AMAT/approach.py'), ('pos_vec_bi, vel_vec_bi, r_mag_bi, pos_vec_bi_dprime', 'AMAT/approach.py'), ('ICRF_to_BI, BI_to_BI_dprime, vel_vec_entry_atm', 'AMAT/approach.py')],
     ['orbital elements, vectors and entry conditions of the approach object'])

prop('C15', 'Deflection manoeuvres connect the two trajectories at one point',
     'A deflection manoeuvre takes place at the given distance, inbound, on the first vehicle\'s approach trajectory. '
     'The velocity before it is the first vehicle\'s own velocity there, the velocity after it leads, from that same point, to the second vehicle\'s periapsis point, and the reported manoeuvre is exactly the difference. '
     'The reported flight times are the times of flight from the manoeuvre to each vehicle\'s periapsis.',
     ['inputs', 'configurations'], 'every planet, arrival velocity, pair of periapsis radii and aim angles, and manoeuvre distance, for probe-orbiter, probe-probe and orbiter-orbiter deflection',
     'Tests check that the constructors run and one recorded magnitude.',
     ['AMAT/maneuver.py', 'AMAT/approach.py'], [('ProbeOrbiterDeflection, ProbeProbeDeflection, OrbiterOrbiterDeflection', 'AMAT/maneuver.py')],
     ['manoeuvre vector, velocities and flight times'])

prop('C16', 'Orbits after capture join up with the flight and with each manoeuvre',
     'The coast orbit passes through the inertial exit state of the flight that led to it; the periapsis raise happens at its apoapsis, only changes the speed there, and leads to the orbit with that apoapsis and the requested periapsis; probe and orbiter deflection burns act along the velocity by the requested amount and lead to the orbit through that point. '
     'A propulsive capture burns at the approach periapsis into the orbit with that periapsis and the requested apoapsis in the same plane. '
     'Positions and velocities on each orbit conserve its energy and angular momentum, and timed positions satisfy Kepler\'s equation at every time, over many revolutions.',
     ['inputs', 'configurations', 'histories'], 'every captured flight, periapsis and apoapsis target, burn location and size, orbit geometry and time',
     'Tests check one Neptune aerocapture and one Titan orbit against recorded numbers and array shapes.',
     ['AMAT/orbiter.py'], [('Orbiter', 'AMAT/orbiter.py'), ('PropulsiveOrbiter', 'AMAT/orbiter.py')],
     ['orbital elements, position and velocity on each orbit, manoeuvre vectors, timed positions'])

prop('C17', 'Visibility is geometric: seen exactly when above horizon or not occulted',
     'Time runs forward from zero over the requested span (one rotation for a lander viewing a planet) and the lander turns with its planet at constant latitude on the surface, in the real planet\'s own rate and sense of rotation. '
     'At every time the elevation is the angle of the target above the local horizon (zero when below), and a lander sees its target exactly when the elevation is positive; an orbiter loses sight of a planet exactly when its own planet blocks the line of sight. '
     'All series have one entry per time, and the range to an orbiter is the distance between the two.',
     ['inputs', 'configurations'], 'every planet (prograde and retrograde), latitude, orbit, date, duration and number of points',
     'The visibility tests cannot run without the ephemeris kernel, and only check one lander at Titan.',
     ['AMAT/visibility.py'], [('LanderToPlanet, LanderToOrbiter, OrbiterToPlanet', 'AMAT/visibility.py')],
     ['time, elevation, range and visibility series'])

prop('C18', 'Link budget balances, and data flows only when visible and scheduled',
     'The available signal-to-noise ratio is exactly transmit power and both antenna gains minus all listed losses, noise temperature, data rate and the noise constant, the margin is available minus required, and antenna gains come from the dish of the same antenna or the given gain (zero included); the printed budget shows these entries. '
     'A transmission schedule is on at exactly the times inside at least one of its windows, ends included. '
     'Delivered data starts at zero, never decreases, grows only at times that are both visible and scheduled, and at the full data rate during such times.',
     ['inputs', 'configurations', 'schedules'], 'every combination of link parameters and antenna descriptions, list of windows (empty, overlapping, touching, unordered, outside the span), visibility pattern and data rate',
     'The telecom tests cannot run without the ephemeris kernel and check one budget.',
     ['AMAT/telecom.py'], [('Link.__init__, compute_antenna_gain, compute_free_space_loss_dB', 'AMAT/telecom.py'), ('Link.compute_data_volume', 'AMAT/telecom.py'), ('Schedule', 'AMAT/telecom.py')],
     ['budget terms, schedule flags, data volume series'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
