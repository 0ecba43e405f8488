# executed by catalog.py in its own namespace

prop("P11", "Orbit after the flight and correction burns",
	"Apoapsis and periapsis altitudes reported for a flight state are those of the inertial Keplerian orbit through that state (whatever the longitude), an unbound state has no positive apoapsis; "
	"the burn at one apsis that moves the other is the difference of the vis-viva speeds, zero when nothing has to move and reversed for the reverse manoeuvre. A flight is reported captured exactly when its specific energy at the end is negative.",
	INPUTS, "every body, flight state, orbit and target apsis",
	"The tests check a few recorded values of one or two flights.",
	[V], [("compute_ApoapsisAltitudeKm, compute_PeriapsisAltitudeKm", V + ":compute_ApoapsisAltitudeKm"), ("compute_periapsis_raise_DV, compute_apoapsis_raise_DV", V + ":compute_periapsis_raise_DV"), ("isCaptured", V + ":isCaptured")],
	"Hypothesis PBT, differential against Cartesian two-body mechanics; metamorphic relations", "generated states and orbits away from parabolic/circular degeneracy")

prop("P12", "Aerocapture corridor of a lifting vehicle",
	"A flight is called an overshoot exactly when it leaves the planet or reaches at least the target apoapsis and an undershoot otherwise (impact and being trapped included). "
	"The overshoot (lift-down) and undershoot (lift-up) limits found in a search interval separate the two outcomes to within the tolerance, a failed search is reported as such, and the corridor width is their difference; the vehicle is left as it was.",
	IC, "every body, vehicle, entry geometry, target apoapsis, search interval and tolerance",
	"The tests bisect three or four recorded entries.",
	[V], [("hitsTargetApoapsis, hitsTargetApoapsis2", V + ":hitsTargetApoapsis"), ("findOverShootLimit, findUnderShootLimit and variants", V + ":findOverShootLimit"), ("computeTCW, computeTCW2", V + ":computeTCW")],
	"Hypothesis PBT, differential against an independent flight simulator's outcome on both sides of the limit", "a flight is judged when reference flights 0.02 deg on both sides agree")

prop("P13", "Aerocapture corridor of a drag-modulation vehicle",
	"With drag modulation the overshoot limit is that of a lift-free flight with the low ballistic coefficient and the undershoot limit that of a lift-free flight with the high one (low times ratio), whatever lift the vehicle was built with; "
	"the limits separate overshoot from undershoot to the tolerance, and their difference is the corridor width; the vehicle's lift, mass and entry state are left as they were.",
	IC, "every body, vehicle, ballistic-coefficient ratio, entry geometry, target apoapsis and search interval",
	"The tests bisect one recorded entry.",
	[V], [("findOverShootLimitD, findUnderShootLimitD, computeTCWD and variants", V + ":findOverShootLimitD")],
	"Hypothesis PBT, differential against an independent flight simulator's outcome on both sides of the limit", "a flight is judged when reference flights 0.02 deg on both sides agree")

prop("P14", "Guidance building blocks",
	"The bank controller moves the bank angle towards the command by at most the roll rate times the cycle and reaches a command that is held. "
	"The on-board density model reproduces the densities measured on the way down and extrapolates below the lowest measurement exponentially with the scale height those measurements imply. "
	"The predicted exit apoapsis is that of the flight continued full lift-up (or lift-free with the high ballistic coefficient after jettison) through the given density model, negative for escape, and predicting changes nothing about the vehicle.",
	IH, "every command sequence, measurement set, flight state and density model",
	"The tests never exercise the controller or the model alone and see one recorded guided flight.",
	[V], [("psuedoController", V + ":psuedoController"), ("createDensityMeasuredFunction", V + ":createDensityMeasuredFunction"), ("predictApoapsisAltitudeKm_withLiftUp, _afterJettision and variants", V + ":predictApoapsisAltitudeKm_withLiftUp")],
	"Hypothesis PBT: reference controller and density model; differential against an independent flight simulator", "predictions are judged where 1e-4 of speed does not change them by more than the tolerance")

prop("P15", "Lift-modulated guided aerocapture",
	"A guided entry is one continuous flight from the given state: every guidance cycle is flown, with the dynamics of the vehicle, at the bank angle the equilibrium-glide law commands within the roll-rate limit, then rolls to full lift-up. "
	"The exit phase begins when the speed is down to the switch speed or flying on lift-up is predicted to reach the target apoapsis, and no earlier; the flight ends when the vehicle leaves the atmosphere, is trapped, or cannot be propagated further, and always ends. "
	"The loads along it, the altitude, speed and bank at the switch, the final apsides, apoapsis error and correction burns are those of that flight.",
	IC, "every body, vehicle, entry, guidance gains, roll-rate limit, switch speed, target orbit and cycle length",
	"The tests fly one recorded guided entry and compare a final apoapsis.",
	[V], [("propogateGuidedEntry, propogateGuidedEntry2", V + ":propogateGuidedEntry"), ("propogateEquilibriumGlide, propogateExitPhase", V + ":propogateEquilibriumGlide"), ("psuedoController", V + ":psuedoController")],
	"Hypothesis PBT, differential per guidance cycle against an independent flight simulator and guidance law", "at most 60 cycles of a flight are re-integrated; the phase switch is not judged within 3 % of the deciding prediction")

prop("P16", "Drag-modulated guided aerocapture",
	"A drag-modulated guided entry is one continuous lift-free flight from the given state with the low ballistic coefficient until jettison and the high one (low times ratio) after it. "
	"Jettison happens when the speed is down to the switch speed or the flight after jettison is predicted to reach the target apoapsis, and no earlier; the flight ends when the vehicle leaves the atmosphere, is trapped, or cannot be propagated further. "
	"The loads along it, the jettison conditions, the final apsides, apoapsis error and correction burns are those of that flight; mass, area and nose radius are as before.",
	IC, "every body, vehicle, ballistic-coefficient ratio, entry, switch speed, target orbit and cycle lengths",
	"The tests fly one recorded guided entry and compare a final apoapsis.",
	[V], [("propogateGuidedEntryD, propogateGuidedEntryD2", V + ":propogateGuidedEntryD"), ("propogateEntryPhaseD, propogateExitPhaseD", V + ":propogateEntryPhaseD")],
	"Hypothesis PBT, differential per guidance cycle against an independent flight simulator", "at most 60 cycles of a flight are re-integrated; jettison is not judged within 3 % of the deciding prediction")

prop("P17", "Monte Carlo simulation of guided aerocapture",
	"Each run of a Monte Carlo simulation draws a dispersion file from the list, a profile between 1 and NMONTE, a normal entry angle, a normal density sigma and a normal L/D (lift) or ballistic coefficient (drag) "
	"with the requested mean and one-sigma, and flies the guided entry with exactly those values and otherwise the nominal set-up. Runs do not influence one another, "
	"every saved output is that of the run's own flight, the summary arrays hold one entry per run in order, and the vehicle keeps its nominal parameters.",
	IH, "every body, vehicle, dispersion file set, one-sigma values, number of runs and random seed",
	"No test runs a Monte Carlo simulation.",
	[V], [("runMonteCarlo, runMonteCarlo2, runMonteCarloD, D2, D_Earth", V + ":runMonteCarlo"), ("setupMonteCarloSimulation, ...D, ...D_Earth", V + ":setupMonteCarloSimulation")],
	"Hypothesis PBT: replay of each run from its saved inputs on fresh objects; recorders in place of the flight phases with hundreds of runs; sample statistics at 6 standard errors",
	"random sampling is judged statistically with fixed seeds")

A = "AMAT/approach.py"
MV = "AMAT/maneuver.py"
O = "AMAT/orbiter.py"

prop("P18", "Targeted hyperbolic approach",
	"An Approach is the hyperbola with the given arrival v-infinity vector, periapsis radius and ring angle: rotations between ICRF and body axes are proper and inverse to each other, right ascension and declination, "
	"semi-major axis, eccentricity, inclination, node, argument of periapsis, B-plane vectors and aim point all describe that one orbit, position and velocity at every true anomaly lie on it. "
	"Entry state at the interface altitude (position, latitude, longitude, inertial and atmosphere-relative speed, flight-path angle and heading) is the crossing of that orbit inbound.",
	INPUTS, "every body, v-infinity vector, periapsis radius, ring angle and interface altitude",
	"The tests compare recorded numbers of one Neptune and one Uranus approach.",
	[A], [("Approach constructor", A + ":__init__"), ("position, velocity and entry state", A + ":vel_vec_entry_atm"), ("ICRF_to_BI, BI_to_BI_dprime and inverses", A + ":ICRF_to_BI"), ("pos_vec_bi, vel_vec_bi", A + ":pos_vec_bi")],
	"Hypothesis PBT, differential against Cartesian two-body mechanics; inverse and orthogonality relations", "polar v-infinity and equatorial orbits excluded (undefined node); one recorded finding")

prop("P19", "Deflection manoeuvres on approach",
	"A probe-orbiter, orbiter-orbiter or probe-probe pair is one approach up to the manoeuvre radius: both spacecraft are there at the same position, the velocity change equals the difference of their velocities, "
	"after it the second flies to its own periapsis point, and the reported burn magnitude, its direction and times of flight are those of that transfer. "
	"Equal targets need no manoeuvre, swapping two orbiters of one periapsis radius costs the same, and an earlier manoeuvre costs less.",
	INPUTS, "every body, v-infinity vector, pair of targets and manoeuvre radius",
	"The tests compare recorded numbers of one pair of each kind.",
	[MV], [("ProbeOrbiterDeflection, OrbiterOrbiterDeflection, ProbeProbeDeflection", MV + ":__init__")],
	"Hypothesis PBT, differential against two-body propagation and the Lambert relation; symmetry relations", "one recorded finding (the second probe of a probe-probe pair)")

prop("P20", "Orbit, probe release and deflection after aerocapture",
	"An Orbiter starts from the inertial state in which the flight left the atmosphere: elements, true anomaly, coast arc and apoapsis are those of that orbit, the burn at apoapsis along the velocity puts the periapsis at the requested altitude, "
	"and position and velocity at any true anomaly lie on the resulting orbit. A probe-targeting burn along the velocity at a given true anomaly gives the probe's orbit and, if that dips below the interface, its entry state; "
	"the orbiter deflection burn on the probe's orbit gives the deflected orbit.",
	IH, "every body, captured flight, target periapsis, manoeuvre points and burns",
	"The tests compare recorded numbers of one Uranus and one Neptune flight.",
	[O], [("Orbiter constructor, coast and periapsis raise", O + ":compute_coast_trajectory"), ("compute_probe_targeting_trajectory", O + ":compute_probe_targeting_trajectory"), ("compute_orbiter_deflection_trajectory", O + ":compute_orbiter_deflection_trajectory")],
	"Hypothesis PBT, differential against Cartesian two-body mechanics", "exit orbits with eccentricity over 0.02 inclined over 1 degree; four recorded findings")

prop("P21", "Propulsive orbit insertion and motion in time",
	"A PropulsiveOrbiter enters, at the periapsis of its approach, the orbit in the approach plane and direction with that periapsis and the requested apoapsis altitude; the insertion burn is the difference of the velocities there. "
	"Position and velocity at any true anomaly lie on that orbit. The timed trajectory starts at periapsis and obeys Kepler's equation: every sample is where two-body motion puts the spacecraft at that time, over any number of revolutions.",
	INPUTS, "every body, approach, apoapsis, time span and number of samples",
	"The tests compare recorded numbers of one Titan orbit and the end of its time grid.",
	[O], [("PropulsiveOrbiter constructor", O + ":PropulsiveOrbiter"), ("compute_timed_orbit_trajectory, compute_E, compute_theta_star", O + ":compute_timed_orbit_trajectory")],
	"Hypothesis PBT, differential against Cartesian two-body mechanics and a bisection solution of Kepler's equation", "eccentricity up to 0.995, up to four revolutions")

VI = "AMAT/visibility.py"
T = "AMAT/telecom.py"
LA = "AMAT/launcher.py"
IP = "AMAT/interplanetary.py"

prop("P22", "Visibility of planets and orbiters",
	"A lander sees the target planet, over one rotation of its own body in time order, at the elevation the body's pole, spin direction and the two planets' positions give, and it is visible exactly when above the horizon. "
	"Seen from a lander, an orbiter has the range and elevation of their positions at each time and is visible exactly when above the horizon plane. "
	"An orbiter loses the target planet exactly while its own planet stands between (behind it and within one radius of the centre line). Ranges are in metres and the body Titan stands at Saturn.",
	INPUTS, "every observer, target, date, latitude, orbit, time span and number of points",
	"The tests need an ephemeris file that is not in the repository and compare a few maxima.",
	[VI], [("LanderToPlanet", VI + ":LanderToPlanet"), ("LanderToOrbiter", VI + ":LanderToOrbiter"), ("OrbiterToPlanet", VI + ":OrbiterToPlanet")],
	"Hypothesis PBT, differential against vector geometry and two-body motion, with generated and astropy planet positions", "visibility closer than 1e-5 to the horizon or limb is not judged; no light time")

prop("P23", "Link budget, transmit schedule and data volume",
	"The Eb/N0 of a link is the received energy per bit over the noise density of the Friis equation with every gain and loss counted once, and the margin is what exceeds the requirement; each parameter acts with its own exact slope. "
	"A schedule transmits exactly inside its windows. The data volume is the integral of the data rate over the time in which the link is both visible and transmitting, starts at zero and never shrinks.",
	IH, "every link parameter set, schedule, visibility history",
	"The tests check one link and are not runnable with the files in the repository.",
	[T], [("Link constructor", T + ":Link"), ("compute_data_volume", T + ":compute_data_volume"), ("Schedule", T + ":Schedule")],
	"Hypothesis PBT, differential against the Friis equation and a trapezoidal sum; metamorphic slopes", "constants may be rounded within 0.03 dB")

prop("P24", "Launch vehicle performance",
	"The launch mass at a tabulated C3 is the tabulated mass, between rows it is interpolated in the requested way (linearly unless told otherwise), and outside the table it is zero; "
	"the row order of the file does not matter and arrays are answered element by element.",
	INPUTS, "every table, interpolation kind and C3",
	"The tests query one C3 of a few shipped files within 50 kg.",
	[LA], [("Launcher", LA + ":Launcher"), ("launchMass", LA + ":launchMass")],
	"Hypothesis PBT, differential against an independent interpolation; shipped files included", "spline kinds are compared with scipy splines")

prop("P25", "Interplanetary trajectory data and plots",
	"A data set holds the launch dates (in the given format), launch C3, flight times and arrival v-infinity of the requested sheet in file order; the launch capability of each trajectory is the launcher's mass at its C3. "
	"Every plot shows each trajectory at its own coordinates (and colour), keeps those the launcher can fly inside the axes, and is saved as png, pdf and eps.",
	INPUTS, "every table, date format, launcher and plot",
	"No test touches this module.",
	[IP], [("Interplanetary constructor", IP + ":Interplanetary"), ("compute_launch_capability and plots", IP + ":compute_launch_capability")],
	"Hypothesis PBT: generated tables, inspected matplotlib figures", "the Excel reader is replaced by a generated table (no reader is installed)")

prop("P26", "Results do not depend on what was computed before",
	"On one body shared by several vehicles, the result of a flight, a classification, a corridor search or a guided flight depends on the vehicle, entry state and settings in force only, not on the operations before it. "
	"Flights, classification and corridor searches leave vehicle, entry state, settings and the body's density model as they were "
	"(after a guided flight the entry state must be set again; drag-modulation operations leave the ballistic coefficient of their last flight).",
	IH, "every sequence of operations on two vehicles at one body",
	"Each test performs one operation on a new object.",
	[V, PL], [("propogateEntry, corridor searches, guided flights", V + ":propogateEntry"), ("temporary settings in the corridor searches", V + ":findOverShootLimit")],
	"Hypothesis stateful PBT: operation sequences against a model built of fresh objects", "sequences of up to seven operations; agreement to 1e-9")

prop("P27", "Plots of flights and atmospheres",
	"The entry plots show altitude, speed, deceleration and heating rate of the last flight against time, the q plot dynamic pressure against altitude of the flight asked for, "
	"the atmosphere check plots temperature, pressure, density and sound speed of the loaded model against altitude over the requested range; units are those of the axis labels and plotting changes nothing.",
	INPUTS, "every flight, body, altitude limit and spacing",
	"No test calls a plotting function.",
	[V, PL], [("makeBasicEntryPlots, createQPlot", V + ":makeBasicEntryPlots"), ("checkAtmProfiles", PL + ":checkAtmProfiles")],
	"Hypothesis PBT: inspected matplotlib figures against the flight and the reference table", "figures are inspected, not shown")

prop("P28", "Computations leave arguments and objects alone and treat arrays elementwise",
	"A function that returns its answer does not alter the arrays, lists or density functions it is given, the settings of the body, vehicle, approach, orbiter, link or launcher it is called on, or an answer returned before. "
	"Asked again with the same arguments, after any other computations or changes of the atmosphere, nose radius, skip altitude or vehicle, it answers as new objects with the settings then in force do. "
	"Given arrays, each element of the answer is the answer for that element alone.",
	IH, "every sequence of computations and changes of settings on two sets of objects, and every array length",
	"Each test calls a function once, with fixed scalars or one fixed array.",
	[V, PL, "AMAT/approach.py", "AMAT/orbiter.py", "AMAT/telecom.py", "AMAT/launcher.py"],
	[("vehicle computations (drag, heating, forces, orbit elements, trajectory solvers)", V + ":Dvectorized"), ("body model lookups", PL + ":density"), ("approach and orbit geometry", "AMAT/approach.py:R1"),
	("link data volume and launch mass", "AMAT/telecom.py:compute_data_volume")],
	"Hypothesis stateful PBT: call sequences against a model built of fresh objects; vectorised against scalar answers", "only public settings are compared; agreement to 1e-12 (histories) and 1e-9 (arrays)")
