#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json.  python3 tools/catalog.py"""
import json
import os

V = "AMAT/vehicle.py"
PL = "AMAT/planet.py"
INPUTS = ["inputs"]
IC = ["inputs", "configurations"]
IH = ["inputs", "histories"]

P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
	assert len(title) <= 80, title
	P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
				anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


prop("P01", "Body constants and non-dimensional states",
	"Each supported body carries its published radius, gravity parameter, spin, harmonics, pole and atmosphere limits, with reference scales derived from them; "
	"an unknown body identifier is refused. Scaling a state to non-dimensional units divides lengths by the radius and speeds by the surface circular-orbit scale, leaves angles alone, "
	"and is inverted by multiplying back.",
	IC, "every body, every invalid identifier, every scalar or array state",
	"The tests read a few constants of a few bodies and one state; derived scales for all eight bodies and arbitrary states are not reached.",
	[PL], [("Planet constructor and reference scales", PL + ":Planet.__init__"), ("nonDimState", PL + ":nonDimState")],
	"Hypothesis PBT against an independent constant table and scaling relations", "generated bodies/identifiers/states; constants are compared with an independently typed table")

prop("P02", "Atmosphere model follows its lookup table",
	"A loaded atmosphere reproduces its table: temperature, pressure and density at the tabulated heights (in metres or kilometres, any row order and column layout) are exact and in between follow the requested interpolation; "
	"sound speed and scale height are consistent with them. Above the model's ceiling density is zero, below the surface it is the surface density, and scalar and array queries agree.",
	IC, "every table, interpolation type, column layout and query altitude",
	"The tests query one altitude of one table.",
	[PL], [("loadAtmosphereModel and density/temperature/pressure/sonic queries", PL + ":loadAtmosphereModel"), ("scaleHeight", PL + ":scaleHeight")],
	"Hypothesis PBT, differential against an independent table reader and interpolator", "generated and shipped tables; trusts scipy splines in the oracle")

prop("P03", "Monte Carlo density profiles",
	"Selecting a perturbed atmosphere from a dispersion file returns the density mean plus the requested number of sigmas times the one-sided deviation of exactly the chosen profile, "
	"at that profile's heights; zero sigmas gives the mean profile. The resulting model is an interpolant of those points and is zero outside them.",
	IC, "every dispersion file, profile index and sigma of either sign",
	"The tests load one profile and look at its shape.",
	[PL], [("loadMonteCarloDensityFile2/3/4/5, interpolators", PL + ":loadMonteCarloDensityFile")],
	"Hypothesis PBT, differential against an independent file reader", "generated and shipped files")

prop("P04", "Aerodynamic forces",
	"Drag and lift accelerations are dynamic pressure times area times coefficient over mass, with the drag coefficient implied by the ballistic coefficient (or given by the user as a function of Mach) and lift coefficient L/D times it; "
	"the tangential, normal and lateral accelerations are minus drag, and lift resolved by the bank angle. Scalar, array and non-dimensional forms agree.",
	IC, "every body, vehicle, state in the atmosphere and bank angle",
	"The tests sample one vehicle at one state.",
	[V], [("L, D, a_s, a_n, a_w and their vectorised and non-dimensional forms", V + ":L"), ("CD(Mach)", V + ":setCDMachFunction")],
	"Hypothesis PBT, differential against closed-form reference", "generated vehicles and states on the shipped atmospheres")

prop("P05", "Stagnation-point heating",
	"Convective and radiative stagnation heating follow the body's published correlation in density, speed and nose radius; they are never negative, the total is their sum, "
	"and a body with no radiative correlation has none. For a list of nose radii each row is the heating for that radius, leaving the vehicle's own radius as it was.",
	INPUTS, "every body, nose radius and flight state",
	"The tests sample one state per body at most.",
	[V], [("qStagConvective, qStagRadiative, qStagTotal", V + ":qStagConvective"), ("computeHeatingForMultipleRN", V + ":computeHeatingForMultipleRN")],
	"Hypothesis PBT, differential against independently typed correlations", "generated states over all bodies")

prop("P06", "Equations of motion over a rotating oblate planet",
	"The state derivative equals that of a point mass in the planet-fixed frame under J2/J3 gravity, Coriolis and centrifugal acceleration, drag and banked lift, "
	"for any body, position, heading, flight-path angle and bank; both integrator front ends use the same derivative. The only departure allowed is the small regularisation of the heading rate near vertical flight.",
	IC, "every body, vehicle, state and bank angle",
	"The tests never compare a derivative with an independent model.",
	[V], [("EOM, EOM2 and the gravity, Coriolis, centrifugal terms", V + ":EOM")],
	"Hypothesis PBT, differential against a Cartesian vector model of the dynamics", "independent Cartesian derivation; heading regularisation epsilon in [0, 0.01] accepted")

prop("P07", "Trajectory solvers return the prescribed motion",
	"Integrating an entry returns, on the requested time grid starting at the given state, the motion prescribed by the dynamics to the solver's tolerance, whichever of the two solvers is used; "
	"without an atmosphere energy and angular momentum are kept, and mirror-image or longitude-shifted entries give mirror-image or shifted flights.",
	IC, "every body, vehicle, entry state, bank angle, tolerance and time grid",
	"The tests compare a few recorded flights.",
	[V], [("solveTrajectory, solveTrajectory2", V + ":solveTrajectory")],
	"Hypothesis PBT, differential against an independent DOP853 Cartesian-derived integrator; conservation and symmetry relations", "reference integrator agreement within stated tolerances")

prop("P08", "Trajectory classification and truncation",
	"A flight is classified by its altitude history: if it climbs above the skip altitude and never goes underground it is a skip-out and is cut at the first sample above the skip altitude; "
	"otherwise, if it sinks below the trap altitude, it is a trap and is cut at the first sample below it; otherwise all of it is kept and it is flagged as neither. "
	"Truncated histories are exactly the prefix up to the cut for every quantity.",
	IH, "every altitude history and body",
	"The tests see only a few smooth flights.",
	[V], [("classifyTrajectory", V + ":classifyTrajectory"), ("truncateTrajectory", V + ":truncateTrajectory")],
	"Hypothesis PBT of generated histories against a reference classifier", "generated histories incl. hovering at limits")

prop("P09", "Loads and flow quantities along a flight",
	"Along any flight the reported net and drag deceleration in Earth g, dynamic pressure, stagnation pressure and temperature, Mach number and specific energy are those of the instantaneous state, "
	"and unit conversions are exact.",
	IH, "every body, vehicle, state history and bank angle",
	"The tests sample a few values for one vehicle.",
	[V], [("computeAccelerationLoad ... computeEnergy, convertToPlotUnits", V + ":computeAccelerationLoad")],
	"Hypothesis PBT, differential against closed-form flow relations", "generated histories on the shipped atmospheres")

prop("P10", "Propagating an entry end to end",
	"Propagating an entry records time, altitude, position, speed, heading, path angle, range, loads, heating and accumulated heat load of the prescribed flight from the given initial state up to the exit or impact cut, with consistent lengths and terminal values; "
	"continuing from an intermediate state continues the same flight. The vehicle's and planet's parameters are left as they were.",
	IH, "every body, vehicle, entry state, bank angle, time grid and split point",
	"The tests look at recorded end values of single flights.",
	[V], [("propogateEntry, propogateEntry2", V + ":propogateEntry"), ("propogateEntry_util, propogateEntry_util2", V + ":propogateEntry_util")],
	"Hypothesis PBT, differential against an independent end-to-end flight; chaining relation; side-effect invariant", "reference flight agreement within stated tolerances")

# ---- more properties are appended below this line
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog2.py")).read())


def main():
	root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
	have = {f[:3].upper() for f in os.listdir(os.path.join(root, "pbt", "props")) if f.startswith("p") and f[1:3].isdigit()}
	with open(os.path.join(root, "properties.jsonl"), "w") as fh:
		for p, _, _ in P:
			fh.write(json.dumps(p) + "\n")
	checks = []
	na = list(NA)
	for p, tech, note in P:
		i = p["id"]
		if i in have:
			checks.append(dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
							evidence_file="evidence/%s.json" % i, technique=tech, level="exploration", level_note=note))
		else:
			na.append(dict(property=i, reason="check not built yet"))
	with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
		json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy'", checks=checks, not_applicable=na,
					notes="No hooks: every check drives the public API of /repo's working tree directly. Known findings and fixes: known-findings.txt."), fh, indent=1)
		fh.write("\n")


main()
