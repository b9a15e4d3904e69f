"""Writes properties.jsonl and MANIFEST.json from the table below (one place to edit)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
B = "deltares_coastal_structures_toolbox/functions/"
HY, ST = B + "hydraulic/", B + "structural/"
TESTS = "The tests evaluate each function at a handful of fixed argument tuples; "

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs", "configurations")):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


prop("C01", "Overtopping discharge and required crest freeboard are inverse to each other",
     "For every overtopping method that offers both directions, the discharge computed for the crest freeboard that was computed for a discharge is that discharge again, and the other way round, with the same other inputs and options. "
     "This holds in the breaking and in the maximum (non-breaking) regime, for design and best-fit coefficients, for given or computed influence factors, and for single and composite slopes. "
     "Outside the statement: discharges so large that no real positive freeboard exists, and the 2025 method with wind.",
     "all wave heights, periods, slopes, discharges or freeboards, influence factors, angles, g and options in the stated boxes, for TAW 2002, EurOtop 2007 and 2018 (general and rubble mound), caissons (2021), De Ridder 2024/2026 and Van Gent 2025",
     TESTS + "the round trip is tested for a few tuples, never for all regimes, options and influence-factor routes.",
     [HY + "wave_overtopping/"],
     [("discharge functions", HY + "wave_overtopping/*.py calculate_overtopping_discharge_q*"), ("freeboard functions", HY + "wave_overtopping/*.py calculate_crest_freeboard_*")])
prop("C02", "Structural design formulas solved for different unknowns agree with each other",
     "Where a stability method can be solved for damage, stone or unit size (diameter or mass), wave height, toe depth, slope or freeboard, solving for one quantity and substituting the result in the function for another returns the starting value. "
     "It holds in every regime of the formula, for all densities and for the optional coefficients. "
     "Rear-side (2007) and toe (2014) diameters use rounded published coefficients and agree with their damage formula to 2 percent.",
     "all wave, structure, density and coefficient values in the stated boxes, for rock armour, rear side, toe, concrete armour and the shared conversions (mass/diameter, damage number/number of units)",
     TESTS + "forward and backward values are checked at the same few points and rarely in each regime.",
     [ST, B + "core_physics.py"],
     [("solved-for functions", ST + "*/*.py calculate_damage_number_*, calculate_nominal_rock_diameter_Dn50, calculate_significant_wave_height_Hs, calculate_unit_mass_M, ..."), ("conversions", B + "core_physics.py")])
prop("C03", "Run-up and overtopping functions compute their published equations",
     "Wave run-up heights, overtopping discharges, required freeboards, the influence factors (berm, roughness, oblique waves, wall, parapet, crest, swell, wind) and the flag telling that the maximum equation governed equal the published equation of the method for every input. "
     "The right branch, coefficient set, characteristic wave height and period and factor are used for every combination of options.",
     "all wave conditions, geometries, influence factors and options in the stated boxes for TAW 2002, EurOtop 2007/2018, Van Gent 2001/2021/2025, De Ridder 2024/2026",
     TESTS + "combinations of options, oblique angles, berm levels and regimes are mostly not sampled.",
     [HY + "wave_runup/", HY + "wave_overtopping/"],
     [("run-up", HY + "wave_runup/*.py"), ("overtopping", HY + "wave_overtopping/*.py")])
prop("C04", "Transmission, set-up and shared physics compute their published equations",
     "Wave transmission coefficients, structure-induced set-up and the shared quantities (steepness, breaker parameter and its critical value, stability number, buoyant density, mass and diameter, damage conversions, local wave length) equal their published equations for every input, structure type and optional coefficient. "
     "Branches and upper and lower limits are applied where the publication prescribes them, and an unknown structure type is an error.",
     "all wave conditions, crest levels and widths, slopes, depths, densities and options in the stated boxes",
     TESTS + "limits, regime switches and optional coefficients are sampled at few points.",
     [HY + "wave_transmission/", B + "core_physics.py"],
     [("transmission", HY + "wave_transmission/*.py"), ("shared physics", B + "core_physics.py")])
prop("C05", "Rock armour and rear-side formulas compute their published equations",
     "Damage numbers, rock sizes and wave heights for front-side rock armour (Hudson, Van der Meer 1988, modified and 2021, Etemad-Shahidi, Jumelet, Kramer-Burcharth, Scaravaglione) and for the rear side (Van Gent 2007, Van Gent and Pozueta 2004) equal or satisfy the published stability equation for every input. "
     "Plunging or surging is selected as published, size may be given as diameter or as mass, and storm duration, damage-level and permeability corrections are applied over their whole range.",
     "all wave conditions, slopes, permeabilities, storm durations, densities, damage levels, sizes and coefficients in the stated boxes",
     TESTS + "regime boundaries, mass inputs, long storms and optional coefficients are sampled at few points.",
     [ST + "stability_rock_armour/", ST + "stability_rock_rear/"],
     [("front side", ST + "stability_rock_armour/*.py"), ("rear side", ST + "stability_rock_rear/*.py")])
prop("C06", "Toe and concrete armour formulas compute their published equations",
     "Toe-berm damage, sizes, wave heights and depths, and concrete-armour stability numbers, unit masses, diameters, wave heights, slopes and correction factors equal or satisfy their published equations for every input. "
     "Tabulated stability coefficients are those of the given damage level, armour unit and breaking condition, and correction factors follow their published thresholds.",
     "all wave conditions, depths, slopes, densities, unit sizes, damage levels and option flags in the stated boxes",
     TESTS + "table entries, thresholds and combinations of correction conditions are only sampled.",
     [ST + "stability_toe_berm/", ST + "stability_concrete_armour/"],
     [("toe", ST + "stability_toe_berm/*.py"), ("concrete armour", ST + "stability_concrete_armour/*.py")])
prop("C07", "Wave forces on caissons and crest walls compute their published equations",
     "Pressures, forces, moments, weight, effective weight, lever, bearing pressure, safety factors and the impulsive-breaking flag of the Goda caisson method, and perpendicular and oblique 2% and 0.1% forces on crest walls, equal their published equations for every input, including oblique waves, low and high crests, low mounds and both bearing-pressure regimes. "
     "The tuple and dictionary forms of the caisson results agree. "
     "Omitting an optional input means its documented default.",
     "all wave conditions, depths, geometries, densities, friction factors and options in the stated boxes",
     TESTS + "the many intermediate quantities are tested at one or two geometries.",
     [ST + "forces_caisson/goda1985.py", ST + "forces_crestwall/vangentvanderwerf2019.py"],
     [("caisson", ST + "forces_caisson/goda1985.py"), ("crest wall", ST + "forces_crestwall/vangentvanderwerf2019.py")])
prop("C08", "A validity warning is issued exactly when a parameter is outside its range",
     "Each method's validity check warns about a parameter if and only if the parameter lies outside the range documented for the method, the limits themselves counting as inside, for scalars and for each element of an array. "
     "The warning names the parameter and its limits, and a parameter that was not given is not judged.",
     "all values of every judged parameter, each method that has a validity range, any subset of given parameters in the stated harnesses",
     TESTS + "warnings are hardly tested at all.",
     [B + "core_utility.py", HY, ST],
     [("shared range check", B + "core_utility.py"), ("per-method limits", "check_validity_range functions of all modules")])
prop("C09", "Calculations judge validity on the quantities used; results ignore the verdict",
     "Every calculation function that has a validity range judges the values it was given or computed (also those derived from its inputs) and warns when they are outside. "
     "The numerical result is the same whether or not a warning is issued, and no warning is turned into an error.",
     "all inputs in the stated boxes, inside and outside the validity ranges",
     TESTS + "tests ignore the warnings.",
     [HY, ST, B + "core_utility.py"],
     [("calls of the validity checks", "calculate_* functions of all modules")])
prop("C10", "Run-up, overtopping and transmission respond monotonically to their inputs",
     "A higher crest never increases overtopping or transmission, and a larger allowed discharge never requires a higher crest. A higher wave never decreases run-up, overtopping or the required (positive) freeboard; longer waves or a steeper slope never decrease the run-up and overtopping of the run-up based methods. "
     "Stronger reduction by roughness, berm, wall or oblique waves never increases run-up, overtopping or required freeboard, and a wider crest never increases transmission. This includes the switches between regimes: no step in the wrong direction where a formula changes branch.",
     "all pairs of inputs that differ in one argument, all other arguments and options in the stated boxes",
     TESTS + "tests compare single pairs of values per function.",
     [HY],
     [("formulas", HY + "*/*.py")])
prop("C11", "Armour, toe and force results respond monotonically to their inputs",
     "A larger wave (the 2% wave where it is a separate input) never decreases damage, required stone or unit mass or crest-wall force; a larger, heavier or denser stone never increases damage and never lowers the wave it withstands; a larger accepted damage or stability coefficient never increases the required size; a deeper toe never needs a larger toe stone. "
     "Longer storms never decrease damage or required size within a storm-duration regime, and a higher armour crest in front of a crest wall, a flatter slope or more oblique waves never increase the horizontal force on it.",
     "all pairs of inputs that differ in one argument, all other arguments and options in the stated boxes",
     TESTS + "tests compare single pairs of values per function.",
     [ST],
     [("formulas", ST + "*/*.py")])
prop("C12", "Results stay within their physical and published bounds",
     "Transmission coefficients stay between their lower and upper limit, influence factors for berms, roughness, oblique waves and crest walls stay between their published limits, overtopping and run-up never exceed the maximum (non-breaking) equation, and sizes, masses, damage numbers, discharges, run-up heights, set-up and forces are finite and non-negative for physical inputs. "
     "Crest-wall forces never become negative. Outside the statement: required freeboards (negative for very large discharges) and inverses with no physical solution.",
     "all physical inputs in the stated boxes",
     TESTS + "no test looks at bounds over a range.",
     [HY, ST],
     [("clips and minima", HY + "*/*.py, " + ST + "*/*.py")])
prop("C13", "Results scale with the size of the structure (Froude similarity)",
     "When all lengths are multiplied by a factor, all times by its square root and all masses by its cube, computed lengths scale with the factor, discharges per metre with its power 1.5, forces per metre with its square, masses with its cube, and dimensionless results do not change. "
     "Excepted are methods with dimensional constants in their published form.",
     "all inputs in the stated boxes and all scale factors between 0.2 and 5",
     TESTS + "no test relates results at two scales.",
     [HY, ST, B + "core_physics.py"],
     [("dimensionless formulations", HY + "*/*.py, " + ST + "*/*.py")])
prop("C14", "Alternative ways of giving an input are equivalent; missing input is an error",
     "Giving a rock mass instead of the matching diameter (armour and core), an angle of wave incidence instead of the matching influence factor, a stone size or berm instead of the matching factor, or two equal partial slopes without berm instead of a single slope gives the same result; a given influence factor takes precedence over an angle. "
     "Leaving out both alternatives of a required input, giving both run-up wave heights, or naming an unknown rock, structure or exponent is an error (or nan), never a silent number.",
     "all inputs in the stated boxes, all combinations of alternative inputs in the stated harnesses",
     TESTS + "alternative routes are tested separately at single points, errors for one combination.",
     [B + "core_physics.py", HY + "wave_runup/taw2002.py", HY, ST],
     [("alternative inputs", B + "core_physics.py check_usage_*, " + HY + "wave_runup/taw2002.py check_*")])
prop("C15", "Iterative solutions stop, and the value they return solves the equation",
     "Every iterative calculation stops at its iteration limit at the latest, applies exactly the published fixed-point step, and returns the last iterate; when it stops before the limit, consecutive iterates differ by no more than the tolerance. "
     "Reaching the limit without convergence is reported where the method has a warning for it, and starting values, tolerances and limits given by the user are honoured.",
     "all inputs, starting values, tolerances and iteration limits up to the stated unrolling bound",
     TESTS + "tests only see iterations that converge at fixed inputs.",
     [HY + "wave_runup/taw2002.py", HY + "wave_runup/eurotop2018.py", ST + "stability_rock_armour/", ST + "stability_rock_rear/", ST + "stability_toe_berm/", ST + "stability_concrete_armour/"],
     [("iteration loops", "iteration_procedure_*, calculate_nominal_rock_diameter_Dn50, calculate_significant_wave_height_Hs, ...")])
prop("C16", "Array input gives the scalar result for every element and is not modified",
     "Calling a function with arrays gives, element by element, what the scalar call gives for that element, whatever the other elements are and however regimes differ between elements. "
     "The arrays and other arguments passed in are left unchanged.",
     "all pairs of elements in the stated boxes (arrays of two elements), for the functions documented to accept arrays",
     TESTS + "array input is tested for few functions and with elements in the same regime.",
     [HY, ST, B + "core_utility.py", B + "core_physics.py"],
     [("elementwise selection", "np.where / np.min / np.vectorize in all modules")])
prop("C17", "Formulas that switch regime meet at the switch",
     "At the parameter value where a method switches between two published branches that are meant to join (breaking/non-breaking run-up, plunging/surging armour stability, caps on influence factors and transmission), both branches give the same value, so that a small change of input never makes the result jump.",
     "all inputs in the stated boxes lying on a regime boundary and all small steps across it",
     TESTS + "no test evaluates both sides of a boundary.",
     [HY, ST],
     [("regime switches", HY + "*/*.py, " + ST + "*/*.py")])
prop("C18", "The caisson calculation is in equilibrium and internally consistent",
     "Horizontal force, uplift and moments of the caisson method equal the integrals and first moments of the pressure diagram they belong to, and the bearing pressure diagram carries exactly the effective weight and moment, without a jump between its triangular and trapezoidal form. "
     "Pressures and forces are non-negative, uplift pressure never exceeds the front pressure at the bottom, waves from either side give equal loads, a wall above the run-up level takes no more load, loads scale with the specific weight of water, and the safety factors equal one exactly at the limit weight and grow with the weight.",
     "all wave conditions, geometries, densities, friction and safety factors in the stated boxes",
     TESTS + "tests use one geometry.",
     [ST + "forces_caisson/goda1985.py"],
     [("forces and moments", ST + "forces_caisson/goda1985.py")])
prop("C19", "Options and coefficients given by the user are honoured",
     "A given coefficient, gravity, water density or best-fit/design switch takes effect in the result as the published equation says, also where the result is found through a composite slope or an inverse function; giving an option at its published default equals leaving it out; the best-fit switch takes the best-fit coefficients whatever else is given; and the design choice never gives less run-up, overtopping or crest height than the best fit. "
     "The number of standard deviations around the best fit shifts the result monotonically and is ignored by the design formula.",
     "all inputs and coefficient values in the stated boxes",
     TESTS + "optional arguments are almost never varied.",
     [HY, ST],
     [("optional arguments", HY + "*/*.py, " + ST + "*/*.py")])
prop("C20", "Neural-network and gradient-boosting input files carry every value in its column",
     "The input files written for the external overtopping models contain, for every case, each given value in the column the external program expects, in the right order, unit and sign, one line per case in the order given. "
     "The file is written in the requested directory under the requested name and replaces an earlier file of that name; one number for all cases is repeated on every line.",
     "all values of all columns, scalars and arrays of two cases",
     TESTS + "the writers are tested with one case each.",
     [HY + "wave_overtopping/vangent2007.py", HY + "wave_overtopping/denbieman2021.py"],
     [("writers", HY + "wave_overtopping/vangent2007.py, denbieman2021.py")])

NA = {}
NOTE = ("Bounded symbolic model checking: for every obligation all paths of the real functions (regenerated from /repo's current source) are explored with symbolic real inputs "
        "over the boxes listed in the evidence file, and every assertion is refuted by an SMT solver. Trusted: the numpy/python shim in vt/shim.py (cross-checked on every path against the "
        "unpatched code), exact-real reading of floats, the solvers. A violation is only reported after it was reproduced on the unpatched code.")


def main():
    from vt import reg
    have = {}
    for o in reg.load_all().values():
        have.setdefault(o.prop, []).append(o)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] in have or p["id"] in NA:
                assert len(p["title"]) <= 80, p["title"]
                f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        if i in have:
            checks.append(dict(
                property=i, quick_cmd="python3-vt vt/check.py %s --tier quick" % i, thorough_cmd="python3-vt vt/check.py %s --tier thorough" % i,
                evidence_file="evidence/%s.json" % i, technique="symbolic execution of the real Python source + SMT (z3 QF_LRA with incremental linearisation, QF_NRA)",
                level="model_checking", level_note=NOTE))
    man = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy' && /opt/venv/bin/python -c 'import numpy, pandas'",
               checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes="All checks read /repo's working tree directly (VT_REPO overrides it for experiments); no hooks in /repo are needed. See DESIGN.md.")
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", sum(map(len, have.values())), "obligations")


main()
