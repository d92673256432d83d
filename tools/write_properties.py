#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

D, G, C, F, L = "src/detail.rs", "src/gerg2008.rs", "src/composition.rs", "src/ffi.rs", "src/lib.rs"

prop("C01", "AGA8 DETAIL outputs are those of the published equation of state",
 """For every accepted gas composition, every temperature and every positive molar density (above 1e-15 mol/l, up to which it counts as zero), the DETAIL pressure and every
 DETAIL output property (Z, dP/dD, d2P/dD2, dP/dT, u, h, s, cv, cp, speed of sound, g, Joule-Thomson coefficient,
 isentropic exponent, molar mass) equal the values of the AGA Report No. 8 Part 1 (2017) DETAIL Helmholtz-energy equation, up to
 floating-point rounding.""",
 ["inputs"], "all 21-component compositions (pure, binary, sparse, trace, full, sums off by <1 %), T from 60 K to 2000 K, densities from 1e-7 to 3.2 times critical",
 """The repository's tests compare one 21-component state point (400 K, 50 MPa) and a second gas: a wrong coefficient or term that only matters for
 a pair of components, a flag of one fluid, or away from that state is invisible to them.""",
 [D], [("composition terms", D+" x_terms"), ("residual Helmholtz energy", D+" alphar"), ("ideal-gas Helmholtz energy", D+" alpha0_detail"), ("derived properties", D+" properties, pressure"), ("coefficient tables and pair parameters", D+" new/setup")],
 ["public fields of Detail after properties()", "return value of pressure()"])

prop("C02", "GERG-2008 outputs are those of the published equation of state",
 """For every accepted gas composition, every temperature and every positive molar density (above 1e-15 mol/l, up to which it counts as zero), the GERG-2008 pressure and every
 GERG output property (Z, dP/dD, d2P/dD2, d2P/dTdD, dP/dT, u, h, s, cv, cp, speed of sound, g, Joule-Thomson coefficient,
 isentropic exponent, molar mass) equal the values of the GERG-2008 Helmholtz-energy equation, up to
 floating-point rounding (fractions up to about 1e-15 may be left out of account).""",
 ["inputs"], "all 21-component compositions, T from 60 K to 2000 K, densities from 1e-7 to 3.2 times critical",
 """The tests look at one 21-component state point; 210 binary pairs with their own reducing parameters, 15 departure functions and 21 pure-fluid equations each
 contribute too little there, or nothing at other states.""",
 [G], [("reducing density and temperature", G+" reducingparameters"), ("pure-fluid and departure terms", G+" alphar, tterms"), ("ideal-gas terms", G+" alpha0"), ("derived properties", G+" properties, pressure")],
 ["public fields of Gerg2008 after properties()", "return values of pressure() and properties()"])

prop("C03", "Output properties are thermodynamically consistent with one another",
 """At every state of either model the reported outputs satisfy the exact thermodynamic relations: P=ZDRT, h=u+P/D, g=h-Ts, cp-cv=T(dP/dT)^2/(D^2 dP/dD),
 the definitions of speed of sound, isentropic exponent and Joule-Thomson coefficient in terms of the other outputs. The reported derivatives are the derivatives
 of the reported functions: dP/dD, d2P/dD2 and dP/dT of the pressure (and d2P/dTdD for GERG), cv=(du/dT)_D, (ds/dT)_D=cv/T, (du/dD)_T=(P-T dP/dT)/D^2 and (ds/dD)_T=-(dP/dT)/D^2.""",
 ["inputs"], "all compositions, T and D of both models; relations between several calls of the same model",
 """A relation between outputs at neighbouring states is never sampled by tests that compare single numbers at single states.""",
 [D, G], [("properties()", D+" properties"), ("properties()", G+" properties"), ("derivative bookkeeping ar[i][j]", D+" and "+G+" alphar")],
 ["public output fields at a state and at nearby states"])

prop("C04", "A successful density calculation reproduces the requested pressure",
 """Whenever a density calculation of either model reports success, for any composition, temperature, positive pressure, phase flag and initial guess, the density it leaves
 is finite and positive, the pressure of the same model at that density equals the requested pressure to convergence accuracy (1e-7 in density), and the state is mechanically stable (dP/dD > 0).""",
 ["inputs"], "all compositions x T x P (1e-13 kPa to 1e7 kPa, one and two phase) x phase flag x initial density guess",
 """Tests solve a handful of supercritical pressures; wrong acceptance of an iterate shows near saturation, at extreme pressures or after restarts only.""",
 [D, G], [("Newton iteration in log P/log v with convergence test", D+" density"), ("Newton iteration with restarts", G+" density")],
 ["result of density(), field d, pressure() at d"])

prop("C05", "A failed density calculation is reported and leaves the documented density",
 """A density calculation that cannot find a root reports an iteration failure and leaves exactly the ideal-gas density P/(RT) of the model; at zero pressure it reports
 that the pressure is too low and leaves density zero. Success is never reported together with a density that is not finite and positive, whatever the inputs (including negative, NaN or infinite pressure,
 temperature or guess), and a failure never alters the pressure, temperature or composition that were set.""",
 ["inputs"], "failing inputs: unphysical and non-finite P, T, guesses, two-phase states without convergence, pressures beyond the model's reach, every phase flag",
 """One test triggers one failure; the failure paths (range exit, iteration limit, restart exhaustion, phase-flag rejection) depend on the input.""",
 [D, G, L], [("failure exits", D+" density"), ("failure exits", G+" density"), ("error enum", L+" DensityError")],
 ["result of density() and fields d, p, t"])

prop("C06", "Supercritical density calculations always succeed with the unique root",
 """Where a model's isotherm has a single density for every pressure (pressure clearly increasing with density up to five critical densities, 130 K to 2000 K; for DETAIL additionally at or above 1.3 times the critical temperature of every
 component present, or for pipeline-quality gas from 250 K), the density calculation succeeds for every positive pressure up to 70 MPa and returns that root. Along such an isotherm the returned density strictly increases with pressure.""",
 ["inputs"], "all compositions x T above the critical region x pressures whose root lies between 1e-14 and 3 critical densities, up to 70 MPa",
 """Success has to be shown for every state of a continuum; the tests solve a few states of two gases.""",
 [D, G], [("ideal-gas starting estimate and Newton iteration", D+" density"), ("restarts", G+" density")],
 ["result of density(), field d"])

prop("C07", "GERG phase flags and initial density guesses select the documented root",
 """With flag 1 or 2 a GERG density calculation succeeds only at states where pressure, dP/dD, d2P/dTdD, cv, cp and speed of sound are all positive, and it agrees with flag 0 whenever
 the flag-0 result passes those checks from the same start. Without a guess, flags 0 and 1 start from the ideal gas, and so return the vapour root well below the vapour spinodal pressure, while flag 2 starts from three times the pseudo-critical density and
 returns the liquid root where that start leads to it directly. A negative density set beforehand is used (by both models) as the starting estimate, and converges to the root it is close to when it lies on the same branch; a non-negative one has no influence.""",
 ["inputs"], "subcritical and supercritical states x flags x guesses (negative, zero, positive)",
 """No test uses a flag other than 0 or a starting guess.""",
 [G, D], [("start selection and post-checks", G+" density"), ("start selection", D+" density"), ("pseudo-critical point", G+" pseudocriticalpoint")],
 ["result of density(flag), field d"])

prop("C08", "Results do not depend on what the instance computed before",
 """Whatever sequence of valid or invalid settings and calculations an instance has been through, every calculation gives the same result as on a newly created instance
 with the same composition, temperature, pressure and density. This includes changes of composition or temperature of any size, one component at a time, and earlier failures or NaN inputs.""",
 ["histories"], "sequences of set composition (also by writing the public fraction field) / nudge composition / set or nudge T, P, D / density / pressure / properties / molar mass calls on one instance",
 """Tests use a new instance per test, so the caches of composition-, temperature- and reducing terms are exercised with one key only.""",
 [D, G], [("composition cache", D+" x_terms (xold)"), ("temperature cache", D+" alphar (told)"), ("composition and temperature caches", G+" reducingparameters, tterms, pseudocriticalpoint")],
 ["every output after every calculation"],
 [dict(name="xold, told, trold2, drold, dcx/tcx caches", meaning="keys and values of cached terms", where=D+", "+G)])

prop("C09", "Composition validation is exact and rejection is atomic",
 """A composition is accepted exactly when its fractions sum to one within 0.01; a sum that is zero (magnitude below 1e-10) is reported as empty and any other sum, NaN included, as a bad sum. Both models apply
 this verdict when a composition is set, and a rejected composition leaves the model computing exactly what it would have computed without the attempt.""",
 ["inputs", "histories"], "arbitrary 21-tuples of doubles, concentrated around the acceptance limits, in sequences of accepted and rejected settings",
 """The tests check one empty and one bad composition and never use the model after a rejection.""",
 [C, D, G], [("check", C+" check"), ("check before assignment", D+" set_composition"), ("check before assignment", G+" set_composition")],
 ["result of check() and set_composition(), subsequent outputs"])

prop("C10", "Each named component means its own substance everywhere",
 """Every one of the 21 named fractions of a composition counts once in its sum and is passed, through the Rust and C interfaces and to both models, to the parameters of that substance:
 molar mass and equation-of-state results respond to a named fraction exactly as the model equations do for that substance (fractions up to about 1e-15 may be left out of account). Molar mass is the mole-fraction-weighted sum of the substances' molar masses.""",
 ["inputs"], "all compositions, including pure fluids and mixtures in which every fraction differs",
 """A swap of two similar components changes the single tested mixture little or not at all when the swap is confined to one model or interface.""",
 [C, D, G, F], [("named field to index mapping", D+" set_composition"), ("named field to index mapping", G+" set_composition"), ("sum", C+" sum"), ("molar mass", D+"/"+G+" molar_mass")],
 ["molar_mass(), pressure(), properties(), Composition::sum(), aga8_/gerg_ functions"])

prop("C11", "Normalisation scales to one, keeps proportions, and fails cleanly",
 """Normalising a composition of non-negative finite fractions with a positive sum makes the sum one within rounding, keeps every ratio between fractions, yields a composition that validates, and normalising again changes nothing beyond rounding.
 When the sum cannot be scaled (zero, NaN, infinite, or so small that its reciprocal overflows) an error is returned (Empty for a zero sum) and the composition is unchanged; that holds for negative entries too.""",
 ["inputs"], "all 21-tuples of doubles over the whole exponent range, including zero, subnormal, huge, NaN and infinite entries",
 """Tests normalise two simple mixtures and one empty one.""",
 [C], [("normalize", C+" normalize")], ["result and fields after normalize()"])

prop("C12", "Properties approach the ideal gas as density goes to zero",
 """For both models, at zero density and in the limit of vanishing density: Z=1, P=0, dP/dD=RT, cp-cv=R, h-u=RT, speed of sound and isentropic exponent are the ideal-gas values,
 and u, h, cv, cp are finite and equal to the limits from positive densities, wherever the gas is nearly ideal at those densities; at positive densities the entropy follows -R ln D. Ideal-gas u, h, cv, cp of a mixture are the mole-fraction averages of the pure components', entropy adds the ideal entropy of mixing, and each pure ideal gas has zero enthalpy and zero entropy at 298.15 K and 101.325 kPa (within 0.01 J/mol and 0.0001 J/(mol K), the rounding of the published constants).""",
 ["inputs"], "all compositions x T; density 0, below and above the zero-density threshold, down to 1e-12 mol/l",
 """No test evaluates zero or near-zero density, nor compares mixtures with pure components.""",
 [D, G], [("zero-density branch", D+" properties, alpha0_detail"), ("zero-density branch", G+" properties, alpha0")],
 ["public output fields at d = 0 and small d"])

prop("C13", "The C interface computes exactly what the Rust interface computes",
 """For every sequence of C-interface calls on a handle of either model, each getter, returned value, error code and every field of the returned property set equals what the Rust interface gives for the same sequence; the error output always reflects the latest call, success included.
 Freeing null does nothing, and any other call with a null handle ends in a controlled abort rather than a memory fault.""",
 ["histories"], "sequences of all aga8_* and gerg_* calls with valid and invalid arguments, including null handles",
 """The tests make one straight-line call sequence per model and check a few of the values.""",
 [F], [("wrappers", F+" detail"), ("wrappers", F+" gerg2008"), ("Properties", F+" Properties")],
 ["return values of the extern functions, error out-parameters"])

prop("C14", "The generated C header and library work together for C callers",
 """The header produced by the build compiles as C and C++, and a C program compiled against it and linked with the library gets, for all inputs, the same numbers and error codes as Rust callers:
 every struct member, enumerator and function argument named in the header means what the Rust item of that name means.""",
 ["inputs", "programs"], "C program driven over generated compositions, states and failing inputs, through the generated header, for both static and shared library",
 """No test compiles the header; the tests call the extern functions from Rust, where layout and enumerator values cannot disagree.""",
 ["build.rs", F, C, L], [("header generation", "build.rs"), ("repr(C) layout", F+" Properties, "+C+" Composition, CompositionError, "+L+" DensityError")],
 ["output of a compiled C program"])

prop("C15", "Instances are independent and calculations deterministic",
 """Any interleaving of operations on several instances of either model, on one thread or moved between or run on several threads, gives each instance exactly the results it gets when run alone, and repeating a calculation on an unchanged state gives bit-identical results.""",
 ["schedules", "histories"], "interleavings of operation sequences on 2-6 instances of both models, single- and multi-threaded",
 """Tests run one instance each and compare nothing between instances.""",
 [D, G, F], [("all working state in the instance", D+" Detail"), ("all working state in the instance", G+" Gerg2008")], ["all outputs per instance"])

prop("C16", "No input makes a calculation panic, hang, or corrupt its instance",
 """For any sequence of calls with any double-precision values whatsoever as fractions (set through any interface, the public field included), temperature, pressure, density or guess, and any phase flag, every call of both models and of the C interface returns. Afterwards the same instance, given valid inputs,
 computes what a new instance computes.""",
 ["histories", "inputs"], "arbitrary bit patterns of f64 (NaN, infinities, subnormals, negative, huge) and i32 flags, in sequences",
 """Tests use ordinary values only.""",
 [D, G, C, F], [("bounded iterations", D+" density"), ("bounded iterations", G+" density"), ("fixed loops and array indexing", D+", "+G)], ["returning at all; outputs after recovery"])

prop("C17", "Outputs are continuous in composition, temperature and density",
 """Adding a vanishing amount of any component to a gas, or changing temperature, density or any fraction by a vanishing amount, changes every output of both models by a correspondingly vanishing amount; a component with fraction zero has no influence
 (fractions up to about 1e-15 may be left out of account). Well above the critical temperature the same holds for the calculated density as a function of pressure, temperature and composition.""",
 ["inputs"], "base gases x added component x amounts from 1e-12 to 1e-6; small steps in T, D, P over the whole range",
 """Single-state tests cannot see a jump at a threshold between two branches.""",
 [D, G], [("presence tests x > 0 / x > EPSILON", D+" x_terms; "+G+" reducingparameters, alphar, alpha0"), ("smooth equations", D+", "+G)], ["all outputs at neighbouring inputs"])

prop("C18", "DETAIL and GERG-2008 agree on pipeline-quality gas",
 """For natural gases of pipeline quality in the normal range of the standard (T 270 K to 350 K, P 10 kPa to 12 MPa, gas phase) the two models agree within a tolerance that grows with pressure. With f = max(0.2, P/12 MPa), doubled below 290 K: density and compressibility factor within 0.7 % f,
 speed of sound within 0.4 % f, cp and cv within 0.3 % + 1.5 % f, residual enthalpy within 0.03 f RT, Joule-Thomson coefficient times cp and density within 0.06 f, entropy within (0.001 + 0.02 f) R. Ideal-gas heat capacities agree within 1e-5 and molar masses within 1e-4, relative.""",
 ["inputs"], "pipeline-quality compositions x T 270-350 K x P 0.01-12 MPa",
 """The tests never compare the two models.""",
 [D, G], [("both equations", D+", "+G)], ["d, z, w, cp, h of both models"])

prop("C19", "Calculations update what they document and leave their inputs alone",
 """Setting the composition changes only the composition; a molar mass calculation changes only the molar mass; a pressure calculation returns the pressure and keeps temperature, density, pressure setting and composition; a density calculation keeps temperature, pressure and composition; a property calculation keeps temperature,
 density and composition (GERG-2008 returns the pressure and keeps the pressure setting, DETAIL stores the pressure). Properties calculated after any other calls depend only on temperature, density and composition, not on the pressure setting, and returned values equal the corresponding stored outputs.""",
 ["histories"], "operation sequences, all fields observed before and after each operation",
 """Tests read some output fields after one fixed call order and do not look at inputs afterwards.""",
 [D, G], [("field assignments", D+" properties, pressure, density, molar_mass"), ("field assignments", G+" properties, pressure, density, molar_mass")], ["all public fields before/after each call"])

prop("C20", "Handles and instances own their memory",
 """Creating, using and freeing handles of the C interface or instances of the Rust interface, in any order and any number at once, never grows memory: once everything is freed, repeating the same history needs no more memory than before.
 Live handles are distinct objects, freeing one leaves the others computing what they computed before, and freeing null changes nothing.""",
 ["histories"], "histories of create / use / free of several handles and instances of both models, with null frees in between",
 """The tests never look at memory; a leak or a freed neighbour shows only over a history.""",
 [F, D, G], [("aga8_new/aga8_free", F+" detail"), ("gerg_new/gerg_free", F+" gerg2008")], ["live allocations after freeing, results of the remaining handles"])

prop("C21", "Density and properties together obey the pressure-temperature relations",
 """Calculating a density from pressure and temperature and then the properties there, by either model, from any starting estimate, on a new or a used instance, gives functions of pressure and temperature which belong together along any one stable branch:
 (dh/dT)_P = cp, (ds/dT)_P = cp/T, (dg/dT)_P = -s, (dD/dT)_P = -(dP/dT)/(dP/dD), (dh/dP)_T = -(Joule-Thomson coefficient) cp, (ds/dP)_T = -(dV/dT)_P, (dg/dP)_T = 1/D, (dD/dP)_T = 1/(dP/dD), and the speed of sound is that of an isentropic change.
 (Relations hold for fractions summing to one; differences of neighbouring states resolve them to about 1e-7 where the density is well determined.)""",
 ["inputs", "histories"], "compositions x T x P of stable gas-like, liquid-like and supercritical states x starts x flags, each with twelve neighbouring states",
 """A relation between the solved densities and all outputs of neighbouring pressures and temperatures; tests solve isolated pressures of one gas and compare stored numbers.""",
 [D, G], [("density solver", D+" density"), ("density solver", G+" density"), ("outputs", D+" properties"), ("outputs", G+" properties")],
 ["fields d, h, s, g, cp, jt, dP/dD, dP/dT, w after density() and properties()"])

prop("C22", "Outputs for natural gas are physically sensible and monotone",
 """For natural gas (at least half methane; at most 30 % nitrogen, 15 % carbon dioxide, 12 % ethane, 5 % propane, 1 % of each butane, 0.3 % of each pentane, 0.15 % hexane, 0.1 % of the heavier ones together, 10 % hydrogen, 3 % carbon monoxide, 0.5 % each of hydrogen sulphide and helium, 0.2 % oxygen and argon) from 250 K to 450 K
 and 1 kPa to 30 MPa, density and properties of both models always succeed, and the outputs lie within the physical ranges of such gas: Z 0.35 to 1.2, (dP/dD)/(RT) 0.15 to 5, (dP/dT)/(RD) 1 to 5, cv 2.5 R to 6.5 R, cp 3.6 R to 25 R, cp/cv 1.15 to 5,
 speed of sound 245 m/s to 1000 m/s, isentropic exponent 1.12 to 13, Joule-Thomson coefficient -1 K/MPa to 12 K/MPa. With rising pressure at constant temperature, density, Gibbs energy and dP/dT rise and entropy falls; with rising temperature at constant pressure, density falls and enthalpy, internal energy and entropy rise.""",
 ["inputs"], "natural gas compositions x T 250-450 K x P 1 kPa-30 MPa x a second, higher pressure and temperature",
 """Tests look at two gases at isolated states; an implausible value or reversed trend elsewhere in the operating range is not sampled.""",
 [D, G], [("density then properties", D+" density, properties"), ("density then properties", G+" density, properties")],
 ["result of density(), all outputs after properties()"])

prop("C23", "Each named component has the physical constants of its substance",
 """For each of the 21 components as a pure gas, both models give the physical constants of the substance of that name, as reference books have them: the molar mass is that of its atoms (1e-4); the ideal-gas heat capacity is the known one at 298.15 K (0.2 %), follows the known temperature dependence from 300 K to 1000 K (2 %),
 and grows evenly along the n-alkanes and is alike for isomers from 250 K to 600 K (3 %, 5 %); the second virial coefficient follows the known corresponding-states correlation (times Pc/(R Tc): within 0.02 + 5 % for GERG-2008 at 0.7 to 4 times the critical temperature, within 0.06 + 20 % for DETAIL from 250 K to 600 K; hydrogen, water and helium excepted);
 and GERG-2008 has its critical point at the known temperature and density, with the known pressure (1 %) and a horizontal isotherm there (dP/dD below 0.005 RT).""",
 ["inputs"], "21 components x both models x T 100-1000 K",
 """Tests look at mixtures only; the physical identity of each of the 21 components at every temperature is not sampled.""",
 [D, G], [("component parameters, ideal-gas terms", D+" setup"), ("component parameters, ideal-gas terms", G+" setup"), ("MMIGERG, MMIDETAIL", D+", "+G)], ["mm, cp at zero density, z at low density, pressure and dP/dD at the critical point"])

prop("C24", "GERG-2008 gives the vapour-liquid equilibrium of pure substances",
 """For each of the 21 components from 0.7 to 0.985 of its critical temperature, the vapour and liquid states which GERG-2008 density calculations find (vapour without an estimate, flag 0 or 1; liquid with a liquid estimate) can be brought to equal Gibbs energy at one pressure (always between 0.85 and 0.97 of the critical temperature), which is the known
 vapour pressure of the substance (2 %; 4 % below 0.75). There the liquid is denser and the vapour less dense than the critical density, the enthalpy of evaporation equals T times the entropy of evaporation, which is positive, and the vapour pressure's slope with temperature is the entropy of evaporation over the change of volume (Clausius-Clapeyron, 1e-5).""",
 ["inputs"], "21 components x reduced temperature 0.7-0.985 x phase flag",
 """No test calculates a liquid or a saturated state.""",
 [G], [("density solver", G+" density"), ("outputs", G+" properties")], ["result of density(); d, g, h, s of both phases; pressure of equal Gibbs energy"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
