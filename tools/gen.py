#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append((d, technique, note))
REF = "Exploration: millions of generated cases per run against an independent re-implementation of IAPWS-IF97 (own coefficient tables, arithmetic and derivatives, checked at start-up against the printed IAPWS verification values). Trusts that re-implementation, libm, and that the tolerance (stated in DESIGN.md) separates round-off from errors. "
prop("C01", "(p,t) thermodynamics of regions 1, 2 and 5 are the IF97 equations",
     "For every pressure and temperature in the liquid, vapour and high-temperature regions, pt returns the specific volume, density, enthalpy, entropy, internal energy, cp, cv and speed of sound that the IAPWS-IF97 basic equations of that region define. The agreement is to round-off (1e-9 relative to the property's natural scale), not to engineering accuracy.",
     ["inputs"], "every (p,t) with a region 1, 2 or 5 state, up to the edges and corners",
     "The tests compare a handful of printed table values; a wrong coefficient or term matters only in part of a region.",
     ["src/r1/", "src/r2/", "src/r5/", "src/algo/polynomial.rs", "src/algo/polynomial_steps.rs", "src/common/propertry_pairs.rs"],
     [("dimensionless Gibbs equations and their derivatives", "src/r1/region1_gfe.rs, src/r2/region2_gfe.rs, src/r5/region5_gfe.rs"), ("property formulas of a region", "src/r1/region1_pT.rs, src/r2/region2_pT.rs, src/r5/region5_pT.rs"), ("dispatch by property id", "src/common/propertry_pairs.rs")],
     ["pt(p,t,o_id)"], "property-based testing, differential against a reference model", REF)
prop("C02", "(p,t) thermodynamics of region 3 are the IF97 equations",
     "For every pressure and temperature in region 3, pt returns the volume of the published v(p,T) equation of the subregion the state is in, and the other properties that the IAPWS-IF97 Helmholtz equation has at that volume and temperature. The returned volume, put back into the Helmholtz equation, reproduces the pressure within the published accuracy of the subregion equation.",
     ["inputs"], "every (p,t) of region 3, in all 26 subregions and on every side of their boundary lines",
     "Twenty-six subregion equations with 19 boundary curves: tests touch two points each at best, none near a boundary.",
     ["src/r3/"], [("subregion selection", "src/r3/region3_v_subregion_pT.rs, src/r3/region3_v_pT.rs"), ("v(p,T) equations", "src/r3/"), ("Helmholtz equation and derivatives", "src/r3/region3_hfe.rs, src/r3/region3_Td.rs")],
     ["pt(p,t,o_id)"], "property-based testing, differential against a reference model", REF)
prop("C03", "Every (p,t) is assigned to the region IF97 defines, or refused",
     "For every pressure and temperature inside the range of validity, pt reports the one region the standard assigns to it (saturation band, B23 line and the isotherms 623.15, 863.15, 1073.15 K included), and for every point outside it reports an error value instead of a region or a property.",
     ["inputs"], "the whole (p,t) plane, boundaries approached from both sides down to one ulp, and everything outside",
     "Tests never sit on or next to a boundary and never go outside the range.",
     ["src/common/region.rs", "src/common/boundaries.rs", "src/common/constant.rs", "src/r4/region4_sat_pT.rs"],
     [("region decision", "src/common/region.rs"), ("B23 line", "src/common/boundaries.rs"), ("saturation line", "src/r4/region4_sat_pT.rs")],
     ["pt(p,t,OR)", "error values of pt"], "property-based testing, boundary-focused, differential against a reference model", REF)
prop("C04", "Saturation pressure and temperature are the IF97 line and mutually inverse",
     "For every temperature of the saturation line, the saturation pressure is that of the IF97 equation, increases strictly with temperature and does not depend on the quality; the saturation temperature of every pressure inverts it. Outside 273.15 K..Tc, and for pressures outside the line, an error value is returned.",
     ["inputs"], "every t in and around 0 degC..Tc, every p in and around psat(273.15 K)..pc, every quality",
     "Tests check three printed points of each equation; inversion, monotonicity and the ends are never checked.",
     ["src/r4/region4_sat_pT.rs", "src/r4/region4_pTx.rs", "src/rust_if97.rs"],
     [("saturation equations", "src/r4/region4_sat_pT.rs"), ("range checks", "src/rust_if97.rs")],
     ["px(p,x,OT)", "tx(t,x,OP)"], "property-based testing, round-trip and differential", REF)
prop("C05", "Saturated and wet-steam states from (p,x) and (t,x) obey the phase mixture rule",
     "At quality 0 and 1 every property equals that of the saturated liquid or vapour; in between, volume, enthalpy, entropy, energy and the potentials are the quality-weighted mean of the two phases and density is the reciprocal of that volume. (p,x) and (t,x) describe the same state, their own arguments are returned unchanged, and a property that wet steam does not have yields the invalid-property code.",
     ["inputs"], "every (p,x) and (t,x) with x in [0,1], including both ends, the 623.15 K interval limit and the near-critical subregions",
     "Tests check few table states; between them mixing formulas, near-critical saturation subregions and the x=0/1 special cases are unseen.",
     ["src/r4/region4_pTx.rs", "src/r3/", "src/rust_if97.rs"],
     [("mixing and saturated states", "src/r4/region4_pTx.rs"), ("saturated volumes above 623.15 K", "src/r3/region3_v_pT.rs")],
     ["px", "tx"], "property-based testing, differential and metamorphic (linearity in x, p/t agreement)", REF)
prop("C06", "(p,h) returns the state with that enthalpy",
     "For every valid state, entering its pressure and enthalpy returns the same region and a temperature that satisfies the IF97 backward equation (exactly the published polynomial, within its 25 mK/0.35 kJ/kg consistency with the state it came from; iterated to round-off above 1073.15 K); all other properties belong to that returned state. Enthalpies below the 273.15 K isotherm or above the hottest valid state are refused.",
     ["inputs"], "every (p,h) of the range of validity and around it, all regions and backward subregions",
     "Tests check the printed points of the backward equations; subregion switches (2a/2b/2c, 3a/3b, 3/4) and region edges are unseen.",
     ["src/r1/region1_T_phps.rs", "src/r2/", "src/r3/region3_Tv_phps.rs", "src/r5/region5_ph_ps_hs.rs", "src/common/region.rs"],
     [("backward equations", "src/r1/region1_T_phps.rs, src/r2/region2_T_ph.rs, src/r3/region3_Tv_phps.rs"), ("iteration in region 5", "src/r5/region5_ph_ps_hs.rs, src/algo/root.rs"), ("region decision", "src/common/region.rs")],
     ["ph(p,h,o_id)"], "property-based testing, round-trip and differential against a reference model", REF)
prop("C07", "(p,s) returns the state with that entropy",
     "For every valid state, entering its pressure and entropy returns the same region and a temperature that satisfies the IF97 backward equation (exactly the published polynomial, within its published consistency with the state it came from; iterated to round-off above 1073.15 K); all other properties belong to that returned state. Entropies below the 273.15 K isotherm or above the hottest valid state are refused.",
     ["inputs"], "every (p,s) of the range of validity and around it, all regions and backward subregions",
     "Tests check the printed points of the backward equations; subregion switches and region edges are unseen.",
     ["src/r1/region1_T_phps.rs", "src/r2/region2_T_ps.rs", "src/r3/region3_Tv_phps.rs", "src/r5/region5_ph_ps_hs.rs", "src/common/region.rs"],
     [("backward equations", "src/r1/region1_T_phps.rs, src/r2/region2_T_ps.rs, src/r3/region3_Tv_phps.rs"), ("iteration in region 5", "src/r5/region5_ph_ps_hs.rs, src/algo/root.rs"), ("region decision", "src/common/region.rs")],
     ["ps(p,s,o_id)"], "property-based testing, round-trip and differential against a reference model", REF)
prop("C08", "(h,s) returns the state with that enthalpy and entropy",
     "For every valid state, entering its enthalpy and entropy returns its region and a pressure and temperature within the published consistency of the IF97 p(h,s) equations, so that the returned state reproduces both inputs; all other properties belong to that state.",
     ["inputs"], "every (h,s) of the range of validity: all regions, boundary equations and backward subregions",
     "Tests check the printed points; the seven boundary equations that partition the (h,s) plane are hardly exercised.",
     ["src/common/region.rs", "src/common/boundaries.rs", "src/r1/", "src/r2/region2_p_hs.rs", "src/r3/", "src/r4/region4_T_hs.rs", "src/r5/region5_ph_ps_hs.rs"],
     [("region decision in the (h,s) plane", "src/common/region.rs"), ("p(h,s) equations", "src/r2/region2_p_hs.rs, src/r3/region3_p_hs.rs"), ("T(h,s) in wet steam", "src/r4/region4_T_hs.rs")],
     ["hs(h,s,o_id)"], "property-based testing, round-trip and differential against a reference model", REF)
prop("C09", "(p,v) and (t,v) return the state with that volume",
     "For every valid single-phase state, entering its volume with its pressure or its temperature returns a valid state that reproduces that volume, in the region of the original state, and every other property is that of the returned state.",
     ["inputs"], "every single-phase state, entered as (p,v) and as (t,v), including the water anomaly below 4 degC and the isotherm edges",
     "Tests run a few grid points per region; solvers fail only in corners (multiple roots, brackets at region edges).",
     ["src/r1/region1_pair_ext.rs", "src/r2/region2_pair_ext.rs", "src/r3/region3_pair_ext.rs", "src/r5/region5_pair_ext.rs", "src/common/region.rs", "src/algo/root.rs"],
     [("iterative solvers", "src/r*/region*_pair_ext.rs"), ("region decision", "src/common/region.rs"), ("secant iteration", "src/algo/root.rs")],
     ["pv", "tv"], "property-based testing, round-trip", REF)
prop("C10", "(t,h) and (t,s) return a state with that enthalpy or entropy",
     "For every valid single-phase state, entering its enthalpy or entropy with its temperature returns a valid state at that temperature that reproduces the value, and every other property is that of the returned state; where several states share the value the answer is one of them.",
     ["inputs"], "every single-phase state, entered as (t,h) and as (t,s)",
     "Tests run a few grid points per region; h(p) and s(p) along an isotherm are not monotonic in parts of the liquid, which no test visits.",
     ["src/r1/region1_pair_ext.rs", "src/r2/region2_pair_ext.rs", "src/r3/region3_pair_ext.rs", "src/r5/region5_pair_ext.rs", "src/common/region.rs", "src/algo/root.rs"],
     [("iterative solvers", "src/r*/region*_pair_ext.rs"), ("region decision", "src/common/region.rs")],
     ["th", "ts"], "property-based testing, round-trip", REF)
prop("C11", "Wet steam is recognised and resolved from every input pair",
     "For every wet-steam state, each of the pairs (p,h), (p,s), (p,v), (t,v), (t,h), (t,s) and (h,s) formed from its mixture properties is reported as two-phase, with the saturation pressure and temperature, the quality and the mixture properties of that state. Properties that wet steam does not have yield the invalid-property code.",
     ["inputs"], "every (t,x) with 0<x<1 times seven input pairs",
     "Tests check few wet states; the reverse lever rule and region decisions along the dome are unseen.",
     ["src/r4/", "src/common/region.rs"],
     [("reverse lever rule", "src/r4/region4_pair_ext.rs, src/r4/region4.rs"), ("T(h,s)", "src/r4/region4_T_hs.rs")],
     ["ph", "ps", "pv", "tv", "th", "ts", "hs"], "property-based testing, round-trip against a reference model", REF)
prop("C12", "(h,x) and (s,x) find a saturation state with that value wherever one exists",
     "For every enthalpy or entropy that some saturation temperature gives at quality x, (h,x) and (s,x) return such a temperature, its saturation pressure and the mixture properties there; for a value no saturation temperature gives they return the error value, never a state that does not reproduce the input.",
     ["inputs"], "every (t,x) turned into (h,x) and (s,x), and arbitrary (h,x), (s,x) over and beyond their range",
     "Tests check single points; the functions are not monotonic in temperature, so root selection matters everywhere else.",
     ["src/r4/region4.rs", "src/r4/region4_pTx.rs", "src/common/constant.rs"],
     [("bracketing and bisection", "src/r4/region4.rs")],
     ["hx", "sx"], "property-based testing, round-trip", "Exploration: generated round trips through the library's own (t,x) values, which C05 compares with the reference model.")
prop("C13", "Derived properties are the exact functions of the same equations",
     "For every single-phase (p,t), the exergy, free energies, compressibility factor, isentropic exponent, expansion and compressibility coefficients, partial derivatives, throttling coefficients and fugacity are those that follow from the IF97 equation of the region, and satisfy among themselves the thermodynamic identities (u+pv=h, cp-cv, Mayer, speed of sound, Joule-Thomson...).",
     ["inputs"], "every single-phase (p,t), sixteen derived properties each",
     "No test touches most of these ids; errors in a unit or a derivative show only against an identity.",
     ["src/r1/region1_pT.rs", "src/r2/", "src/r3/region3_Td.rs", "src/r5/", "src/common/propertry_pairs.rs"],
     [("derivatives and formulas", "src/r*/"), ("generic formulas", "src/common/propertry_pairs.rs")],
     ["pt(p,t,o_id)"], "property-based testing, differential and metamorphic (identities)", REF)
prop("C14", "Transport and further properties follow the IAPWS formulations",
     "For every single-phase (p,t), dynamic viscosity, thermal conductivity, surface tension and static dielectric constant are those of the IAPWS formulations (conductivity without the critical enhancement) at the state's density and temperature. Kinematic viscosity, thermal diffusivity and Prandtl number are the quotients of the other returned properties.",
     ["inputs"], "every single-phase (p,t)",
     "Tests check few values per property; the coefficient sums matter over the whole density range.",
     ["src/common/transport_further.rs", "src/common/propertry_pairs.rs"],
     [("formulations", "src/common/transport_further.rs"), ("quotients", "src/common/propertry_pairs.rs")],
     ["pt(p,t,o_id)"], "property-based testing, differential and metamorphic", REF)
prop("C15", "All properties returned for one input pair describe one state",
     "For every input pair and every property id, what the pair returns is what (p,t) returns for the pressure and temperature that the same pair returns, within the accuracy of the region's equations, and each pair returns its own two arguments unchanged.",
     ["inputs"], "every pair function x every property id x states of all regions",
     "Tests ask one property of one pair; that 11 pairs x 36 ids agree is never checked.",
     ["src/common/propertry_pairs.rs", "src/r1/region1.rs", "src/r2/region2.rs", "src/r3/region3.rs", "src/r5/region5.rs", "src/rust_if97.rs"],
     [("per-region pair functions", "src/r*/region*.rs"), ("dispatch", "src/common/propertry_pairs.rs, src/rust_if97.rs")],
     ["all pair functions"], "property-based testing, metamorphic (agreement between entry points)", "Exploration: generated states; compares the library with itself, so an error shared by a pair and (p,t) is left to C01-C14.")
prop("C16", "Invalid requests are answered by an error value, valid ones never",
     "For finite arguments and every property id other than the function's own two arguments (those are echoed), an unknown property id, a point outside the range of validity, a quality outside [0,1] or a region number that does not exist yields a negative error code and never a NaN, an infinity or a plausible property; a valid request for a defined property always yields a finite number that is not an error code.",
     ["inputs"], "all pair functions, property ids inside and outside the table, points inside and outside the range",
     "Tests never send an invalid request.",
     ["src/rust_if97.rs", "src/common/region.rs", "src/common/propertry_pairs.rs", "src/common/constant.rs"],
     [("range and id checks", "src/rust_if97.rs, src/common/region.rs, src/common/propertry_pairs.rs")],
     ["all pair functions"], "property-based testing against a range oracle", "Exploration: generated in- and out-of-range requests; within 1e-12 relative of a limit round-off may decide.")
prop("C17", "An explicit region argument selects exactly that region's equations",
     "For every state, naming the region that the library itself detects returns the identical value, and naming a region returns that region's equation at the arguments whatever the detected one is.",
     ["inputs"], "pt, ph, ps, hs, pv, tv, th, ts with every property id and an explicit region",
     "One test calls the tuple form; no test compares it with the automatic choice.",
     ["src/rust_if97.rs", "src/common/propertry_pairs.rs"],
     [("optional region argument", "src/rust_if97.rs"), ("dispatch", "src/common/propertry_pairs.rs")],
     ["pt(..,(o_id,region)) and the other seven functions"], "property-based testing, metamorphic and differential", REF)
prop("C18", "The C interfaces return exactly what the Rust API returns",
     "Every function of the cdecl dynamic library and of the stdcall interface returns, for the same arguments, the value of the Rust function of the same name (bit for bit, or up to the round-off of a separate compilation), for every property id and for invalid input.",
     ["inputs", "configurations"], "12 functions x any arguments x any property id, cdecl library loaded through the C ABI, stdcall source compiled with the platform's convention",
     "The tests do not build either interface.",
     ["src/cdecl_c_if97.rs", "src/stdcall_c_if97.rs", "src/rust_if97.rs"],
     [("exported functions", "src/cdecl_c_if97.rs, src/stdcall_c_if97.rs")],
     ["symbols of the dynamic library"], "property-based testing, differential between bindings", "Exploration: the real cdylib is built with the cdecl feature and called through dlopen. stdcall exists only on 32-bit x86, for which nothing can be linked here: its source is compiled with the convention keyword replaced by the C one, so the convention itself is not exercised (the 32-bit type check is).")
prop("C19", "The Python interface returns exactly what the Rust API returns",
     "Every function of the Python module, and every helper of the Python package built on it, returns for the same arguments the value of the Rust function of the same name for that property id, for valid and invalid input.",
     ["inputs", "configurations"], "12 module functions and every package helper x any arguments",
     "The tests do not build or import the Python module.",
     ["src/python_if97.rs", "python/"],
     [("module functions", "src/python_if97.rs"), ("package helpers", "python/")],
     ["the imported extension module and package"], "property-based testing, differential between bindings", "Exploration: the real extension module, built with the python feature and imported by /usr/bin/python3 in a separate process.")
prop("C20", "Calls are pure: no history, order or thread changes a result",
     "For every sequence of calls, in one thread or in many at once, each call returns bit for bit what the same call returns as the first call of a fresh process.",
     ["histories", "schedules"], "call histories of mixed functions, properties and nearly equal arguments; concurrent execution by several threads",
     "Every test is a single fresh call per argument.",
     ["src/"], [("no global or thread-local state, no cache", "src/")],
     ["all functions"], "stateful property-based testing over call histories and threads", "Exploration: histories of generated calls against a fresh-process oracle; concurrency by real threads under the OS scheduler (no systematic schedule enumeration).")
prop("C21", "Every call returns: no panic, hang or abort for any argument",
     "For any bit patterns as arguments and any property id and region number, every function returns a number in bounded time: it does not panic, abort, overflow the stack or loop.",
     ["inputs"], "arbitrary doubles (including NaN, infinities, subnormals), ids and region numbers for 12 functions",
     "Tests only send meaningful states.",
     ["src/rust_if97.rs", "src/algo/root.rs", "src/r4/"],
     [("bounded iteration", "src/algo/root.rs, src/r4/, src/r*/region*_pair_ext.rs"), ("range checks", "src/common/region.rs")],
     ["all functions"], "fuzzing (structured random arguments) with a crash/hang oracle", "Exploration: a case counts as a hang after 20 s of its own CPU time, confirmed by a replay in a fresh process. Integer overflow checks are on.")
prop("C22", "Single-phase states are thermodynamically stable and monotonic",
     "For every single-phase state cp >= cv > 0, volume falls with pressure, enthalpy and entropy rise with temperature, entropy falls with pressure where the expansion coefficient is positive, and speed of sound, density, viscosity and conductivity are positive; finite differences of the returned functions agree with the returned derivatives.",
     ["inputs"], "every single-phase (p,t) and pairs of neighbouring states in one region",
     "Point tests cannot show order relations between neighbouring states.",
     ["src/r1/", "src/r2/", "src/r3/", "src/r5/"],
     [("basic equations", "src/r*/")],
     ["pt(p,t,o_id)"], "property-based testing, metamorphic (order and finite differences)", "Exploration without a reference model: relations between the library's own values only.")
prop("C23", "Properties are continuous across region boundaries",
     "Across every boundary between regions, and across every subregion boundary inside region 3, two states on either side of the boundary and arbitrarily close to it differ by no more than the consistency that IAPWS publishes for that boundary.",
     ["inputs"], "every boundary of the (p,t), (p,h), (p,s) and (h,s) planes, crossed at any point",
     "Tests never compare the two sides of a boundary.",
     ["src/common/region.rs", "src/common/boundaries.rs", "src/r3/region3_v_subregion_pT.rs"],
     [("boundary equations", "src/common/boundaries.rs"), ("region decision", "src/common/region.rs")],
     ["pt", "ph", "ps", "hs"], "property-based testing, metamorphic (both sides of a boundary)", "Exploration without a reference model for the compared values; the boundary curves come from the reference equations.")
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + "\n")
M = dict(version=1, setup_cmd="./check.sh --build",
         checks=[dict(property=d["id"], quick_cmd=f"./check.sh {d['id']} quick", thorough_cmd=f"./check.sh {d['id']} thorough", technique=t, level="exploration", level_note=n.strip(), evidence_file=f"evidence/{d['id']}.json")
                 for d, t, n in P if d["id"] in CLAIMED],
         not_applicable=[dict(property=d["id"], reason="its check is not built yet; the technique applies") for d, _, _ in P if d["id"] not in CLAIMED],
         notes="One Rust harness (/verif/harness, proptest) decides every property; see DESIGN.md. known_findings.txt lists findings and fixed defects. No hooks in /repo.")
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
