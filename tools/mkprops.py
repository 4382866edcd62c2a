#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

D = "deflect/"
prop("C01", "Nodal displacements are those of exact linear-elastic beam/truss theory",
     "For every stable structure of 2d trusses, 3d trusses and 2d frames with any geometry, stiffness, supports, hinges and loads, "
     "every reported nodal displacement and rotation equals the unique solution of linear-elastic truss/Euler-Bernoulli beam theory for that structure, up to floating point rounding. "
     "Element loads (concentrated forces and moments, constant and linear distributed loads) and nodal loads all contribute exactly as their theory demands, at any position and in any combination.",
     ["inputs", "configurations"], "All topologies, element kinds and mixes, directions, lengths, stiffness values, support sets, hinge sets, load kinds/positions/combinations.",
     "Tests solve a few dozen textbook structures, mostly horizontal or vertical members with one load each; the product of direction x hinge x load x neighbour is untouched.",
     [D + f for f in ("truss2d.go", "truss3d.go", "beam2d.go", "frame.go", "linear_bvp_solver.go", "geometry.go", "cholesky.go")],
     [("element stiffness and consistent loads", D + "beam2d.go"), ("rotation into global axes", D + "truss2d.go"), ("assembly and solution", D + "linear_bvp_solver.go")],
     ["ProblemResult.Primary", "ProblemResult.PrimaryAll"])
prop("C02", "Prescribed displacements are honoured exactly and act on the structure",
     "A displacement or rotation prescribed at a node is reported back exactly as prescribed, whatever mixture of zero and non-zero values is prescribed, and the remaining displacements, reactions and internal forces are those that this support movement causes. "
     "A support movement of a statically determinate structure causes no internal forces and no reactions.",
     ["inputs", "configurations"], "All assignments of zero and non-zero prescribed values to the supports of any stable structure, with and without loads.",
     "Only two test files use a non-zero prescribed value, always next to zero-valued ones, so cases where all values are non-zero (or tiny, or of mixed sign) are never run.",
     [D + "linear_bvp_solver.go"], [("partitioned solution with known displacements", D + "linear_bvp_solver.go")],
     ["ProblemResult.Primary", "ProblemResult.Reaction", "ProblemResult.Interpolate"])
prop("C03", "Support reactions balance the applied loads",
     "For every solved structure the reported reactions and all applied nodal and element loads are in equilibrium: forces in every direction and moments about any point sum to zero, and every reported reaction is exactly the force the support exerts. "
     "Degrees of freedom without a support have zero reaction, also when loads act on them.",
     ["inputs", "configurations"], "All stable structures, supports (including inclined and moved ones), hinges and loads, including loads applied directly at supports.",
     "Tests compare selected reactions of selected structures; no test sums all of them, and none has loads acting at supports in rotated directions.",
     [D + "linear_bvp_solver.go", D + "solver_result.go", D + "inclined_support.go"],
     [("reaction recovery", D + "linear_bvp_solver.go"), ("back-rotation", D + "inclined_support.go")],
     ["ProblemResult.Reaction", "ProblemResult.ReactionAll"])
prop("C04", "Internal force distributions satisfy statics at every section",
     "On every element of a solved structure, the interpolated normal force, shear force and bending moment at every section are exactly those required by equilibrium of the part of the element cut off at that section: they change with the distributed loads, jump by exactly the concentrated forces and moments at their positions, and their end values are in equilibrium with the loads, reactions and other elements at each node. "
     "Quantities an element does not carry are reported as absent instead of as numbers.",
     ["inputs", "configurations"], "All structures, load combinations, load positions (also coinciding ones and those at the element ends), hinges and element directions; all sections.",
     "Tests evaluate a few polynomials of a few loads at sample points; combinations of several loads per element with hinges and inclined axes are not reached.",
     [D + "truss2d.go", D + "truss3d.go", D + "beam2d.go", D + "polynomial.go", D + "solver_result.go"],
     [("start node forces and section polynomials", D + "beam2d.go"), ("superposition of load polynomials", D + "polynomial.go")],
     ["ProblemResult.Interpolate", "ProblemResult.InterpolateAll"])
prop("C05", "Interpolated displacements agree with nodal values and internal forces",
     "On every element the interpolated local displacements and rotation are continuous along the whole element, obey the elastic law relative to the interpolated internal forces (strain is normal force over EA, curvature is moment over EI, rotation is the negative slope), and take the nodal displacements, expressed in local axes, at both ends, except for hinged degrees of freedom, where the element has its own released end displacement.",
     ["inputs", "configurations"], "All structures, loads, hinges, element directions; all sections of every element.",
     "Tests check displacement polynomials of a handful of single-beam cases; agreement at the far end node, across load discontinuities, or with hinges is not checked in general.",
     [D + "truss2d.go", D + "truss3d.go", D + "beam2d.go", D + "polynomial.go", D + "static_condensation.go"],
     [("integration of the force polynomials with start values", D + "polynomial.go"), ("recovery of released displacements", D + "static_condensation.go")],
     ["ProblemResult.Interpolate"])
prop("C06", "Hinges release exactly the chosen degree of freedom",
     "For every supported hinge combination on the element's own degrees of freedom, a hinge makes the corresponding force or moment at that element end vanish and lets the element end move independently of the node in that one direction, while all other connections stay rigid; displacements, reactions and internal forces are those of the structure with this release. "
     "A hinge combination that cannot be represented is refused when the element is created, and is never silently ignored or replaced by another.",
     ["inputs", "configurations"], "All sets of hinged degrees of freedom per element end, all element kinds and directions, all element loads on hinged elements, several hinged elements meeting at a node.",
     "The hinge test files cover single configurations with one load kind; the 16 hinge sets per beam times load kinds times loads on the hinged element itself are not enumerated.",
     [D + "static_condensation.go", D + "beam2d.go", D + "truss2d.go", D + "frame.go"],
     [("precomputed static condensation per hinge set", D + "static_condensation.go")],
     ["NewTruss2d", "NewTruss3d", "NewFrame2d", "ProblemResult.Interpolate", "ProblemResult.Primary"])
prop("C07", "Inclined supports block exactly the direction normal to their plane",
     "A node on one or several inclined supports can move only along the support plane(s): the displacement component normal to each is zero, and the reported reaction of the node is exactly the normal support force, also when loads act directly at the node, when several inclined supports exist in the structure, and when several act at one node (one after another, in the order given, each turning two of the directions as left by the previous ones). "
     "At every angle, including multiples of 90 degrees, displacements, reactions and internal forces are those of the equivalent structure with this support.",
     ["inputs", "configurations"], "All angles, all pairs of linked translational directions, any number of inclined supports, with loads and prescribed displacements elsewhere.",
     "Tests use a few angles in the x-z plane without loads at the inclined support and never two inclined supports at one node.",
     [D + "inclined_support.go", D + "linear_bvp_solver.go"],
     [("rotation of the equations before and after the solution", D + "inclined_support.go")],
     ["ProblemResult.Primary", "ProblemResult.Reaction"])
prop("C08", "Only the element loads currently applied act on the structure",
     "After any sequence of adding and removing element loads, solving gives the result for exactly the loads added and not removed since: a load added several times acts several times, removing it removes all its instances and no other load, removing a load that is not there changes nothing. "
     "Adding reports whether the element can carry the load, and a refused load (unsupported direction, beyond the element end, or of unknown type) leaves the element unchanged.",
     ["histories", "inputs"], "All interleavings of additions, removals and solves over several elements, element kinds, and (also equal-valued) load objects.",
     "Unit tests exercise the shared load list of the common base with integers only, never through trusses or frames, nor the effect on a solution.",
     [D + "one_dim_element.go", D + "frame.go", D + "truss2d.go", D + "beam2d.go", D + "element_loads.go"],
     [("load list per element part", D + "one_dim_element.go"), ("delegation of frames to their parts", D + "frame.go")],
     ["Element.AddLoad", "Element.RemoveLoad", "ProblemSolver.Solve"],
     [("loads", "multiset of loads acting on an element", D + "one_dim_element.go")])
prop("C09", "Solutions superpose and scale linearly with loads and support movements",
     "For one and the same structure, the displacements, reactions and internal forces caused by a combination of load cases (loads and prescribed displacements) equal the same combination of those caused by the individual load cases. "
     "Without loads and support movements, all of them are zero, and scaling every load and support movement by a factor scales every result by that factor.",
     ["inputs", "configurations"], "All structures and all pairs of load cases with arbitrary factors, including negative and very large or small ones.",
     "Each test solves one load case and compares with a constant; no test relates several solutions.",
     [D + "linear_bvp_solver.go", D + "beam2d.go", D + "truss2d.go", D + "polynomial.go"],
     [("linear assembly and solution", D + "linear_bvp_solver.go")],
     ["ProblemResult.Primary", "ProblemResult.Reaction", "ProblemResult.Interpolate"])
prop("C10", "Results do not depend on how the same structure is written down",
     "Renaming nodes or elements, listing nodes, elements, supports or loads in another order, shifting the whole structure in space, rotating or mirroring it, or reversing the direction of an element (with its loads expressed accordingly) describes the same structure and gives the same physical results: nodal displacements and reactions transform accordingly and internal forces at corresponding sections agree.",
     ["inputs", "configurations"], "All structures and all such re-descriptions, alone or combined.",
     "Tests compare one description with constants; the order in which JSON maps are traversed is random, but only small structures are run once each.",
     [D + "eq_layout.go", D + "problem_from_json.go", D + "geometry.go", D + "truss2d.go", D + "truss3d.go", D + "beam2d.go"],
     [("sorted equation numbering", D + "eq_layout.go"), ("direction cosines", D + "geometry.go")],
     ["ProblemResult"])
prop("C11", "Every degree of freedom is numbered and reported exactly once",
     "For every valid problem the result lists every degree of freedom that an element refers to exactly once, with prescribed ones first and each group sorted by node and then in the documented order of degrees of freedom; individual queries agree with the lists, and the reported total and net dimension are the number of all and of unprescribed degrees of freedom. "
     "Creating the equation layout fails if and only if a degree of freedom is prescribed more than once or a prescribed one belongs to no element, and the error names each offender.",
     ["inputs", "configurations"], "All sets of elements (mixed kinds, so that nodes differ in their degrees of freedom), node names and lists of prescribed values, including duplicates and unconnected ones.",
     "Unit tests check the numbering function on a few hand-written index sets; nothing relates the lists a user sees, the single queries, and the error conditions.",
     [D + "eq_layout.go", D + "solver_result.go"],
     [("partitioned, sorted numbering and its inverse", D + "eq_layout.go")],
     ["NewEqLayout", "ProblemResult.PrimaryAll", "ProblemResult.ReactionAll", "ProblemResult.Dimension"])
prop("C12", "References to unknown nodes, directions or elements are errors",
     "Whenever a load, support, inclined support, element, or query refers to a degree of freedom or element that the problem or the equation layout does not contain, an error is returned; likewise a layout made for other supports yields an error or the right result; never a result that silently attributes values to something else. "
     "A failed query or solve leaves no trace: later valid queries and solves, also with the same layout, succeed with the same values as without the failure.",
     ["inputs", "histories"], "All kinds of dangling references in problems and all interleavings of valid and invalid queries on a result, including layouts created before the problem was extended.",
     "Unit tests look at the internal failure counter only; no test solves a problem with a dangling reference inside an element or inclined support, or queries after a failure.",
     [D + "eq_layout.go", D + "linear_bvp_solver.go", D + "solver_result.go", D + "inclined_support.go"],
     [("failure accumulation during lookups", D + "eq_layout.go"), ("checks before and after solving", D + "linear_bvp_solver.go")],
     ["ProblemSolver.Solve", "ProblemResult.Primary", "ProblemResult.Reaction", "ProblemResult.Interpolate"])
prop("C13", "Problems without a unique solution are rejected",
     "A structure that can move without deforming (missing supports, kinematic mechanisms, too many hinges), has no supports at all, or has every degree of freedom prescribed is answered with an error: not with numbers, not with a panic. "
     "Conversely, every stable structure of ordinary conditioning is solved: a structure that has a unique solution with a free degree of freedom is never refused.",
     ["inputs", "configurations"], "All subsets of supports and hinge sets of all structures, i.e. exactly the boundary between stable and unstable, in any orientation and with any stiffness values of ordinary conditioning.",
     "One test file and one unit test contain a singular system; the boundary between just stable and just unstable structures is not explored.",
     [D + "cholesky.go", D + "linear_bvp_solver.go"],
     [("factorisation and condition check", D + "cholesky.go"), ("dimension checks", D + "linear_bvp_solver.go")],
     ["ProblemSolver.Solve"])
prop("C14", "Solves are repeatable and independent of earlier work",
     "The outcome of solving a problem depends on that problem only: re-using a solver, an equation layout, a problem or an inclined support object for any sequence of problems of any size, including failing ones, gives the same outcome as fresh objects, and asking the same question again gives the same answer. "
     "Results obtained earlier keep their nodal values, and their interpolations as long as the problem is not changed, no matter what is solved afterwards, and solving and querying do not modify the problem.",
     ["histories"], "All interleavings of solves of different problems with shared solvers, layouts and supports, and of queries on all results obtained so far.",
     "Every test solves one problem once with fresh objects.",
     [D + "linear_bvp_solver.go", D + "solver_result.go", D + "inclined_support.go"],
     [("re-used buffers of the solver", D + "linear_bvp_solver.go"), ("re-used buffers of inclined supports", D + "inclined_support.go"), ("lazily computed lists", D + "solver_result.go")],
     ["ProblemSolver.Solve", "ProblemResult"],
     [("solver buffers", "matrices kept between solves", D + "linear_bvp_solver.go")])
prop("C15", "A JSON description and the same structure built by calls behave the same",
     "For every valid JSON description, the parsed problem contains exactly the nodes, elements, materials, cross sections, hinges, supports, inclined supports and loads described, including the documented shorthands (element names as node pairs, omitted material or cross section when there is only one, default parameters), and solving it gives the result of that structure. "
     "The order of entries and repeated parsing make no difference.",
     ["inputs", "configurations"], "All valid descriptions: every combination of the optional parts, shorthands, load kinds, degrees, and names of forces and directions.",
     "The integration tests parse some forty descriptions that use few of the optional parts, each checked through a few numbers.",
     [D + "problem_from_json.go"], [("translation of each section", D + "problem_from_json.go")],
     ["ProblemFromJSON"])
prop("C16", "Invalid JSON descriptions are rejected as a whole",
     "A description that is malformed, lacks a mandatory part, refers to unknown nodes, elements, materials or cross sections, uses unknown kinds, directions or degrees, a wrong number of values, non-positive section dimensions, positions off the element, zero-length elements, or unsupported hinges or loads is answered with an error: by the parser where the description is wrong in itself, and by the time it is solved where only its parts do not fit together (supports and loads in directions no element has, the same direction supported twice). "
     "The parser never panics and never returns a usable problem that silently leaves out or replaces something that was described.",
     ["inputs"], "All single and multiple corruptions of all valid descriptions, at every place in the document.",
     "Only a handful of failing descriptions are in the integration tests.",
     [D + "problem_from_json.go", D + "cross_sections.go", D + "element_loads.go", D + "static_condensation.go"],
     [("error accumulation per section", D + "problem_from_json.go")],
     ["ProblemFromJSON", "NewEqLayout", "ProblemSolver.Solve"])
prop("C17", "Interpolations cover the element without gaps in canonical form",
     "Every interpolation a result returns consists of consecutive intervals that start at 0, end at the element length, neither overlap nor leave gaps, and have positive length, one polynomial per interval. "
     "For the given tolerance, no polynomial has negligible leading coefficients, neighbouring intervals with identical polynomials are joined, and intervals with different polynomials are not; asking for all interpolations gives exactly those obtained one by one.",
     ["inputs", "configurations"], "All elements, quantities and combinations of loads at arbitrary, coinciding, touching and end positions; all tolerances.",
     "Tests compare intervals of a few cases with well separated loads at one tolerance.",
     [D + "polynomial.go", D + "solver_result.go", D + "beam2d.go", D + "truss2d.go"],
     [("flattening, trimming and compaction", D + "polynomial.go")],
     ["ProblemResult.Interpolate", "ProblemResult.InterpolateAll"])
prop("C18", "Operations on piecewise polynomials preserve the function they describe",
     "Evaluating a polynomial piece gives its value inside its interval, boundaries included, and an error outside of it on either side. "
     "Trimming removes exactly the trailing coefficients not exceeding the tolerance (but never the last remaining one, which is zeroed instead if it does not exceed the tolerance), joining merges exactly the runs of touching intervals with equal polynomials into one interval spanning the run, and neither alters any other interval or coefficient; searching an interval finds the first one with the given bounds or none.",
     ["inputs"], "All piecewise polynomials (any number of pieces, degrees, gaps, zero and near-zero coefficients) and tolerances.",
     "Table tests with about ten hand-written sequences; evaluation beyond the upper end was never asserted.",
     [D + "polynomial.go"],
     [("PolyPiece.Eval, PolySequence.TrimTrailingZeros, CompactIdentical, IntervalIndex", D + "polynomial.go")],
     ["PolyPiece.Eval", "PolyPiece.Degree", "PolySequence.TrimTrailingZeros", "PolySequence.CompactIdentical", "PolySequence.IntervalIndex"])
prop("C19", "Cross sections report correct geometric values or refuse their input",
     "A rectangular cross section has the area, the two bending moments of inertia and the (approximate, Roark) torsion constant of a rectangle with these dimensions, exchanges the bending moments of inertia and keeps area and torsion constant when width and height are exchanged, and scales with the proper power of its size; a cross section given by constants reports exactly these. "
     "Construction fails if and only if a mandatory value is missing or not positive, or an optional one is negative where that is documented as an error.",
     ["inputs"], "All finite dimensions and parameter sets.",
     "Each formula is checked at a single point and construction errors at a handful of points.",
     [D + "cross_sections.go"], [("closed formulae and validation", D + "cross_sections.go")],
     ["NewRectangularCrossSection", "NewConstantsCrossSections"])
prop("C20", "Independent solves may run concurrently",
     "Goroutines that parse, lay out, solve and query at the same time, each with its own solver and result, do not influence each other, even when they share problems, elements, loads, inclined supports, equation layouts, materials or cross sections that none of them modifies: there is no data race and each obtains exactly the outcome it would obtain alone.",
     ["schedules", "histories"], "All interleavings of the operations of several goroutines, including failing solves and queries that use a shared layout.",
     "The parallel integration tests share nothing but the code; no schedule with shared problems or layouts is run.",
     [D + "linear_bvp_solver.go", D + "eq_layout.go", D + "truss2d.go", D + "beam2d.go", D + "solver_result.go"],
     [("elements are read-only while assembling", D + "beam2d.go"), ("failure state separated per solve", D + "linear_bvp_solver.go")],
     ["ProblemSolver.Solve", "ProblemResult"])
prop("C21", "Test expectations fail whenever a result misses them",
     "An expected value, interpolation or failure written in a test description is reported as failed if and only if the actual result misses it beyond the stated tolerance (nodal values and polynomial samples, polynomial degree and interval, error message pattern), and a description with unknown names, malformed ranges, samples, or patterns is refused instead of being ignored.",
     ["inputs"], "All expectation documents applied to all results, in particular results that deviate slightly beyond or within the tolerance, or lack the expected quantity.",
     "The expectation code is only run on passing tests: nothing checks that it can fail.",
     ["integr/expectations.go", "integr/expectations_from_json.go"],
     [("strict decoding", "integr/expectations_from_json.go"), ("assertions", "integr/expectations.go")],
     ["ExpectationsFromJSON", "Expectation"])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
