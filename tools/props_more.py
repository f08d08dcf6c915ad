prop("C06", "Reported extremes bound the diagrams, and diagram arrays match point queries",
     "For every member and load combination the reported maximum and minimum moment, shear, torque, axial force and deflection are the true extremes of that diagram over the whole member, including peaks between load boundaries. "
     "Result arrays and f() agree with the point queries at the same sections, on members with and without intermediate nodes.",
     ["inputs"], "every stable frame, member, direction and combination; P-Delta extremes to the spacing of the sections sampled",
     "Peaks fall between load boundaries at places set by the loads and end forces together; the tests check peaks of uniform and point loads at mid span.",
     [M, P, BZ, BY], [("segment extremes", BZ + ", " + BY + ": max_moment, min_moment, max_shear, max_deflection"), ("member extremes", M + ": max_*, min_*"), ("arrays across sub-members", P + ": _array")],
     "runtime differential monitor: reported extremes against densely sampled and independently computed diagrams", "random frames with hostile load layouts; held on the executions observed")

prop("C07", "Linear results superpose",
     "In a first-order analysis without one-way elements every result of a load combination equals the factor-weighted sum of the results of its load cases taken alone, and scaling all factors scales all results. "
     "Splitting a load in parts, or moving it to another case with the same factor, changes nothing.",
     ["inputs"], "every stable linear model of members, springs, plates and quads; every set of factors",
     "Superposition ties together all load types and result queries for arbitrary factors; the tests use one or two fixed combinations.",
     [F, M, BZ, BY, PL, Q], [("factored loads", F + ": P, FER"), ("per-combination results", M + ": _segment_member"), ("fixed end reactions", M + ", " + PL + ", " + Q + ": fer")],
     "runtime metamorphic monitor: results of combinations against sums over load cases", "random models; held on the executions observed")

prop("C08", "Each load combination gets its own result, whatever else is analysed",
     "The results of a load combination do not depend on which other combinations exist, on their order, or on the order results are asked for in. "
     "Analysing by combination tags solves exactly the combinations that carry one of the tags and leaves them identical to a full analysis.",
     ["configurations", "histories"], "every stable model with one or more combinations and tags, one-way elements included",
     "Leaks between combinations (cached diagrams, one-way states, solver buffers) show only for particular orders and combinations of loads.",
     [F, A, M], [("combination selection", A + ": _identify_combos"), ("result caching", M + ": _solved_combo"), ("one-way state per combination", A + ": _check_TC_convergence")],
     "runtime metamorphic monitor: one model analysed whole, alone, reordered and by tags", "random models and tag sets; held on the executions observed")

prop("C09", "All solvers and analysis entry points agree",
     "Sparse and dense solution give the same results, and analyze, analyze_linear and (with second-order effects absent) analyze_PDelta give the same results on models they all apply to. "
     "Logging, stability checks and statics checks never change a result.",
     ["configurations"], "every stable model and every combination of the analysis options",
     "The assembly is written twice (dense and sparse) and the drivers three times; the tests run mostly one path, and a slip in the other shows only for some element mixes.",
     [F, A], [("dense and sparse assembly", F + ": K, Kg"), ("drivers", F + ": analyze, analyze_linear, analyze_PDelta"), ("iteration", A + ": _PDelta_step")],
     "runtime differential monitor: the same model through every solver path", "random models with members, springs, plates and quads; held on the executions observed")

prop("C10", "Results don't depend on names or on the order of definition",
     "Building the same model in another order, under other names, or with automatically assigned names gives the same results for every node and element. "
     "rename() keeps every object, gives it a unique name, and leaves the model and its results otherwise unchanged, before and after an analysis.",
     ["inputs", "histories"], "every stable model; every order of definition and choice of names",
     "Numbering, name-keyed lookups and the bookkeeping of automatic names interact with arbitrary user names; the tests use one order and neat names.",
     [F, A, P], [("automatic names", F + ": unique_name, add_*"), ("renaming", F + ": rename"), ("numbering", A + ": _renumber"), ("sub-member naming", P + ": descritize")],
     "runtime metamorphic monitor: results matched by object identity across orders and names", "random models; held on the executions observed")

prop("C11", "Results don't depend on position, orientation, member direction or units",
     "Rotating and shifting a whole model with its loads and supports rotates its results; reversing a member end for end, or numbering a plate's corners from another corner or the other way round, leaves the structure's results unchanged. "
     "Restating a model in other units restates all results in those units, and coordinates that differ by rounding errors only give the same results.",
     ["inputs"], "every stable model of members, springs, plates and quads; axis permutations, arbitrary rotations where supports allow, any shift",
     "Local axes are set up by case distinctions (vertical, horizontal, skew, auxiliary node); the tests use a few orientations near the origin.",
     [M, SP, PL, Q], [("member axes", M + ": T"), ("spring axes", SP + ": T"), ("plate axes", PL + ", " + Q + ": T, _local_coords"), ("load direction handling", M + ": fer, _segment_member")],
     "runtime metamorphic monitor: results of transformed models against transformed results", "random models and transformations; held on the executions observed")

prop("C13", "One-way elements act only in the direction they can",
     "After a converged analysis no active tension-only (compression-only) member or spring carries compression (tension) beyond the given tolerance, inactive ones carry nothing, and the results are those of the structure with only the active elements. "
     "Elements are switched off only for carrying force of the wrong sign, one-way support springs act only in their direction, and failing to converge within the allowed iterations is reported.",
     ["inputs", "configurations"], "every model with one-way members, springs or support springs, every combination, tolerance and iteration limit",
     "Which elements end up active comes out of an iteration over all elements and combinations; the tests check single braces and springs.",
     [A, F, SP, M, P], [("one-way iteration", A + ": _check_TC_convergence"), ("active state in the assembly", F + ": K"), ("inactive results", M + ", " + SP + ": f, axial")],
     "runtime differential monitor: recorded active states and results against a simulation of the documented iteration", "random braced bays and frames; decisions within rounding left out; held on the executions observed")

prop("C12", "A node on a member, or splitting a member, changes nothing",
     "Putting an extra unloaded node anywhere on a member leaves all displacements, reactions, diagrams and end forces of a first-order analysis as they were. "
     "So does replacing the member by several shorter ones joined rigidly, with its loads, releases and local axes shared out between them.",
     ["inputs"], "every stable frame, member, position along it and layout of loads, releases and one-way behaviour",
     "Members are cut up at the nodes along them, with the loads trimmed to fit; loads that start, end or straddle the cut, and cuts near ends or load boundaries, are seldom in tests.",
     [P, M, F], [("subdivision", P + ": descritize"), ("load trimming", P + ": descritize"), ("lookup across sub-members", P + ": find_member")],
     "runtime metamorphic monitor: results of a model against those with nodes added and members split", "random frames; held on the executions observed")

prop("C14", "Answers are finite, or instability is reported and located",
     "An analysis either raises an error or leaves finite results everywhere, and stable models are solved. "
     "A model with degrees of freedom that nothing supports or stiffens is refused by every entry point: the stability check names exactly those nodes and directions, and without it the singular matrix is reported.",
     ["inputs", "configurations"], "every stable model, and every model with degrees of freedom of no stiffness and no support; all entry points and options",
     "What is unstable depends on supports, releases, springs and solver path together, and the sparse solver returns garbage without failing; the tests have one unstable model.",
     [F, A], [("stability check", A + ": _check_stability"), ("singular matrices", F + ": analyze, analyze_linear; " + A + ": _PDelta_step")],
     "runtime monitor: finiteness of every result, and instability reports against the degrees of freedom made free", "random models; held on the executions observed")

prop("C15", "Supports, support springs and settlements act exactly as specified",
     "After an analysis a supported degree of freedom has moved by exactly its settlement (else nothing), a support spring pushes back with its stiffness times the displacement, and reactions appear nowhere else. "
     "Replacing a support by its reaction, or a support spring by a spring element to the ground, changes nothing.",
     ["inputs", "configurations"], "every stable model and entry point, settlements zero and nonzero, one-way support springs included",
     "Settlements, supports and springs share the bookkeeping that splits known from unknown displacements; their mixtures on one node are seldom tested.",
     [F, A, N], [("known and unknown displacements", A + ": _partition_D"), ("support springs in the stiffness", F + ": K"), ("reactions", A + ": _calc_reactions")],
     "runtime monitor: observed displacements and reactions against the supports; metamorphic replacement of supports", "random models; held on the executions observed")

prop("C16", "Every analysis gives the results of the model as it now is",
     "Whatever was analysed, queried, edited, deleted or failed before, the results after an analysis are those of a model built afresh in the same final state. "
     "Analysing again without changes repeats the same results.",
     ["histories"], "every sequence of edits, queries, successful and failing analyses",
     "Sub-members, cached segments, activity flags, stored displacements and solution flags survive from one analysis to the next; the tests analyse each model once.",
     [F, A, M, P, SP], [("preparation", A + ": _prepare_model"), ("subdivision", P + ": descritize"), ("cached segments", M + ": _solved_combo"), ("removal of results", F + ": delete_loads, deprecated flags")],
     "runtime metamorphic monitor: results after random histories against those of a fresh model", "random edit histories; held on the executions observed")

prop("C17", "Edits keep the model's cross references whole",
     "After any sequence of additions, deletions and load edits, everything in the model refers only to nodes and elements that are in it, deleting a node takes exactly the elements attached to it along, and names can be reused. "
     "Orphaned nodes and load cases are listed exactly, and meshes follow deletions.",
     ["histories"], "every sequence of edits on every model, with analyses in between",
     "A dangling reference only shows when something later walks over it; the tests delete single objects.",
     [F, ME], [("deletion", F + ": delete_node, delete_auxnode, delete_spring, delete_member"), ("orphans", F + ": orphaned_nodes"), ("load cases", F + ": load_cases"), ("mesh contents", ME + ": nodes, elements")],
     "runtime monitor: invariants over the object graph after each edit, against a shadow model", "random edit histories; held on the executions observed")

prop("C18", "Merging duplicate nodes joins what belongs together and loses nothing",
     "Merging leaves one node at each place, returns the names of those removed, leads every member, spring, plate, quad and mesh to the nodes that remain, and keeps loads, supports, springs and settlements. "
     "The results are those of the model built with shared nodes; nodes further apart than the tolerance stay apart.",
     ["inputs"], "every model with coincident or nearly coincident nodes, every tolerance and order",
     "What is attached to each of several duplicates, and in which order they appear, makes endless combinations; the tests merge bare plates.",
     [F, ME], [("merging", F + ": merge_duplicate_nodes"), ("mesh nodes", ME + ": nodes")],
     "runtime metamorphic monitor: models taken apart and merged against the originals", "random models; held on the executions observed")

prop("C21", "Plates and quads reproduce rigid motion and constant strain exactly",
     "A flat patch of plates or quads whose edge follows any rigid motion, constant in-plane strain or constant curvature follows it inside, and reports exactly the moments, shears and membrane stresses that belong to it. "
     "Element stiffness matrices are symmetric, resist every deformation and no rigid motion. "
     "This holds for any element shape the element type allows, any plane, corner numbering and isotropic stiffness.",
     ["inputs"], "every flat patch, material, thickness, orientation, corner numbering, motion and query point",
     "This is the condition for plate results to converge under mesh refinement at all; the tests compare a few fine meshes with tables at a tolerance of several percent.",
     [PL, Q, ME], [("plate stiffness and results", PL + ": k_b, k_m, moment, shear, membrane"), ("quad stiffness and results", Q + ": B_b_beta, B_s, B_m, k_b, k_m, moment, shear, membrane"), ("axes", PL + ", " + Q + ": T")],
     "runtime monitor: results on prescribed fields against the exact constant values", "random patches; held on the executions observed; orthotropic elements are known findings")

prop("C22", "Plate structures converge to plate, wall and shell theory",
     "Strips, simply supported and clamped plates under full, partial and point loads, walls in their plane and pressurised cylinders come within the discretisation error of their exact solutions, in deflection, moment, shear, membrane stress and reactions. "
     "This holds for both element types, in any plane, for regular, graded and distorted meshes and both pressure directions.",
     ["inputs"], "every such structure, mesh, plane and material",
     "The tests solve three or four tables at one size and one mesh; sign, direction and scale errors that only show for other shapes, planes or loads stay hidden.",
     [PL, Q, ME, A], [("pressure loads", PL + ", " + Q + ": fer"), ("bending and shear stiffness", PL + ": k_b; " + Q + ": k_b"), ("membrane stiffness", PL + ", " + Q + ": k_m")],
     "runtime differential monitor: observed results against closed-form and series solutions", "random structures; tolerances from the discretisation error; held on the executions observed")

prop("C27", "Plate results agree with the forces on the element",
     "For every plate and quad the strain energy of the reported moments, shears and membrane stresses equals the work of its end forces, and its end forces balance the pressure on it. "
     "The extreme results of a mesh are those of its elements.",
     ["inputs"], "every model with plates or quads, isotropic, every combination",
     "Displacements can be right while reported resultants are scaled, swapped or taken from the wrong corner; the tests look at a handful of centre moments.",
     [PL, Q, ME], [("end forces", PL + ", " + Q + ": f, fer"), ("resultants", PL + ", " + Q + ": moment, shear, membrane"), ("mesh extremes", ME + ": max_moment, min_moment, max_shear, min_shear, max_membrane, min_membrane")],
     "runtime conservation monitor: energy and equilibrium of recorded results", "random slabs; held on the executions observed")

prop("C23", "Energy is conserved and influences are reciprocal",
     "In a first-order analysis without one-way elements the work of one set of forces on the displacements caused by another equals the work of the other on those of the first, and the same reciprocity ties loads to support settlements and settlements to each other. "
     "The work of the nodal loads equals the strain energy held in members, springs, plates, quads and support springs, no element has negative energy, and adding stiffness never makes loads do more work.",
     ["inputs"], "every stable linear model of members, springs, plates and quads, every pair of nodal load sets and settlements",
     "Symmetry and conservation involve all entries of all element matrices and their assembly at once; tests with single loads look at single entries.",
     [F, A, M, SP, PL, Q], [("assembly", F + ": K"), ("element stiffness", M + ", " + SP + ", " + PL + ", " + Q + ": k, K"), ("known displacements", A + ": _partition_D; " + F + ": analyze, analyze_linear"), ("end forces", M + ", " + SP + ", " + PL + ", " + Q + ": F")],
     "runtime conservation monitor: work, energy and reciprocity of recorded displacements, reactions and end forces", "random frames and slabs; held on the executions observed")

prop("C24", "P-Delta analysis gives second-order results",
     "P-Delta analysis gives the displacements, end forces and reactions of the structure with the geometric stiffness of its axial forces: compression weakens, tension stiffens, and equilibrium holds in the displaced position. "
     "Moments along members, their arrays and their extremes include the axial force times the deflection, and deflections along members join the displaced nodes. "
     "Finely divided beam-columns and leaning columns agree with the exact second-order theory; without axial forces the results are those of first-order analysis.",
     ["inputs", "configurations"], "every stable frame with axial forces safely below buckling; loads inside a member with released ends only when finely divided; diagrams to within the accuracy of the element's division",
     "The tests check two benchmark columns in one plane; axis, sign, releases, interior nodes, settlements and combinations of tension and compression are beyond them.",
     [F, A, M], [("geometric stiffness", M + ": kg, Kg"), ("assembly", F + ": Kg"), ("iteration", A + ": _PDelta_step; " + F + ": analyze_PDelta"), ("second-order diagrams", M + ": moment, moment_array, _segment_member; " + BZ + ", " + BY + ": moment, deflection")],
     "runtime differential monitor: results against an independent second-order solver and closed-form solutions", "random frames at 5-75% of the critical load; held on the executions observed")

prop("C25", "Member end releases act as hinges",
     "A released end component of a member carries no force, its diagram starts or ends at zero, and the structure deflects as with a perfect hinge there, also in P-Delta analysis. "
     "A hinge is the same in whichever of two members it is put, and only the last definition of the releases before the analysis counts.",
     ["inputs", "histories"], "every frame that stays stable, any of the twelve components, with interior nodes and every load type",
     "Twelve components with loads, orientations and interior nodes combine in ways that tests with pinned beams leave out.",
     [M, P, F], [("condensation", M + ": k, fer, kg"), ("partition", M + ": _partition, _aux_list"), ("releases of sub-members", P + ": descritize"), ("definition", F + ": def_releases")],
     "runtime monitor: observed end forces, diagrams and displacements against hinges and an independent solver", "random frames; held on the executions observed")

prop("C26", "Equal loads have equal effects, however they are stated",
     "Self weight equals its distributed loads; global loads equal their parts along the member's axes; a distributed load equals its pieces; loads over the default extent equal loads over the full length; opposite loads cancel. "
     "A model without combinations behaves as under a combination of the default case. Loads deleted, or combinations redefined, leave nothing behind.",
     ["inputs", "configurations", "histories"], "every stable model and every load type",
     "Every way of stating a load has its own code path; the tests use each alone and never compare them.",
     [F, M, P, FE], [("load definition", F + ": add_member_pt_load, add_member_dist_load, add_member_self_weight, add_node_load"), ("fixed end reactions", M + ": fer; " + FE), ("segments", M + ": _segment_member"), ("deletion", F + ": delete_loads"), ("default combination", F + ": analyze")],
     "runtime metamorphic monitor: all results of restated loads against the original", "random frames and slabs; held on the executions observed")

prop("C28", "Asking for results changes nothing",
     "Queries for results, plots, reports and pictures never change the model or its results: asked in any order, repeatedly, interleaved over load combinations, or after queries that fail, every query gives the same answer. "
     "Plotted curves are those of the result arrays, and a following analysis gives the same results as on a model never asked.",
     ["histories"], "every analysed model; every sequence of result queries, plots, reports and pictures",
     "Members rebuild their diagrams lazily per combination and pictures write into nodes, so an answer can depend on what was asked before; the tests ask few questions in a fixed order.",
     [M, P, F, ME, "PyNite/Reporting.py", "PyNite/Visualization.py", "PyNite/Rendering.py"], [("cached diagrams", M + ": _segment_member, _solved_combo"), ("plots", M + ": plot_*"), ("node contours", "PyNite/Visualization.py, PyNite/Rendering.py: _PrepContour")],
     "runtime differential monitor: answers to shuffled queries against those of an untouched twin, snapshots of the model before and after", "random frames and slabs; held on the executions observed")

prop("C29", "Reports show the model and its results",
     "The report lists every node, member, plate and quad, with its supports, properties and end releases, exactly once, and for every analysed load combination the results that the queries give, under the right name, combination and heading, to the digits shown. "
     "Sections switched off are left out, all others are there, and combinations not analysed don't appear.",
     ["inputs", "configurations"], "every model of nodes, members, plates and quads, every choice of sections and combinations",
     "A report has some 150 columns over several combinations; no test looks at any of them.",
     ["PyNite/Reporting.py", "PyNite/Report_Template.html", M, PL, Q], [("tables", "PyNite/Report_Template.html"), ("sections and combinations", "PyNite/Reporting.py: create_report")],
     "runtime differential monitor: cells of the generated tables against queries on an identical model", "random frames and slabs; the conversion of the HTML to PDF is left out; held on the executions observed")

prop("C30", "Pictures show the model, its loads and its results",
     "Pictures by either renderer show every node, support, member, spring, plate and quad where it is, nodes, members and springs with their names; every load of the chosen combination or case, and no other, with its value, place, direction and sense; "
     "the deformed shape at the displaced positions of the active elements; and contours of the queried results. What is switched off is left out, and what a renderer drew before leaves nothing behind.",
     ["inputs", "configurations", "histories"], "every analysed model, combination, load case and setting of Visualization.Renderer and Rendering.Renderer",
     "What is drawn depends on load type, orientation, combination and on earlier pictures; the tests only check that drawing doesn't fail.",
     ["PyNite/Visualization.py", "PyNite/Rendering.py"], [("scene", "PyNite/Visualization.py, PyNite/Rendering.py: Renderer.update"), ("loads", "_RenderLoads, plot_loads, _MaxLoads, _calc_max_loads"), ("deformed shape", "VisDeformedMember, plot_deformed_member"), ("contours", "_PrepContour, _RenderContours, plot_plates")],
     "runtime monitor: geometry and texts read back from the drawn scene against the model's definition and queries", "random frames and slabs, drawn without a display; the deprecated render_model functions and deformed shapes after P-Delta are left out; held on the executions observed")

prop("C20", "Generated meshes tile exactly the figure asked for",
     "Rectangular (with openings and control points), annular, frustum and cylinder meshes cover exactly the figure asked for, with convex, consistently oriented elements of the thickness, material and modifiers given, no larger in a rectangle than the mesh size. "
     "Each edge is shared by two elements unless it lies on the boundary; no two nodes coincide and no node is unused. Nothing else in the model is touched, names never clash, and generating again replaces the mesh. Meshes that meet along equal edges are one mesh after duplicate nodes are merged, meshes follow their nodes and elements when these are renamed, and the integrity check names what is wrong with a mesh that was tampered with.",
     ["inputs", "histories"], "every mesh of positive dimensions, openings within the rectangle, at least four divisions around; every model it is added to",
     "Whether rows, transitions and openings fit depends on rounding and ratios of dimensions; the tests generate a few meshes of round sizes.",
     [ME, F], [("generation", ME + ": generate"), ("openings", ME + ": add_rect_opening"), ("names", ME + ": _rename_duplicates, _remove_from_model"), ("definition", F + ": add_rectangle_mesh, add_annulus_mesh, add_frustrum_mesh, add_cylinder_mesh"), ("merging", F + ": merge_duplicate_nodes"), ("renaming", F + ": rename"), ("integrity", ME + ": check_mesh_integrity")],
     "runtime monitor: geometry and topology of the generated mesh against the figure's definition", "random figures; held on the executions observed")

prop("C19", "Invalid definitions are refused and leave the model as it was",
     "Defining something under a name already in use, referring to a node, member, spring, material, section, auxiliary node, plate or quad that isn't in the model, giving a direction or degree of freedom that doesn't exist, or asking for results beyond the end of a member raises an error, of the documented type. "
     "The model, its loads, its automatic names and its results stay as they were, and the next analysis gives the results it would have given without the refused calls.",
     ["inputs", "histories"], "every defining, loading, supporting and deleting call that names something missing, duplicate or malformed, at any point of any history",
     "The tests never make an invalid call, so a call that fails half way, or silently overwrites, goes unnoticed.",
     [F, P, M, ME], [("names and directions", F + ": add_*, def_*, delete_*"), ("references", P + ", " + M + ": __init__"), ("cylinder meshes", ME + ": CylinderMesh")],
     "runtime monitor: snapshots of the model before and after refused calls, and results against a model that never saw them", "random models and calls; held on the executions observed")
