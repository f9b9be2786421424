"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
L = "src/lib/pytornado/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [L + f for f in files],
         "mechanism": [{"name": n, "where": L + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": L + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Generated panels tile every surface patch exactly",
  "For every set of quadrilateral surface patches and every chord- and spanwise panel count, the generated panels are the uniform bilinear subdivision of each patch: neighbouring panels share their corner points, the outermost corners coincide with the patch corners, and nothing is left uncovered or covered twice. Panels of different patches occupy consecutive, non-overlapping index ranges in the order in which the patches are given, and within a patch they run from the leading to the trailing edge, strip after strip.",
  ["inputs", "configurations"], "all corner coordinates (non-planar patches included), all panel counts and numbers of patches within the bound",
  "Tests run one template aircraft and only check that nothing crashes; no test looks at a panel coordinate.",
  ["aero/c_lattice.cpp", "aero/c_vlm.cpp"],
  [("bilinear transformation of panel corners", "aero/c_lattice.cpp"), ("patch array handed over by the mesher", "aero/vlm.py")],
  ["panel corner array after lattice generation"])

p("C02", "Horseshoes and control points sit at quarter and three-quarter chord",
  "On every panel the bound vortex leg joins the points one quarter of the way from the leading to the trailing edge on the two side edges, the collocation point lies midway between the side edges at three quarters, and the stored bound-leg midpoint is the midpoint of that leg. Both trailing legs start at the ends of the bound leg and run 10000 length units downstream exactly parallel to the free stream given by angle of attack and sideslip.",
  ["inputs"], "all panel shapes, all angles of attack and sideslip",
  "Existing tests never inspect vortex or collocation points and use a single flight state.",
  ["aero/c_lattice.cpp", "aero/c_vlm.cpp"],
  [("horseshoe geometry", "aero/c_lattice.cpp"), ("free stream direction", "aero/c_vlm.cpp")],
  ["vortex, collocation and bound-leg midpoint arrays"])

p("C03", "Panel normals are unit vectors and panel areas and statistics are consistent",
  "For every non-degenerate panel the stored normal has unit length, is perpendicular to the chordwise mid-line and to the spanwise line through the collocation point, and always points to the same side relative to the corner order (right-hand rule along leading edge inner, leading edge outer, trailing edge outer, trailing edge inner corner). The stored area is the true area of every flat panel, and the reported minimum, maximum and average of area and aspect ratio (mean span over mean chord) are those of exactly the generated panels.",
  ["inputs"], "all non-degenerate panel shapes and all panel counts within the bound",
  "No test checks normals, areas or lattice statistics.",
  ["aero/c_lattice.cpp", "aero/c_vlm.cpp"],
  [("panel normal, area and lattice metrics", "aero/c_lattice.cpp"), ("write-back of lattice info", "aero/c_vlm.cpp")],
  ["normal and area arrays, lattice info"])

p("C04", "Downwash factors are the Biot-Savart normal velocities of the horseshoes",
  "Entry (i, j) of the influence matrix is the velocity that the three straight legs of horseshoe j, carrying unit circulation, induce at collocation point i according to the Biot-Savart law with the configured regularisation, projected on normal i. Every entry depends only on horseshoe j and on point and normal i, whatever other panels exist.",
  ["inputs", "configurations"], "all vortex points, collocation points, normals and regularisation values for which the induced velocity is defined, all panel counts within the bound",
  "No test compares the influence matrix with anything; a sign, index or leg error only shifts results.",
  ["aero/c_downwash.cpp", "aero/c_vlm.cpp", "aero/vlm.py"],
  [("influence loop over horseshoe legs", "aero/c_downwash.cpp")], ["influence matrix"])

p("C05", "The right-hand side is the normal component of the onset flow",
  "For every flight state the right-hand side of panel i is minus the normal component of the relative air velocity at its collocation point, made up of the free stream from airspeed, angle of attack and sideslip and of the roll, pitch and yaw rates acting about the centre of gravity. In particular it is linear in airspeed and rates, rates about a point on the rotation axis contribute nothing, and the moment reference point has no influence.",
  ["inputs"], "all airspeeds, angles, rates, centres of gravity and panel positions and normals",
  "Tests use fixed states with no check of the right-hand side.",
  ["aero/c_boundary.cpp", "aero/c_vlm.cpp", "aero/vlm.py"],
  [("boundary condition", "aero/c_boundary.cpp"), ("reading state and reference values", "aero/c_vlm.cpp")], ["right-hand side array"])

p("C06", "Panel velocities, forces and pressures follow Kutta-Joukowski",
  "On every panel the reported induced velocity is the circulation-weighted sum of the velocities induced by all horseshoes at the midpoint of its bound leg, and the force is density times circulation times the cross product of the total local air velocity (free stream, rotation about the centre of gravity, induced) with the bound-leg vector. Reported magnitudes are the lengths of the corresponding vectors and the pressure coefficient is the normal force divided by dynamic pressure and panel area.",
  ["inputs", "configurations"], "all circulations, vortex geometries, states and reference values for which the quantities are defined, all panel counts within the bound",
  "No test compares panel-wise results with anything.",
  ["aero/c_results.cpp", "aero/c_vlm.cpp", "aero/vlm.py"],
  [("inwash and panel loads", "aero/c_results.cpp"), ("panel-wise result arrays", "aero/c_vlm.cpp")], ["panel-wise results"])

p("C07", "Total loads and coefficients add up the panels in the right axes",
  "Total forces are the sums of the panel forces, total moments are the sums of their moments about the moment reference point, and drag, side force and lift are the components of the total force in wind axes, so their vector has the same length as the total force and drag is the component along the free stream. Every coefficient is its load divided by dynamic pressure and reference area, and in addition by span for roll and yaw and by chord for pitch; a zero dynamic pressure is replaced by one, and each number is reported under its own name.",
  ["inputs"], "all panel loads, states and reference values, all panel counts within the bound",
  "Tests only check that a run completes; swapped keys, axes or reference lengths pass.",
  ["aero/c_results.cpp", "aero/c_vlm.cpp"],
  [("global loads and coefficients", "aero/c_results.cpp"), ("result dictionaries", "aero/c_vlm.cpp")], ["forces and coefficients dictionaries"])

p("C08", "Native kernels stay inside their arrays and fill every result",
  "With arrays of the sizes the Python side allocates, the native routines never read or write outside an array, never use a value that was not set, never alter their inputs and never release objects they do not own. After each call every entry of every output (lattice points, vortices, normals, areas, matrix, right-hand side, panel results, loads, coefficients, lattice quality figures) has been set by that call.",
  ["inputs", "configurations"], "all panel counts and numbers of patches within the bound, all array contents, repeated calls included",
  "An out-of-bounds access or a stale entry does not fail a test that only checks for completion.",
  ["aero/c_lattice.cpp", "aero/c_downwash.cpp", "aero/c_boundary.cpp", "aero/c_results.cpp", "aero/c_vlm.cpp", "aero/vlm.py"],
  [("array allocation", "aero/vlm.py"), ("index arithmetic", "aero/c_lattice.cpp"), ("index arithmetic", "aero/c_results.cpp")], ["arrays shared by Python and native code"])

p("C09", "The computed circulation satisfies flow tangency on every panel",
  "The circulations used for the results make the total air velocity at every collocation point (free stream, rotation and the velocities induced by all horseshoes) tangential to the panel, i.e. they solve exactly the linear system assembled for the current state. A system that has no unique solution is reported as an error and never answered with arbitrary numbers.",
  ["inputs"], "all panel geometries and flight states for up to two panels, and all matrices and right-hand sides within the bound",
  "Tests do not check that the solution solves the system nor feed singular systems.",
  ["aero/vlm.py", "aero/c_downwash.cpp", "aero/c_boundary.cpp"],
  [("assembly and solution of the linear system", "aero/vlm.py")], ["circulation handed to the results step"])

p("C10", "The mirrored side of a symmetric wing is an exact reflection",
  "For a wing with any of the three symmetry planes, the mirrored side of every strip and of every part of it (main surface, leading- and trailing-edge devices, hinge lines) is the reflection of the original side in that plane, covering the reflected region exactly. On the mirrored side the corners keep their order for the xy-plane, left and right are exchanged for the xz-plane and leading and trailing edge for the yz-plane, so that the corner order still runs from the leading to the trailing edge; the original side is not changed by asking for the mirror.",
  ["inputs", "configurations"], "all wing shapes, strips, chordwise cuts and hinge positions, all three symmetry planes",
  "Tests only use one symmetry plane and check nothing about mirrored coordinates.",
  ["objects/aircraft.py"],
  [("mirroring and re-ordering of vertices", "objects/aircraft.py")], ["absolute corner and hinge coordinates of mirrored surface parts"])

p("C11", "Strips and surface parts always partition the wing segment",
  "After any sequence of spanwise cuts and control surface insertions, accepted or refused, the strips of a segment cover its span from root to tip without gap or overlap, and in every strip the leading-edge device, the main surface and the trailing-edge device together cover the chord without gap or overlap. Cuts outside the open span, and devices outside the chord or overlapping existing ones, are refused, and a cut at (or nearer than one percent outboard of) an existing one creates nothing new.",
  ["inputs", "histories"], "all positions and all sequences of cuts and insertions within the bound",
  "Tests use a single control surface on a rectangular wing.",
  ["objects/aircraft.py"],
  [("strip creation", "objects/aircraft.py"), ("surface part creation and update", "objects/aircraft.py")], ["relative span and chord positions of all strips and parts"],
  [("strips", "relative span positions of a segment's strips", "objects/aircraft.py"), ("parts", "relative chord positions inside a strip", "objects/aircraft.py")])

p("C12", "Spanwise cuts never move a control surface edge or hinge line",
  "A control surface inserted between two span positions occupies exactly the strips between them, its edge and hinge start and end at the given chord positions, and on a planar segment every intermediate point of edge and hinge line stays on the straight line between its two ends; an end less than one percent outboard of an existing cut counts as that cut. Later spanwise cuts, by the user or by other control surfaces, leave these lines and the control surface's ownership of the strips unchanged.",
  ["inputs", "histories"], "all planar segment shapes, control positions and sequences of cuts within the bound",
  "Tests only use rectangular wings with constant chord fractions, where every interpolation gives the same number.",
  ["objects/aircraft.py"],
  [("chord position interpolation", "objects/aircraft.py"), ("device inheritance on subdivision", "objects/aircraft.py")], ["relative chord and hinge positions of control parts"])

p("C13", "Control surfaces spanning several segments are continuous",
  "A control surface whose ends lie on different segments is placed on exactly the segments from its inner to its outer one, from its inner end position, across all full segments between, to its outer end position. Its edge and hinge start and end at the given chord fractions, agree on both sides of every segment border, and vary linearly with the distance along the control surface between the ends (measured on the polyline through its ends and through the border points at the mean of its two chord fractions).",
  ["inputs", "configurations"], "all segment shapes, control end positions and hinge positions for wings of up to three segments",
  "No test has a control surface that crosses a segment border.",
  ["aero/vlm.py", "objects/aircraft.py"],
  [("distribution of controls over segments", "aero/vlm.py")], ["control parts on each segment after meshing preparation"])

p("C14", "Panel bookkeeping matches the lattice one to one",
  "Every panel index belongs to exactly one bookkeeping entry, entries are contiguous and in the same order as the patches passed to lattice generation, and each entry records the surface part, side and number of chordwise panels that were really meshed there. Each surface part gets at least one panel (the requested chordwise number for control surfaces, that number scaled by the chord share and rounded up for main surfaces), symmetric wings get one entry per side, the counts reported are those of the model, and generating the lattice again gives the same bookkeeping.",
  ["inputs", "configurations", "histories"], "all wing layouts within the bound: number of wings, segments, control surfaces, symmetry, cut positions, panel counts",
  "Tests do not look at bookkeeping; a wrong association only misplaces loads.",
  ["aero/vlm.py", "objects/vlm_struct.py", "objects/objecttools.py"],
  [("panel count and bookkeeping", "aero/vlm.py"), ("bookkeeping lists", "objects/vlm_struct.py")], ["bookkeeping entries and arrays handed to lattice generation"])

p("C15", "Deflections and camber rotate exactly the right normals",
  "Deflecting a control surface rotates the normals of exactly its own panels, on the original side by its deflection and on the mirrored side by its mirror deflection, about its hinge line on that side; camber then rotates each panel's normal by the camber-line angle of the local profile at its collocation point about the in-plane axis perpendicular to the inner chord line (on the mirrored side: of the image of that line; wings without symmetry or mirrored in the xy- or xz-plane). All normals keep unit length, zero angles leave them unchanged, the geometry of the panels is not modified, and disabling normal rotations leaves all normals as meshed.",
  ["inputs", "configurations"], "all deflections, hinge lines, camber angles and panel shapes within the bound, both sides",
  "Tests never look at normals after deflection.",
  ["aero/vlm.py", "objects/aircraft.py"],
  [("rotation of normals", "aero/vlm.py"), ("hinge and camber axes", "objects/aircraft.py")], ["normal array after lattice generation"])

p("C16", "Automatic panel numbers fill only what the user left open",
  "Automatic discretisation never changes a panel number the user has set on a segment or control surface. Where a number is missing it is set to the configured chordwise default, or for spanwise numbers to the configured number scaled with the segment's share of its wing's span and rounded up, so that afterwards every number is a positive integer and a wing receives at least the configured spanwise number in total.",
  ["inputs", "configurations"], "all span values, default numbers and combinations of set and missing numbers within the bound",
  "Tests use one segment per wing and one setting.",
  ["aero/vlm.py"], [("automatic panelling", "aero/vlm.py")], ["panel numbers of segments and control surfaces"])

p("C17", "Deformation moves exactly the assigned side and nothing else",
  "A deformation loaded from file is assigned to the wing it names, on the original or (for a name with the mirror suffix) on the mirrored side, and no other wing changes; names reserved for other disciplines are ignored. Each strip corner then lies at the deformed position of its undeformed point (reflected first for the mirrored side), a side without a field keeps its undeformed position, and a zero field reproduces the undeformed geometry.",
  ["inputs", "configurations"], "all strip positions, all deformation fields as arbitrary functions of position, all wing names within the bound, all three symmetry planes",
  "No test loads a deformation.",
  ["objects/aircraft.py", "fileio/native/deformation.py"],
  [("deformed point evaluation", "objects/aircraft.py"), ("assignment of deformation fields", "fileio/native/deformation.py")], ["strip corner coordinates"])

p("C18", "Wing measures follow from the geometry",
  "For a segment given by its four corners, span is the length of the leading edge projected on the plane normal to the x-axis, chords are the true edge lengths and area is mean chord times span; wing and aircraft values are the sums over their parts, and the segments' relative positions run gaplessly from zero to one. The characteristic aircraft size is the diagonal of the box that contains the origin, all corners and their mirror images.",
  ["inputs", "configurations"], "all corner coordinates and layouts within the bound, all symmetry planes",
  "Tests never compare derived measures with the geometry.",
  ["objects/aircraft.py"], [("derived geometry", "objects/aircraft.py")], ["span, area, chord, position and size values"])

p("C19", "Flight states are accepted only if complete, consistent and in range",
  "A flight state is accepted only if its airflow is given by exactly one of the documented pairs (airspeed and density, airspeed and altitude, Mach number and altitude), all lists have the same length and all angles lie in [-90, 90] degrees; otherwise an error is raised. On acceptance density and airspeed are those given, or follow from altitude by the standard atmosphere and from Mach number times the local speed of sound, element by element, and all other given values are unchanged.",
  ["inputs", "configurations"], "all combinations of given and missing quantities, all values and list lengths within the bound",
  "Tests load two valid states only.",
  ["objects/state.py"], [("state input", "objects/state.py")], ["stored state or error"])

p("C20", "Each analysed state is one entry of the map, with the right free stream",
  "Iterating over a flight state yields one state per entry, in order, each holding the i-th value of every quantity as a number, unaffected by other entries. Its free stream vector is airspeed times the unit vector (cos a cos b, -sin b, sin a cos b), and it is the direction that the native kernels use for wake, boundary condition and loads.",
  ["inputs"], "all values and numbers of entries within the bound",
  "Tests do not look at individual states.",
  ["objects/state.py", "aero/c_vlm.cpp"], [("state iteration", "objects/state.py"), ("free stream direction", "aero/c_vlm.cpp")], ["yielded states"])

p("C21", "A run reports, for every state, that state's own loads under the right names",
  "In a run over several flight states, the i-th entry of every reported force, moment and coefficient is the value computed for the i-th state, under the documented name, and exactly one entry per state is added. Every state is analysed with the reference values of the aircraft and a lattice, matrix and right-hand side built for that state, and result and plot files of different states go to different places.",
  ["histories", "inputs", "configurations"], "all numbers of states within the bound and all values returned by the individual analysis steps",
  "The tests run a map once and only check completion.",
  ["stdfun/run.py", "objects/state.py"], [("analysis loop", "stdfun/run.py")], ["returned results and calls of the analysis steps"])

p("C22", "Result files contain exactly the computed numbers in the documented layout",
  "The global result file contains state, reference values, forces and coefficients as computed; the panel-wise file has one row per panel and its columns in the order announced by its header; the matrix file has the influence matrix with the right-hand side as last column; the map file has every input and result list. Only the files that are switched on are written, all to the configured places, and nothing in memory is changed by saving.",
  ["inputs", "configurations"], "all values and panel counts within the bound, all combinations of switches",
  "Tests do not read result files back.",
  ["fileio/native/results.py", "fileio/utils.py"], [("result writers", "fileio/native/results.py")], ["written data"])

p("C23", "Saving and loading an aircraft reproduces the model",
  "An aircraft that is written to its native file and read back has the same reference values, wings, symmetry, segments, corners, profiles, panel numbers, control surfaces, deflections and hinge positions as before, and saving does not alter it. This also holds when the project folder, with its profile files, has been moved in between. Optional entries that are missing in a file are treated as not set and do not prevent loading.",
  ["inputs", "configurations"], "all numeric values and all combinations of optional entries within the bound",
  "The only round trip in the tests is the template aircraft and nothing is compared.",
  ["fileio/native/aircraft.py", "objects/aircraft.py"], [("native aircraft file", "fileio/native/aircraft.py")], ["loaded model"])

p("C24", "Settings are complete, type-checked and unchanged by saving",
  "Settings built from any subset of options (aircraft and state given) have every option: the given values where given and the documented defaults elsewhere, independent of other settings objects. A value of the wrong type (the name of the deformation file excepted) or a regularisation value outside (0, 1) is refused, and saving writes all public options but no hidden ones and leaves the settings in memory unchanged, so that loading the file gives the same public options.",
  ["inputs", "configurations"], "all subsets of given options and all values within the bound",
  "Tests only use complete, valid settings files.",
  ["objects/settings.py", "objects/utils.py", "fileio/native/settings.py"], [("defaults and checks", "objects/settings.py"), ("settings file", "fileio/native/settings.py")], ["settings values, written settings"])

p("C25", "Invalid model definitions are refused",
  "Symmetry settings other than 0 to 3, empty or duplicate names of wings, segments and control surfaces, unknown device types, values of a wrong type, deflections outside [-90, 90] degrees, relative positions and hinge positions outside [0, 1], corners and reference points without exactly three coordinates, control surfaces whose outer end is not outboard of their inner end on the same segment, and non-positive reference area, chord or span or panel numbers are all refused with an error. Every definition within these limits is accepted, and a missing mirror deflection on a symmetric wing means the same deflection on both sides.",
  ["inputs", "configurations"], "all numeric values within the bound and all combinations of missing entries",
  "Tests contain only valid models.",
  ["objects/aircraft.py"], [("definition checks", "objects/aircraft.py")], ["acceptance or error"])

p("C26", "CPACS import and export keep the meaning of every number",
  "Imported wing segments have the corners of the CPACS segment, ordered so that the inner edge is inboard of (or, for vertical segments, below) the outer one and both chords point downstream, whenever leading and trailing edge run in the same direction, and each edge has the profile of its own section. Names, symmetry and reference values are those of the document, trailing-edge devices get the chord, span and hinge positions of their own borders, deflections go to the named control surface of whichever wing and state vectors to the quantity they describe. Exported maps write lift, drag, side force and the three moments to their own fields, entry by entry.",
  ["inputs", "configurations"], "all coordinates and values within the bound, with the CPACS libraries replaced by arbitrary answers",
  "CPACS libraries are absent here, so no test can run this code.",
  ["fileio/cpacs/aircraft.py", "fileio/cpacs/state.py", "fileio/cpacs/results.py", "fileio/cpacs/utils.py"], [("CPACS readers and writers", "fileio/cpacs/aircraft.py")], ["imported model and written vectors"])

p("C27", "Plots show the aircraft and the results as they are",
  "Axis limits of every plot contain all corners of all wings including their mirror images, with equal scale on all axes. The geometry plot draws exactly the outlines of all segments, control surfaces and hinge lines, each with its mirror image in the wing's own symmetry plane; the lattice plot draws exactly the outlines of all panels, the control surfaces of an undeformed aircraft and, when asked for, the points of the deformation fields; all views show the same lines. In results plots a panel's colour is the value's position between minimum and maximum (all equal if there is no range), its patch is the bilinear surface through its four corners, and the flow arrow points along the free stream. Exactly the requested plots are made, and saved in the plot folder and shown as requested.",
  ["inputs", "configurations"], "all coordinates and values within the bound, all symmetry planes, all combinations of plot settings",
  "The plotting test only checks that figures can be produced.",
  ["plot/plottools.py", "plot/makeplots.py", "plot/downwash.py"], [("limits, mirrored lines, patches and colours", "plot/plottools.py"), ("selection of plots", "plot/makeplots.py")], ["data handed to the plotting library"])

p("C28", "Cleaning and set-up touch only the project's own generated folders",
  "Cleaning a project removes exactly its generated plot and result folders and nothing else, for every project location and settings name. Creating a template project refuses to do anything if the target folder exists, and otherwise writes only inside it.",
  ["inputs", "configurations", "fault_sequences"], "all project locations, settings names and prior directory contents",
  "Tests clean only their own fresh project.",
  ["objects/settings.py", "stdfun/setup.py", "stdfun/run.py"], [("project paths", "objects/settings.py"), ("template creation", "stdfun/setup.py")], ["directories removed and created"])

p("C29", "Every segment is divided into the requested spanwise strips",
  "Preparing the mesh divides every wing segment with n spanwise panels at all the positions k/n of its span and at the ends of the control surfaces on it, each segment by its own number. A position is left out only where it lies less than one percent of the span outboard of another cut; nothing else is cut, the strips cover the segment without gap or overlap, every strip becomes its own entry of the mesh, and preparing the mesh again changes nothing.",
  ["inputs", "configurations"], "all numbers of strips and positions of control surfaces within the bound, wings with several segments",
  "Tests mesh a few wings with small numbers of strips and compare total loads with wide tolerances.",
  ["aero/vlm.py", "objects/aircraft.py"], [("spanwise subdivisions", "aero/vlm.py"), ("division lines", "objects/aircraft.py")], ["division lines of every segment after mesh preparation"])

p("C30", "Mirroring a case mirrors its results",
  "For an aircraft that is symmetric to its xz-plane, the lattice in the mirrored flow (sideslip, roll and yaw rates reversed, deflections of the two sides exchanged) is the mirror image of the lattice in the original flow (panels, horseshoes, control points, normals with deflections and camber), and so are matrix, right-hand side, velocities and loads: forces and moments of mirrored states are mirrored. In particular a symmetric aircraft in symmetric flow has no side force and no rolling and yawing moment. A wing described on the other side of the plane gives the mirrored lattice.",
  ["inputs", "configurations"], "all shapes, states, deflections and camber angles within the bound",
  "Tests analyse symmetric aircraft for a few states and look at the main coefficients only, with wide tolerances.",
  ["aero/vlm.py", "objects/aircraft.py", "aero/c_lattice.cpp", "aero/c_downwash.cpp", "aero/c_boundary.cpp", "aero/c_results.cpp"],
  [("mirrored surface parts", "objects/aircraft.py"), ("normal rotations", "aero/vlm.py")], ["lattices, matrices and loads of mirrored cases"])

p("C31", "Results depend neither on the origin nor on how the aircraft is described",
  "Moving an aircraft together with its centre of gravity and reference point moves its lattice and changes neither the linear system nor any load. Listing wings or the segments of a wing in another order, or dividing a segment at its panel borders into several segments, gives the same panels, and permuted panels have permuted results and the same totals. Multiplying airspeed and rates by a factor multiplies the right-hand side and velocities by it and forces by its square, multiplying the density multiplies forces, and neither changes the coefficients.",
  ["inputs", "configurations"], "all shapes, displacements, factors and states within the bound",
  "Tests analyse each aircraft as it is described in one file only.",
  ["aero/vlm.py", "objects/aircraft.py", "objects/objecttools.py", "aero/c_lattice.cpp", "aero/c_downwash.cpp", "aero/c_boundary.cpp", "aero/c_results.cpp"],
  [("lattice generation", "aero/vlm.py"), ("kernels", "aero/c_vlm.cpp")], ["lattices, matrices and loads of equivalent cases"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fp:
    for e in P: fp.write(json.dumps(e) + "\n")
print(len(P))
