import json, os
T="The 15 tests build a handful of default mats (one seed, one size) and check columns, lengths or one printed table; "
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[os.path.normpath("src/fibermat/"+f) for f in files],state=[dict(name=a,meaning=b,where="src/fibermat/"+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=os.path.normpath("src/fibermat/"+b)) for a,b in mech],observe_at=obs or [],hook_needed=None)))
p("C01","Generated fiber sets comply with the requested parameters",
 "A generated set holds exactly the requested number of fibers, all with the requested length, width, thickness and moduli, centred inside the box of the requested size in all three directions, labelled 0..n-1 and ordered by height. Every orientation is a unit vector whose in-plane angle lies within half the requested in-plane range and whose elevation lies within half the requested out-of-plane range. Positions and angles are spread over the whole allowed range and are mutually independent.",
 ["inputs","configurations"],"all n >= 0, all positive dimensions, moduli (including infinite), box sizes, angular ranges and seeds",
 T+"no test varies the angular ranges, the box size or the moduli.",["mat.py"],[("random generation","mat.py:Mat.init")],None,["Mat(...)"])
p("C02","Same parameters and seed give the same fiber set, different seeds differ",
 "Generating a fiber set twice with the same parameters and seed gives bit-identical data, whatever random numbers were drawn or fiber sets, networks or simulations were computed in between. Different seeds give different sets. Changing only dimensions or moduli does not change positions (other than by the box scale) or orientations.",
 ["inputs","histories"],"all parameters and seeds, all histories of earlier calls and of other users of the global random generator",
 T+"each is a single call in a fresh state.",["mat.py"],[("seeding","mat.py:Mat.init")],[("global random state","shared by every call in the process","mat.py:Mat.init")],["Mat(...) interleaved with other calls"])
p("C03","Ill-defined fiber sets raise the documented error, valid ones are accepted",
 "A fiber table with a missing column, a missing global attribute, a wrong fiber count, bad or unsorted labels, a non-positive or undefined dimension or modulus, a position outside the box, or a non-unit direction is refused with the documented exception class for that defect, by the constructor, by the explicit check and by every stage that takes a fiber set. Every table free of those defects is accepted unchanged, wherever the single bad value sits and whatever the rest holds. The documented skip flag, and nothing else, disables the check.",
 ["inputs"],"all valid fiber tables x all single documented defects x all positions of the defect",
 "The tests only check that default objects pass; no test feeds a defective table.",["mat.py","net.py","mesh.py","model.py","render.py"],[("validation","mat.py:Mat.check")],None,["Mat(df)","Mat.check(df)","Net(df)","vtk_mat(df)"])
p("C04","Ill-defined networks, stacks and meshes are rejected with the documented error",
 "A network, stack or mesh table with a missing column or attribute, wrong or unsorted row labels, non-integer labels, labels out of range, duplicate or unordered connections, unsorted nodes, broken element chains, non-reciprocal connections or connected end nodes is refused with the documented exception class, by the constructor, by the explicit check and by every later stage that takes it. Every table produced by the library from valid input, also with several different connections between the same two fibers added, is accepted again, unchanged, by its own constructor and check.",
 ["inputs"],"all valid networks/stacks/meshes x all single documented defects x all rows where the defect can sit",
 "The tests only check that default objects pass; no test feeds a defective table.",["net.py","mesh.py"],[("validation","net.py:Net.check"),("validation","mesh.py:Mesh.check")],None,["Net(df)","Stack(df)","Mesh(df)"," *.check(df)"])
p("C05","Without periodicity the network has exactly the pairs of fibers that cross",
 "In a non-periodic network built from in-plane fibers, two distinct fibers are connected if and only if the two finite segments cross in plan view, each pair at most once and with the lower label first, whatever the lengths, heights, labels or order of fibers. Every fiber has exactly one additional end-point row, and there are no other rows. For fibers inclined out of the plane the same holds with the points of closest approach of the two lines, for fibers whose centres are nearer in plan than their mean length.",
 ["inputs"],"all sets of fibers in general position (crossings not exactly at a fiber end)",
 T+"no test compares the network with an independent geometric computation, nor uses unequal lengths.",["net.py"],[("neighbourhood filter, projection and end test","net.py:Net.init")],None,["Net(mat, periodic=False)"])
p("C06","With periodicity the network has exactly the crossings through the box faces",
 "In a periodic network of in-plane fibers not longer than the box, two distinct fibers are connected if and only if the first crosses the second or one of the eight neighbouring periodic images of it, and at most once. The recorded abscissae are those of such a crossing.",
 ["inputs","configurations"],"all sets of fibers with length <= box size in general position, including fibers near every face and corner",
 T+"no test checks which image connections exist, in particular at corners.",["net.py"],[("duplication along x, y and corners","net.py:Net.init")],None,["Net(mat, periodic=True)"])
p("C07","Connection nodes lie on their fibers at the points of closest approach",
 "For every connection the recorded coordinates are the centre of the recorded fiber plus the recorded abscissa times its direction, with an abscissa strictly inside the fiber; the two nodes are the points of closest approach of the two lines, up to a periodic shift. End-point rows hold plus and minus half the fiber length. Connections requested explicitly are searched only among the requested pairs, with the same result as the full search gives for them.",
 ["inputs","configurations"],"all fiber sets (planar or inclined, periodic or not) and all explicit pair lists",
 T+"abscissae are only compared with one printed table of rounded values.",["net.py"],[("projection","net.py:Net.init")],None,["Net(mat, periodic, pairs)"])
p("C08","The network does not depend on labels, axes or the origin of the box",
 "Relabelling the fibers, exchanging or mirroring the axes, reversing directions, and (without periodicity) moving or rotating all fibers together, or (with periodicity) shifting all fibers and wrapping them around the box, leave the set of connected pairs unchanged, up to the relabelling. The abscissae of direct crossings follow the transformation.",
 ["inputs","histories"],"all fiber sets in general position x all such transformations",
 T+"no test builds the same set twice in two frames.",["net.py"],[("pair search","net.py:Net.init")],None,["Net(mat) vs Net(transformed mat)"])
p("C09","Stacked fibers never penetrate each other or the floor",
 "After stacking, every connected pair is separated vertically by at least half the sum of the two thicknesses with the higher label on top, and every fiber lies at least half its thickness above the floor, whatever the initial heights, thicknesses and network. The heights recorded in the stack, those written back to the fiber set and those of the mesh built from it are the same.",
 ["inputs","configurations"],"all fiber sets (unequal thicknesses, any initial heights, any network including explicit pair lists) and thresholds",
 T+"two tests check monotone z on uniform thickness only.",["net.py","mesh.py"],[("linear program","net.py:Stack.solve"),("write back","net.py:Stack.init")],[("mat.z","fiber heights, updated in place by stacking","net.py:Stack.init")],["Stack(mat, net)"])
p("C10","Each stacked fiber rests as low as its supports allow",
 "After stacking, every fiber is exactly at the lowest height allowed by the floor and the fibers under it: it touches the floor or touches some connected fiber with a lower label. The heights depend only on thicknesses and connections, not on initial heights, lengths, widths or moduli, and stacking an already stacked set changes nothing.",
 ["inputs"],"all fiber sets and networks",
 T+"no test computes the expected heights.",["net.py"],[("linear program","net.py:Stack.solve"),("weights and distances","net.py:Stack.constraint")],None,["Stack(mat, net)","Stack.solve(mat, net)"])
p("C11","Stacking keeps the given connections; a threshold only removes distant ones",
 "A stack holds exactly the connections of the network it was given, with the same pairs, abscissae and plan coordinates, or, when a threshold is given, exactly those whose vertical node distance after stacking does not exceed the threshold plus all end-point rows, relabelled 0..m-1 in the same order. Neither the threshold nor the periodicity of the network changes the stacked heights, and attributes are carried over.",
 ["inputs","configurations"],"all networks (including filtered ones and explicit pair lists) and all thresholds including 0 and infinity",
 T+"one threshold value is used on one mat and only its row count is looked at.",["net.py"],[("threshold mask","net.py:Stack.init")],None,["Stack(mat, net, threshold)"])
p("C12","Stacking balances weights: the floor carries the whole weight of the mat",
 "The stacking program weighs every fiber by the volume of its elliptic section times its length and has exactly one separation condition per connected pair. In its solution, contact and floor reactions are non-negative, act only on touching fibers, balance every fiber's weight, and sum over the floor to the total weight.",
 ["inputs"],"all fiber sets and networks",
 "No test looks at the program or its multipliers.",["net.py"],[("weights and distances","net.py:Stack.constraint"),("linear program","net.py:Stack.solve")],None,["Stack.constraint(mat, net)","Stack.solve(mat, net)"])
p("C13","Meshing conserves the network: each connection becomes one reciprocal node pair",
 "A mesh has exactly two nodes per network row, each carrying the fiber, abscissa and coordinates recorded in that row. Nodes of a connection between two fibers designate each other, nodes of end-point rows designate themselves, and every node belongs to exactly one row, even when several nodes of a fiber coincide or rows come in another order.",
 ["inputs"],"all networks and stacks, including coincident nodes, parallel fibers, shuffled rows and isolated fibers",
 T+"one default mesh is checked for column names and size.",["mesh.py"],[("constraint relabelling","mesh.py:Mesh.init")],None,["Mesh(net)","Mesh(stack)"])
p("C14","Each fiber is meshed as one ordered chain from end to end",
 "Mesh nodes are grouped by fiber in label order and sorted by abscissa; following the element link visits all nodes of a fiber once, in order, and returns to the first. The first and last node of each fiber are its end points at minus and plus half the length, unconnected; element lengths are non-negative and sum to the fiber length, and equal the distance between the end coordinates.",
 ["inputs"],"all networks and stacks",
 T+"no test follows the chains.",["mesh.py"],[("ordering and links","mesh.py:Mesh.init")],None,["Mesh(net)"])
p("C15","The stiffness matrix is the assembled documented beam stiffness",
 "The stiffness matrix equals the sum of one documented two-node beam element per intra-fiber element, with the element's rescaled length and its fiber's section and moduli; it is symmetric positive semi-definite, couples no two fibers, gives no force for a uniform vertical displacement or (without coupling reduction or rescaling) a rigid tilt. The length bounds map element lengths affinely onto the requested interval and the coupling factor multiplies only the displacement-rotation terms.",
 ["inputs","configurations"],"all meshes with positive element lengths, heterogeneous sections and moduli (finite or infinite), length bounds and coupling factors in [0, 1]",
 "Three doctests check a single one-element beam; no test assembles several elements or fibers.",["model.py"],[("assembly","model.py:stiffness")],None,["stiffness(mat, mesh, lmin, lmax, coupling)"])
p("C16","The constraint system states floor, contact and wall distances of all node pairs",
 "The constraint system has one floor, one contact and one wall row per node pair, whose bounds are the current clearances: of the lower node to the floor, between the two surfaces, and of the upper node to the top of the highest fiber; end nodes have an infinite contact clearance and only wall clearances shrink as the wall moves. For every displacement of the nodes the system is satisfied exactly when no node pair penetrates, leaves the floor or crosses the wall, and a stacked mesh satisfies it at rest with contact force equal and opposite on the two nodes.",
 ["inputs"],"all stacked meshes with unequal thicknesses, and all displacements",
 "No test covers the constraint system.",["model.py"],[("assembly","model.py:constraint")],None,["constraint(mat, mesh)"])
p("C17","Along the whole compaction no fibers penetrate and none crosses floor or wall",
 "At every pseudo-time of the returned solution, connected nodes keep at least half the sum of thicknesses between them, every node stays at least half its fiber's thickness above the floor, and every node stays below the moving wall by half its thickness, within the contact tolerance. The returned bounds, wall position and displacements are mutually consistent with the geometry at every time.",
 ["inputs","configurations"],"all feasible stacked meshes, moduli, length bounds, coupling factors, packing targets, resampling sizes, and all pseudo-times",
 "No test runs the solver.",["solver.py","model.py"],[("next contact step","solver.py:solve")],[("x, q","current unknowns and bounds, updated in place","solver.py:solve")],["solve(...) -> u, H, Z, rlambda at every time"])
p("C18","The mat is in equilibrium at every step; floor reaction equals wall force",
 "At every stored step, internal elastic forces and contact forces balance on every free degree of freedom, the contact forces are those of the returned force vector, and no external load acts. Consequently the sum of floor reactions equals the sum of wall forces for every connected fiber set and every time, and the reported numerical error is the residual and stays below the requested tolerance.",
 ["inputs","configurations"],"all feasible stacked meshes with finite or infinite tensile modulus, all times",
 "No test runs the solver.",["solver.py","model.py"],[("incremental linear system","solver.py:solve")],None,["solve(...) -> K, C, u, f, F, err"])
p("C19","Contact forces act only on closed contacts and the press only pushes",
 "At every time a contact, floor or wall force is non-zero only where the corresponding clearance is zero within tolerance, and every such force is compressive. The total force exerted by the wall is compressive and never decreases during compaction, and no node is displaced above its initial position.",
 ["inputs","configurations"],"all feasible stacked meshes and all times",
 "No test runs the solver.",["solver.py"],[("active set","solver.py:solve")],None,["solve(...) -> u, f, H, mask at every time"])
p("C20","Compaction progresses by contact events and always stops as documented",
 "The wall strictly descends at every step, each step ends exactly when at least one new contact, floor or wall condition closes, closed ones stay closed, and the reported compaction is the initial height divided by the current one. The run never needs more linear solves than the iteration limit and ends for one of the documented reasons: target reached, iteration limit, or a jammed or inaccurate system, without losing the steps already computed. Raising the target or the limit only extends the history: the earlier steps are identical.",
 ["inputs","configurations","histories"],"all feasible stacked meshes, packing targets (below, equal to or above 1), iteration limits (including 0) and tolerances",
 "No test runs the solver.",["solver.py"],[("main loop","solver.py:solve")],None,["solve(..., solve=recording callback)"])
p("C21","Results do not depend on permutation, linear solver, verbosity or resampling",
 "Passing a permutation of the unknowns, another exact linear solver, verbosity off, or a resampling size does not change the computed displacements, wall positions, total wall force or number of steps beyond rounding. Repeating a run gives the same result, and the user's linear solver only ever sees symmetric systems restricted to the active unknowns.",
 ["inputs","configurations","schedules"],"all feasible stacked meshes with regular systems (coupling below 1 where the tensile modulus is finite) x all permutations and exact solvers",
 "No test runs the solver.",["solver.py"],[("permuted sub-system","solver.py:solve")],None,["solve(..., perm, solve, verbose, interp_size)"])
p("C22","Interpolated results reproduce their samples and stay between them",
 "An interpolated result returns exactly the stored samples at their pseudo-times, for any array shape, number of samples (one included; four for smooth ones), and any kind (step, linear or smooth), with the original data type (integers are rounded to nearest). Between samples a linear result is the weighted mean and a step result is the earlier sample; components that never change keep their exact value, infinite ones included, and no call returns undefined values. Resampling keeps the first and last sample.",
 ["inputs"],"all sample arrays, sizes, kinds and query times in [0, 1], scalar or array",
 "No test covers interpolation.",["interpolation.py"],[("interpolation","interpolation.py:Interpolate")],None,["Interpolate(y, size, kind)(t)"])
p("C23","Resampled and full solver histories describe the same compaction",
 "Solver results start from rest (no displacement, no force, compaction 1, wall on the highest fiber) and end at the last computed step whatever the resampling size; resampled displacements, forces, bounds and wall position coincide with the full history at every common pseudo-time. Compaction, active set and numerical error are reported for every computed step.",
 ["inputs","configurations"],"all feasible stacked meshes and resampling sizes >= 2, all pseudo-times",
 "No test runs the solver.",["solver.py","interpolation.py"],[("storage and resampling","solver.py:solve")],None,["solve(..., interp_size)"])
p("C24","Exported fibers have the exact position, orientation and size of the fibers",
 "The exported geometry of a fiber fills the elliptic cylinder with the fiber's length along its direction, its width horizontally and its thickness across, centred on the fiber, for any direction including vertical; no exported point lies outside it. The export of a set has one such body per fiber, in order, each labelled with its fiber and its own dimensions, direction and moduli, local coordinates consistent with the points, for any resolution, and user callbacks see each fiber once.",
 ["inputs","configurations"],"all fiber sets and resolutions",
 "No test covers rendering.",["render.py"],[("cylinder construction","render.py:vtk_fiber"),("assembly","render.py:vtk_mat")],None,["vtk_fiber(...)","vtk_mat(mat, func)"])
p("C25","Exported meshes carry the nodal fields: deformed position, rotation and force",
 "In an exported mesh every point is the fiber's point moved vertically by the exported displacement, which equals the nodal value at nodes and follows the cubic beam shape of nodal values and rotations in between; a displacement that is linear along each fiber with the matching rotation is exported as exactly linear, with that rotation and no curvature. Forces equal the nodal values at nodes; fields of one fiber never leak into another, even when nodes coincide.",
 ["inputs","configurations"],"all stacked meshes and all nodal fields",
 "No test covers rendering.",["render.py"],[("field interpolation","render.py:vtk_mesh")],None,["vtk_mesh(mat, mesh, displacement, rotation, force)"])
p("C26","Periodic exports show every periodic image inside the window, and only those",
 "The export of a periodic mesh consists of the fibers and their eight neighbouring images, translated by exactly the box size with fields unchanged, cut to the window of twice the box size; no part of any image inside the window is missing and nothing lies outside it. A non-periodic export shows each fiber once, uncut.",
 ["inputs","configurations"],"all stacked meshes of fibers not longer than the box, periodic or not, with or without fields",
 "No test covers rendering.",["render.py"],[("duplication and clipping","render.py:vtk_mesh")],None,["vtk_mesh(mat, mesh, ...)"])
p("C27","Notebook settings give back exactly what was set and drive the same simulation",
 "Each parameter set in the settings panel, at construction, by item or by call, is read back with the same value (the in-plane angle in radians for a share of pi; unset or infinite options as unset or infinite, however infinity is expressed), independently of the others and of the order of assignments, and switching an option off and on restores its value. Unpacking the panel lists every parameter once, and a pipeline driven by it gives the same result as one driven by the plain values.",
 ["inputs","histories"],"all parameter values and all sequences of assignments",
 "No test covers the settings panel.",["widgets.py"],[("getters and setters","widgets.py:Settings")],None,["Settings(**values)","settings[name]","settings(**values)","f(**settings)"])
p("C28","Stages do not modify or share their inputs, apart from the documented updates",
 "Building networks, stacks and meshes, assembling matrices, solving, exporting and plotting leave every argument unchanged, except that stacking updates fiber heights and assembling constraints adds the thickness to the mesh. Networks, stacks, meshes, matrices, results and exports share no data with the objects they are built from, and no two tables share attributes (tables converted from tables share data only as pandas documents): later changes of one never show in another. Repeating any stage on the same input gives an identical result, whatever was called in between.",
 ["inputs","histories"],"all pipelines and all later modifications of any object",
 "No test compares inputs before and after a call.",["mat.py","net.py","mesh.py","model.py","solver.py","render.py"],[("copies in constructors","mat.py:Mat.__init__"),("copies in constructors","net.py:Net.__init__"),("copies in constructors","mesh.py:Mesh.__init__")],None,["snapshots before and after every public call"])
p("C29","Every stage accepts empty, missing and minimal inputs, with consistent results",
 "Omitted arguments mean an empty fiber set, network, stack or mesh, and each stage up to the matrices and exports maps empty to empty with all columns and attributes present; sets with a single fiber, isolated fibers or no crossing go through the whole pipeline up to the solver and export. The attributes for fiber count, box size and periodicity at every stage are those of the original call.",
 ["inputs","configurations"],"all stages x empty, omitted, one-fiber and unconnected inputs x option combinations",
 "Tests cover empty sets up to the mesh; nothing checks one-fiber or unconnected sets, the solver or the export.",["mat.py","net.py","mesh.py","solver.py","render.py"],[("optional arguments","net.py:Net.init"),("optional arguments","mesh.py:Mesh.init")],None,["the pipeline"])
p("C30","Results scale consistently with the unit of length and the unit of stress",
 "Multiplying all lengths (fibers, box, positions, threshold, length bounds, tolerance) by a factor multiplies network abscissae, stacked heights, wall positions and displacements by that factor and leaves pairs, compaction and rotations unchanged. Multiplying all moduli by a factor multiplies stiffness and contact forces by that factor and leaves the kinematics unchanged; forces follow the square of the length factor.",
 ["inputs","configurations"],"all fiber sets with regular systems and factors over several decades, tolerances converted as well",
 "No test runs the same case in two units.",["mat.py","net.py","mesh.py","model.py","solver.py"],[("whole pipeline","solver.py:solve")],None,["pipelines run in two unit systems"])
p("C31","The system diagnostic plots the given system and reports its true residual",
 "The diagnostic view of a system shows each entry of the stiffness and constraint matrices in its category (stiffness, contact, floor, wall or inactive according to which clearances are zero), solves the linear step of the active constraints and reports its residual norm, and does so for any permutation and any exact solver. It modifies none of its arguments and draws on the axes it is given.",
 ["inputs","configurations"],"all assembled systems, permutations and solvers",
 "No test covers the diagnostic.",["model.py"],[("diagnostic","model.py:plot_system")],None,["plot_system(...)"])
p("C32","The compaction does not depend on the in-plane frame nor on fiber senses",
 "Mirroring the set, exchanging the in-plane axes, reversing fiber directions, moving or rotating it rigidly in the plane (not periodic) or shifting it periodically with wrapping (periodic) changes neither the stacked heights, nor the stiffness of each element, nor the simulated compaction: wall path, displacements at every contact, contact forces and reached compaction are the same, and rotations only change sign with the sense of their fiber.",
 ["inputs","configurations"],"all fiber sets without overlapping parallel fibers, regular systems, all compositions of these changes of frame",
 "No test runs the same set in two frames.",["net.py","mesh.py","model.py","solver.py"],[("whole pipeline","solver.py:solve")],None,["pipelines run in two frames"])
p("C33","Notebook buttons do what they say and show what happened",
 "Each click of the install button runs one installation of exactly the packages it names (by their distribution names) with the given options; on success it says so and shows every package with the version reported by the module it is imported as, on failure it says so and shows no version. The plot-mode button alternates between the inline and window modes, and its label and value always name the mode it last activated. Nothing happens before a click, and buttons do not affect each other.",
 ["inputs","fault_sequences","histories"],"all package lists and options, all outcomes of the installation, all sequences of clicks of any number of buttons",
 "No test covers the buttons.",["../../widgets.py"],[("install button","../../widgets.py:PipButton"),("mode button","../../widgets.py:MatplotlibButton")],None,["PipButton(*packages, **names)","MatplotlibButton()","click"])
p("C34","Verbosity only decides what is shown, and the progress shown is true",
 "Without verbosity, building, solving and exporting print nothing and announce nothing, even when the linear solver fails or loses accuracy. With it, the progress bar of the solver ends on the number of steps performed out of the iteration limit and on the packing reached, those of the exports on the number of fibers, and a failed linear solve is announced once by a warning, while a run that ends at its target or limit announces nothing. Results are the same in both cases.",
 ["inputs","fault_sequences"],"all feasible stacked meshes, iteration limits, linear solvers failing or losing accuracy at any step, exports with or without fields",
 "No test looks at what is printed.",["solver.py","render.py"],[("progress and warnings","solver.py:solve"),("progress","render.py:vtk_mat")],None,["solve(..., verbose)","vtk_mat(..., verbose)","vtk_mesh(..., verbose)"])
p("C35","An export written to a file and read back is the same",
 "Exported sets and meshes carry fiber label, dimensions, local coordinates, direction and moduli (and displacement, rotation, curvature and force when given, and the fields of user callbacks) as real numbers, one value or vector per point. Saved in a binary VTK file, legacy or XML, and read back, an exported fiber, set or mesh has the same points, cells and fields, infinite moduli included.",
 ["inputs","configurations"],"all fiber sets and meshes, periodic or not, with or without fields, any resolution",
 "No test covers rendering.",["render.py"],[("fields","render.py:vtk_fiber"),("export","render.py:vtk_mesh")],None,["vtk_fiber(...).save(file)","vtk_mat(...).save(file)","vtk_mesh(...).save(file)"])
p("C36","The shipped programs, examples and tutorial run and show what they computed",
 "The main example, the scripts, the demonstration of every module, the examples of the README, of the documentation pages and of the docstrings, and the tutorial notebook (whatever values the user chose in its settings panel) run to the end from an empty working directory. Figures show exactly the fibers, elements and connections of the objects they are made from; the body shown and the file saved under outputs/ are the final state of the compaction just computed (final displacements, rotations and nodal forces); the systems they diagnose are solved; and the examples with a documented output print that output.",
 ["inputs","configurations"],"all shipped programs and examples, all settings of the tutorial (with at least one connection)",
 "No test runs any of them.",["../../main.py","../../jupyter-notebook.ipynb","model.py","net.py","mesh.py"],[("main example","../../main.py"),("tutorial","../../jupyter-notebook.ipynb"),("scripts","../../scripts/square.py")],None,["python main.py","python -m fibermat.<module>","cells of the notebook"])
p("C37","Results depend on what tables and options say, not on how they are written",
 "Every stage, the solver and the exports give the same result when a table is written down otherwise (columns in another order, additional columns of any kind, a plain DataFrame with the same attributes, a copy, a pickled and reloaded table, a table read from a text file, another memory layout, whole numbers as integers), when options are given by position, by name or as NumPy scalars, when unknown options are added, or in another process with another hash seed, language and time zone. Copied or reloaded tables and results are equal to the original and remain valid.",
 ["inputs","configurations"],"all pipelines and all ways of writing down their tables and options",
 "Tests use tables as the constructors made them, in one process.",["net.py","mesh.py","model.py","solver.py","render.py","interpolation.py"],[("columns by name","net.py:Net.init"),("options","solver.py:solve")],None,["Net(mat)","Stack(mat, net)","Mesh(stack)","solve(mat, mesh)","vtk_mesh(mat, mesh)"])
p("C38","A call that fails or is interrupted leaves no trace, settings stay as they were",
 "A call that ends early (an interruption at any executed line, memory exhausted, a user function that raises, an input that is refused) propagates the exception, keeps all inputs as they were (documented updates, the heights given by stacking and the thicknesses given to nodes, happen entirely or not at all), and later calls give the results they would have given without it. No call, early or complete, nor the import of the library, changes process-wide settings: warning filters, floating-point error handling, printing, plotting and export options, figures, open files, streams, environment, directory, signal handlers and random generators (except the documented seeding by fiber generation).",
 ["inputs","crash_points","histories"],"all pipelines, all stages and all executed lines of the library as points of interruption (cleanup code excepted)",
 "Tests only run calls to their end and look at nothing else.",["net.py","model.py","solver.py","render.py","mesh.py"],[("documented updates","net.py:Stack.init"),("documented updates","model.py:constraint"),("warnings","solver.py:solve")],None,["every public call","the call after an interrupted one"])
p("C39","Pipelines running in several threads do not influence each other",
 "Several threads of one process may build, stack, mesh, assemble, solve, interpolate and export different fiber sets at the same time, and read the same tables and results at the same time: whatever the interleaving of their steps, each obtains exactly the result it obtains alone, no call fails because of another, and shared inputs stay as they were.",
 ["inputs","schedules"],"all pairs or groups of pipelines on different tables, all interleavings of their executed lines",
 "Tests run one pipeline in one thread.",["net.py","mesh.py","model.py","solver.py","render.py","interpolation.py"],[("network","net.py:Net.init"),("solver","solver.py:solve"),("export","render.py:vtk_mesh")],None,["every public call, from several threads"])
p("C40","A set compacts the same in a supercell, next to distant copies or bystanders",
 "The compaction of a periodic set does not depend on how many periods the box contains: in a supercell each copy of a fiber has the same height, contacts, nodes, stiffness, displacements and contact forces at the same compaction, and the wall force is multiplied by the number of copies. The same holds, without periodicity, for distant copies of a set, and a fiber that crosses no other one, wherever and however stiff it is, carries nothing and changes nothing.",
 ["inputs"],"all stackable fiber sets, periodic or not, any number of periods, copies and isolated fibers, all options",
 "No test compares two sets of different sizes.",["net.py","mesh.py","model.py","solver.py"],[("periods","net.py:Net.init"),("heights","net.py:Stack.solve"),("whole pipeline","solver.py:solve")],None,["pipelines run on a set and on its supercell"])
p("C41","The work of the press is stored in the beams; the mat never softens",
 "Contacts hold without friction or loss: at every compaction, at steps and between them, the work done by the press from rest (its force integrated over its position) equals the elastic energy 1/2 u.K.u of the beams, and no fiber stores negative energy. As contacts close and none is released, the force of the press starts at zero and never decreases, and its slope, the tangent stiffness of the mat, never decreases either.",
 ["inputs"],"all feasible stacked meshes, all times, linear systems that are not singular",
 "No test looks at forces along a compaction.",["solver.py","model.py"],[("steps","solver.py:solve"),("contacts","solver.py:solve")],None,["solve(mat, mesh) evaluated at any time"])
p("C42","Targets, limits and tolerances only decide where a compaction stops",
 "A run with a lower target, a smaller iteration limit or another error tolerance takes the same steps as a longer run (same displacements, forces, bounds, wall, active sets and errors) and ends at the first state that reaches its target, its limit or a step beyond its error tolerance; resampling changes neither its length nor its ends; and the contact tolerance changes the path by no more than tolerances.",
 ["inputs","configurations"],"all feasible stacked meshes, all targets, limits, tolerances and resampling sizes",
 "Tests run one target and one limit.",["solver.py"],[("loop","solver.py:solve"),("stopping criteria","solver.py:solve")],None,["solve(..., packing, itermax, tol, errtol, interp_size)"])
p("C43","Omitted options have their documented values, each option reaches its stage",
 "Leaving any set of options out of any public call gives the same result, prints, progress and warnings as giving their documented default values. One dictionary of options can be given to every stage: each uses its own options and no other, generation options given later do not alter an existing set, and options given to the solver or to an export reach the stiffness and the fibers they belong to.",
 ["inputs","configurations"],"all public calls, all subsets of their options",
 "Tests use few options and compare no defaults.",["mat.py","net.py","mesh.py","model.py","solver.py","render.py","interpolation.py"],[("options","solver.py:solve"),("options","model.py:stiffness"),("options","render.py:vtk_fiber")],None,["every public call with and without each option"])
p("C44","A compaction resumed from its deformed mesh goes on as if not interrupted",
 "Adding the displacements reached by a compaction to the heights of its nodes, at its end or at any time of it, gives a valid mesh whose stated distances to the floor, between fibers and to the wall are those at which the run stopped, with the same stiffness and contacts. Solving again from there continues the compaction: the wall starts where it stopped, and displacements and forces added to those reached before are those of the uninterrupted run, whatever the number of parts and the way each was ended.",
 ["inputs","histories"],"all feasible stacked meshes, all numbers and times of interruption, linear systems that are not singular",
 "Tests solve undeformed meshes once.",["solver.py","model.py","mesh.py"],[("initial wall","solver.py:solve"),("distances","model.py:constraint")],None,["solve(mat, mesh); mesh.z += u(t)[::2]; constraint(mat, mesh); solve(mat, mesh)"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(q,ensure_ascii=False)+"\n" for q in P))
print(len(P))
