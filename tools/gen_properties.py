import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

BASE="The tests that run here only exercise material constants and physical constants; "
p("C01","A run lands exactly on the final time, one bounded step at a time",
 "Running a simulation advances the time from 0 to the requested final time and stops there: every step is the selected time step except that the last one is shortened so that the final time is hit and never passed (up to rounding), with no empty or repeated step. The number of steps, the fields' time argument in every right-hand-side evaluation and the time reported to the user all follow that one clock, for any time step, final time, integrator and number of separate step/run calls.",
 ["inputs","configurations","histories"],"all time steps, final times, time integrators, and any interleaving of single steps and full runs",
 BASE+"the solver tests upstream use a handful of (step, final time) pairs and look only at final fields.",
 ["src/solver/Solver.cpp","src/solver/Solver.h","src/solver/SolverOptions.h"],
 [("clamped last step and stop criterion","Solver::run, Solver::step")],
 [("time","current simulation time","Solver::time_"),("dt","selected time step","Solver::dt_")],
 ["Solver::run","Solver::step","Solver::getTime"])
p("C02","Every probe records exactly when its schedule says, and always at the end",
 "Each probe (point, field, near-field, visualisation, domain snapshot, surface export) records the state at the initial time, at every multiple of its interval counted in steps, and once at the final time, and at no other moment. An interval may be given as a number of steps or as a number of saves; in the latter case it is derived from the run's actual number of steps and is never below one. Each record carries the time and the field values of the state it was taken from.",
 ["configurations","histories"],"all probe kinds, intervals, numbers of saves, step counts and final times",
 BASE+"upstream tests check one probe frequency at a time and never the whole record schedule.",
 ["src/solver/ProbesManager.cpp","src/solver/ProbesManager.h","src/components/Probes.h","src/components/RCSSurfaceExporter.cpp"],
 [("cycle counter modulo interval, plus final-time record","ProbesManager::updateProbes and the updateProbe overloads"),("interval from saves","ProbesManager::recalculateExportSteps")],
 [("cycle","number of updates so far","ProbesManager::cycle_")],
 ["files written under Exports/","FieldProbe/PointProbe movies"])
p("C03","Model-order-reduction snapshots stay in their window, ordered and bounded",
 "A model-order-reduction snapshot probe writes at most the requested number of state snapshots, none before its start time nor after its end time, in time order and each for a different state. The k-th snapshot is taken at the first step whose time reaches the k-th of the equally spaced instants between start and end, and it contains the complete state at that step.",
 ["configurations","histories"],"all start/end windows, numbers of saves and step grids",
 BASE+"no upstream test looks at the snapshot schedule of this probe for more than one configuration.",
 ["src/solver/ProbesManager.cpp","src/components/Probes.h"],
 [("window and next-save bookkeeping","ProbesManager::updateProbe(MORStateProbe)")],
 [("next save","index and time of next snapshot","MORStateProbe bookkeeping")],
 ["files written under Exports/.../MORState"])
p("C04","A case file is either understood as written or refused",
 "For a case description, every recognised option takes effect as written with documented defaults for absent optional entries, and an unknown boundary type, source type, polarisation, magnitude, evolution operator or integrator, a missing mandatory section, or a value outside its domain makes the load fail with an error instead of silently continuing with something else.",
 ["inputs","configurations"],"all combinations of present, absent, recognised and unrecognised entries of a case file",
 BASE+"upstream parser tests load a few well-formed files.",
 ["src/driver/driver.cpp","src/driver/driver.h","src/solver/SolverOptions.h","src/evolution/EvolutionOptions.h"],
 [("string to enumeration assignment with throw","driver.cpp assign* functions"),("option parsing","driver.cpp buildSolverOptions, buildProbes, buildSources")],
 None,["maxwell::driver::buildSolver*"])
p("C05","Materials and boundaries land on exactly the tags they were declared for",
 "Every element whose tag is listed under a material gets that material's permittivity, permeability and conductivity and every other element is vacuum; every boundary or interior face gets exactly the condition declared for its tag, on the exterior or interior list according to where the face lies, and no other. Declaring conditions for several tags, in any order, never changes what another tag gets.",
 ["inputs","configurations"],"all assignments of tags to materials and conditions, in any order",
 BASE+"upstream tests use one or two fixed assignments.",
 ["src/components/Model.cpp","src/components/Model.h","src/driver/driver.cpp","src/components/Material.cpp"],
 [("marker construction per condition","Model::assembleBdrToMarkers"),("piecewise vectors","Model::buildEpsMuPiecewiseVector, buildSigmaPiecewiseVector"),("json to tag maps","driver.cpp assembleAttributeToMaterial/Boundary")],
 [("markers","per-condition boundary attribute markers","Model::bdrToMarkerMap_ and siblings")],
 ["Model::getBoundaryToMarker","Model::getInteriorBoundaryToMarker","Model::buildEpsMuPiecewiseVector"])
p("C06","Material response functions are mutually consistent and guard their domain",
 "A material can only be created with relative permittivity and permeability not below one and a non-negative conductivity; for every lossless material, impedance times admittance is one, and speed of wave times the square root of permittivity times permeability is one. For a lossy material the lossless-only quantities are refused rather than returned.",
 ["inputs"],"all real parameter triples",
 "The material tests use a few fixed values and cannot cover all parameter triples nor their relations.",
 ["src/components/Material.cpp","src/components/Material.h","src/math/PhysicalConstants.h"],
 [("constructor guards","Material::Material"),("derived quantities","Material::getImpedance, getAdmitance, getSpeedOfWave")],
 None,["Material public interface"])
p("C07","Mesh partitioning keeps constrained neighbours together and loses no element",
 "When a mesh is split over ranks, every element is given exactly one rank in range, and the two elements at each face that must not be cut (faces of total-field surfaces, far-field surfaces, thin layers and interior walls), including chains of such faces, end on the same rank. Elements not touched by such faces keep their rank.",
 ["inputs","configurations"],"all meshes adjacency patterns, initial partitions, rank counts and constrained face sets",
 BASE+"upstream tests do not run in parallel here and check a single mesh.",
 ["src/driver/driver.cpp"],
 [("union-find over constrained faces and least-loaded assignment","driver.cpp applyPairwiseConstraintsPartitioning and callers")],
 None,["partitioning array handed to the parallel mesh"])
p("C08","Repairing a mesh file touches only what must be repaired, once",
 "Loading a mesh file through the automatic repair removes exactly the entities that do not belong to the mesh's dimension or its boundaries, keeps every volume and boundary element with its geometric tag and node order and keeps all nodes, and writes counts that match. Repairing a repaired file changes nothing. At every moment, also for other ranks reading it or after an interruption, the file is complete: as it was or repaired.",
 ["inputs","crash_points","schedules"],"all mesh files in the supported text format with any mix of element kinds and tags, looked at in every state it passes through on disk",
 BASE+"upstream uses fixed meshes only.",
 ["src/driver/driver.cpp"],
 [("element filtering and count rewriting","driver.cpp fixGmshMesh / createFixedMesh helpers")],
 None,["mesh file produced next to the original","mesh seen by the solver"])
p("C09","Interrupted surface exports never corrupt the far-field input",
 "If a run is interrupted at any byte while surface fields are being exported, post-processing uses exactly the snapshots that were completely written and gives the same result as an uninterrupted run of that length, or refuses when none is complete. Data read back equals data written bit for bit, including geometry, component order and times.",
 ["crash_points","inputs"],"every truncation point of every per-rank export file",
 BASE+"no upstream test truncates an export.",
 ["src/components/RCSSurfaceExporter.cpp","src/components/RCSSurfaceExporter.h","src/components/RCSSurfacePostProcessor.cpp","src/components/RCSSurfacePostProcessor.h"],
 [("header, geometry and snapshot layout","RCSSurfaceExporter::writeGeometry, writeSnapshot"),("snapshot reader","RCSSurfacePostProcessor::readRankData")],
 [("snapshots","times and six component arrays","RankData")],
 ["surface export files","RCS and far-field output files"])
p("C10","Far-field results do not depend on how the surface was split over ranks",
 "Post-processing a surface export gives the far field of the equivalent currents summed coherently over the whole closed surface, and the radar cross section relative to the incident pulse, from the discrete Fourier transform over the snapshots used. The result is the same for any distribution of the surface over ranks, including ranks without a piece of it, and any order in which the ranks are read; snapshots later than the requested maximum time are ignored.",
 ["configurations","inputs"],"all surfaces, fields, splits of the surface over ranks, rank orders and maximum times",
 BASE+"no upstream test varies the number of ranks.",
 ["src/components/RCSSurfacePostProcessor.cpp","src/components/FarField.cpp","src/driver/rcs_driver.cpp"],
 [("coherent accumulation over ranks","RCSSurfacePostProcessor::computeAndWriteResults")],
 None,["radar cross section output files"])
p("C11","Thin-layer states survive stage evaluations and failed guesses untouched",
 "Between two accepted time steps, evaluating the right-hand side any number of times, at any times and with any trial state, neither advances nor otherwise changes the stored state of any thin layer, and equal arguments give equal results. Accepting a step advances every layer exactly once, by exactly the step, starting from the state of the previously accepted step.",
 ["histories","schedules"],"all sequences of evaluations and accepted steps with any step sizes",
 BASE+"upstream tests compare final waveforms only.",
 ["src/evolution/GlobalEvolution.cpp","src/evolution/GlobalEvolution.h","src/solver/SolverExtension.cpp","src/solver/Solver.cpp"],
 [("checkpoint, restore before sub-solve, finalize","GlobalEvolution::commitSGBCCheckpoint, Mult, finalizeSGBCStep")],
 [("checkpoint","accepted state per layer","GlobalEvolution::sgbc checkpoint vectors")],
 ["GlobalEvolution::Mult","Solver::step"])
p("C12","Thin-layer results are independent of threads and of the other layers",
 "Advancing many thin-layer faces gives bitwise the same fields for every number of worker threads and every scheduling of faces to threads. The response of one face depends only on its own layer stack, its own state and the fields next to it.",
 ["schedules","configurations"],"all thread counts, schedules and sets of layered faces",
 BASE+"thread count and scheduling are never varied by tests.",
 ["src/evolution/GlobalEvolution.cpp","src/solver/SolverExtension.cpp"],
 [("per-thread wrapper pool with load/save of per-face state","GlobalEvolution.cpp parallel loops")],
 [("face state","fields of one layered face","SGBCState")],
 ["GlobalEvolution::Mult and finalizeSGBCStep"])
p("C13","The thin-layer sub-grid reproduces the declared layer stack",
 "The one-dimensional grid built for a layered face consists of vacuum padding, then the declared layers in declared order, each with its declared width, number of cells and material, then vacuum padding; coupling positions sit exactly at the two outer surfaces of the stack. Optional backing or boundary conditions declared on either side are applied on that side only.",
 ["inputs","configurations"],"all layer stacks, cell counts, orders and side conditions",
 BASE+"upstream tests use a few stacks and look at transmitted waves.",
 ["src/solver/SolverExtension.cpp","src/solver/SolverExtension.h","src/driver/driver.cpp"],
 [("sub-mesh construction and interface indices","SGBCWrapper construction, buildSGBCMesh, getLeftInterfaceIndex")],
 None,["SGBCWrapper public interface"])
p("C14","The local frame of a layered face is a rotation and coupling is its inverse",
 "For every face orientation in one, two and three dimensions the local frame used to couple a layered face is a proper orthonormal frame whose first axis is the face normal, and fields sent into the frame and brought back are unchanged.",
 ["inputs"],"all face orientations and all field values",
 BASE+"upstream tests only have axis-aligned and a few oblique faces.",
 ["src/solver/SolverExtension.cpp","src/evolution/GlobalEvolution.cpp"],
 [("rotation construction and application","buildFaceRotationMatrix, updateFieldsWithGlobal*, fillGlobalSGBCVec")],
 None,["SGBCWrapper public interface"])
p("C15","The total-field region is bounded by its surface on the correct side",
 "An element touching the total-field surface receives the incident field as a total-field element exactly when it lies inside the surface and as a scattered-field element when it lies outside, once per face it shares with the surface, and elements that do not touch the surface receive nothing. In three dimensions this holds for every convex closed surface whatever the numbering of elements; in two dimensions for meshes that number the elements outside before those inside and direct the edges of the surface accordingly, in one dimension between two points or beyond a single one. Building the regions leaves the mesh as it was.",
 ["inputs","configurations"],"all meshes, surface placements and element numberings",
 BASE+"upstream tests use fixed meshes.",
 ["src/components/SubMesher.cpp","src/components/SubMesher.h","src/solver/SourcesManager.cpp"],
 [("face side assignment","TotalFieldScatteredFieldSubMesher")],
 None,["TF/SF/global sub-meshes and their parent element maps"])
p("C16","Fields of several sources add up",
 "The effect of a set of sources, initial fields and total-field injections alike, is the sum of the effects each would have alone, independent of their order, of the evaluation path and of the evolution formulation. Sources that are not total-field sources inject nothing after the start, and total-field sources do not alter the initial state.",
 ["inputs","configurations"],"all multisets and orders of sources and all times",
 BASE+"upstream tests use one source per case.",
 ["src/solver/SourcesManager.cpp","src/evolution/MaxwellEvolution.cpp","src/evolution/MaxwellEvolutionMethods.cpp","src/evolution/GlobalEvolution.cpp","src/evolution/HesthavenEvolution.cpp"],
 [("accumulation over sources","SourcesManager::setInitialFields, evalTimeVarField, evalTimeVarFieldDirect")],
 None,["initial fields and right-hand side of each formulation"])
p("C17","Plane waves are transverse, normalised, paired and travel at unit speed",
 "A plane-wave source given a polarisation perpendicular to its propagation has electric and magnetic fields perpendicular to the direction of propagation and to each other with the sense electric x magnetic = propagation and equal magnitude in normalised units, whichever of the two is specified and however the vectors are scaled. Its value depends on position and time only through distance along the propagation direction minus time.",
 ["inputs"],"all directions, polarisations, positions, times and wave forms",
 BASE+"upstream tests only use axis-aligned waves.",
 ["src/math/Function.h","src/math/Calculus.h","src/components/Sources.cpp"],
 [("normalisation and cross products","Planewave class in Function.h")],
 None,["TotalField::eval"])
p("C18","Copies of source collections are independent of the original",
 "Copying, moving or assigning collections of sources, or storing a source built from a temporary, yields objects that evaluate identically to the original and stay valid and unchanged whatever happens to the original afterwards.",
 ["histories"],"all sequences of copy, move, assign, add and destroy operations",
 BASE+"upstream has no test of copies.",
 ["src/components/Sources.h","src/components/Sources.cpp","src/math/Function.h"],
 [("deep clone","Source::clone and Sources copy operations")],
 None,["Sources container operations and Source::eval"])
p("C19","The computed rate of change is the DG discretisation of Maxwell's equations",
 "For every mesh, order, material map, flux parameter and set of boundary conditions, the rate of change the solver computes for a state equals that of the discontinuous Galerkin scheme: curl terms with the stated signs scaled by the inverse material parameters, numerical flux built from the jumps across each face, mirrored states on conducting, magnetic and absorbing boundaries, and ohmic loss proportional to conductivity. A uniform field not touching boundaries is stationary.",
 ["inputs","configurations"],"all states, meshes, orders, materials, flux parameters and boundary assignments within the model's bounds",
 BASE+"upstream tests compare particular matrices for one or two meshes.",
 ["src/components/DGOperatorFactory.h","src/evolution/GlobalEvolution.cpp","src/mfemExtension/BilinearIntegrators.cpp","src/mfemExtension/IntegratorFunctions.cpp","src/mfemExtension/BilinearForm_IBFI.cpp"],
 [("sub-operators and their block placement","DGOperatorFactory")],
 None,["GlobalEvolution::Mult"])
p("C20","All formulations of the evolution compute the same rate of change",
 "For every problem that more than one formulation supports (the element-wise one: vacuum on triangles, quadrilaterals or tetrahedra; all but the global one: no conductivity), the element-wise, the operator-by-operator and the assembled global formulation give the same rate of change for every state up to rounding.",
 ["inputs","configurations"],"all states and supported problems within the bounds",
 BASE+"upstream tests compare formulations on few meshes and without all boundary kinds.",
 ["src/evolution/MaxwellEvolution.cpp","src/evolution/HesthavenEvolution.cpp","src/evolution/HesthavenEvolutionMethods.cpp","src/evolution/GlobalEvolution.cpp"],
 [("three right-hand sides","Mult of each evolution class")],
 None,["Mult of each evolution class"])
p("C21","Without sources the discrete energy never grows",
 "Without active sources, the rate of change of the discrete electromagnetic energy is never positive for any state; it is zero for centred flux in lossless media closed by conducting or magnetic walls, and conductive media, absorbing boundaries and upwind flux can only remove energy.",
 ["inputs","configurations"],"all field states, meshes, materials, fluxes and boundary kinds within the bounds",
 BASE+"upstream tests look at the energy of one mode for one run.",
 ["src/components/DGOperatorFactory.h","src/evolution/GlobalEvolution.cpp","src/evolution/MaxwellEvolution.cpp"],
 [("flux and boundary signs","DGOperatorFactory boundary coefficient maps")],
 None,["Mult of the evolution classes"])
p("C22","Implicit solves depend only on the requested step, not on the history of steps",
 "For every sequence of implicit stage solves with varying step sizes, states and times, each returned rate satisfies its implicit equation for the step size, state and time of that very call.",
 ["histories","inputs"],"all sequences of step sizes, including repetitions and returns to earlier values",
 BASE+"upstream never calls the implicit solve with varying step sizes in a test.",
 ["src/evolution/GlobalEvolution.cpp"],
 [("factorisation cached per step size","GlobalEvolution::ImplicitSolve")],
 [("cached step","step size of the stored factorisation","GlobalEvolution implicit cache")],
 ["GlobalEvolution::ImplicitSolve"])
p("C23","Splitting the mesh over ranks does not change the simulation",
 "Running a case on several ranks gives on every element the same rate of change and the same evolution as running it on one, for every way of distributing elements to ranks, both operator-based formulations (the element-wise one runs on one rank only) and every boundary and source kind.",
 ["configurations","schedules"],"all distributions of elements over ranks",
 BASE+"tests here never run on more than one rank.",
 ["src/evolution/GlobalEvolution.cpp","src/evolution/MaxwellEvolution.cpp","src/components/DGOperatorFactory.h","src/driver/driver.cpp"],
 [("exchange of face-neighbour values before applying the operator","GlobalEvolution::Mult, MaxwellEvolution::Mult")],
 None,["Mult of the evolution classes"])
p("C24","Automatic source delays start the excitation before it reaches its surface",
 "When no delay is declared, the one chosen for a plane wave or dipole leaves the excitation below a millionth of its peak at every point of the total-field surface at time zero, and its peak reaches the surface within ten pulse widths (for a dipole, beyond its travel time), for every mesh position, direction, face size and pulse width. A declared delay is used as given.",
 ["inputs"],"all mesh extents, directions, spreads and source kinds",
 BASE+"no upstream test checks automatic delays.",
 ["src/driver/driver.cpp"],
 [("minimum phase or distance over the mesh","driver.cpp buildSources helpers")],
 None,["sources built from a case file"])
p("C25","Rational surface-impedance fits report what they deliver",
 "A returned pole-residue fit is stable, has matching numbers of poles and residues within the allowed maximum, its reported error is the error of the returned model on the given samples, and it is the smallest stable model below the tolerance when any within the maximum is, and otherwise the most accurate stable one.",
 ["inputs"],"all sample sets, tolerances and maximum orders",
 BASE+"no test here reaches this code.",
 ["src/components/SIBCPoleResidueFitting.cpp","src/components/SIBCPoleResidueFitting.h"],
 [("order loop with best stable candidate","findOptimalPoles")],
 None,["SIBC fitting interface"])
p("C26","The command-line programs run exactly the case asked for or fail",
 "Without a file, with a file that is no complete case or with an unknown device, the command-line programs end with a non-zero status and leave no results; asked for help they print it and run nothing. Otherwise they run exactly the case named last, to its end, change the results of that case only and end with status zero. The post-processor needs results of its case and leaves every requested angle and frequency once, and nothing of an earlier request.",
 ["inputs","histories"],"all argument lists, and all orders of starting the programs in one directory, up to a bounded length",
 BASE+"no test runs the programs.",
 ["src/launcher/launcher.cpp","src/launcher/rcs_launcher.cpp","src/driver/rcs_driver.cpp","src/components/RCSSurfacePostProcessor.cpp"],
 [("argument loop","main functions")],
 None,["process exit status and output"])
p("C27","The automatic time step follows the finest part of the mesh on all ranks",
 "When no time step is declared, the selected one is proportional to the Courant number and to the size of the mesh, and does not depend on where the mesh lies, how its elements are numbered or how it is distributed over ranks, all of which use the same one. A mesh made of several parts gets the smallest of the steps its parts would get alone, and a higher order never gets a larger one. A declared time step is used as it is.",
 ["inputs","configurations"],"all meshes of every element kind, orders, Courant numbers, formulations and distributions over ranks",
 BASE+"upstream tests look at the automatic step of single meshes on one rank.",
 ["src/solver/Solver.cpp"],
 [("smallest element measure times Courant number","estimateTimeStep, calcMeshTimeStep, getMinimumInterNodeDistance")],
 [("dt","selected time step","Solver::dt_")],["Solver::getTimeStep"])
p("C28","A dipole source radiates a causal solution of Maxwell's equations",
 "Away from its position, the field of a dipole source satisfies Maxwell's equations of free space in normalised units at every point and time, near and far. It is symmetric about the dipole's axis with the electric field in the plane of the axis and the magnetic field across it, is proportional to the length, shifts in time with the declared delay, and is negligible eight pulse widths before and after the pulse passes the point at unit speed.",
 ["inputs"],"all positions off the axis, times, lengths, pulse widths and delays",
 BASE+"upstream tests only run one simulation with a dipole.",
 ["src/math/Function.h","src/components/Spherical.cpp"],
 [("retarded moment and its derivatives","DerivGaussDipole::eval"),("conversion to Cartesian components","SphericalVector::convertSphericalVectorFieldToCartesian")],
 None,["Source::eval of a total-field source"])
p("C29","An exported operator is the one the simulation runs with",
 "When a single process is asked to export the operator of the global formulation, the file written holds a complete sparse matrix whose product with any state is, to the digits written, the rate of change the simulation computes for that state when no source is active. The file describes only the simulation exported last under that name, and asking for it does not change what the simulation computes.",
 ["inputs","configurations","histories"],"all meshes, orders, upwinding factors, materials, conductivities, boundaries and sequences of exports in one directory",
 BASE+"no upstream test reads an exported operator.",
 ["src/components/DGOperatorFactory.h","src/driver/driver.cpp","src/evolution/GlobalEvolution.cpp"],
 [("export after all blocks are merged","DGOperatorFactory::buildGlobalOperator"),("rate of change","GlobalEvolution::Mult")],
 None,["files under Exports/Operators"])
p("C30","The simulation does not depend on where and how the problem is drawn",
 "When a whole problem, its mesh together with the directions and positions of its sources, is moved, turned within its dimension or mirrored, the simulation gives the same result seen from there: electric fields follow as vectors and magnetic fields as axial vectors. The same holds when nodes, elements, their corners, boundary pieces and declarations are put in another order, as long as the order still tells the sides of injecting surfaces and layers, as the mesh convention asks.",
 ["inputs","configurations"],"all meshes, isometries, orders of the mesh entities, formulations, boundaries, layers and plane waves",
 BASE+"upstream tests draw each problem once.",
 ["src/evolution/GlobalEvolution.cpp","src/evolution/MaxwellEvolution.cpp","src/evolution/HesthavenEvolution.cpp","src/components/DGOperatorFactory.h","src/components/SubMesher.cpp","src/math/Function.h"],
 [("normals and face terms","DGOperatorFactory, HesthavenEvolution"),("turning of fields into the frame of a layered face","rotateGlobalFieldsToLocal")],
 None,["Mult of the evolution classes","Solver::step"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
