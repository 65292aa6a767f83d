"""Property catalogue: the source from which properties.jsonl and MANIFEST.json are written (gen.py)."""
P = []
# broad guarantees come first
FIRST = ['P14', 'P15', 'P16', 'P17', 'P18']
NA = []
VN = 'interprocedural value numbering over the typed AST (Herbrand equality domain), compared with the required value'


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), state=list(state)))


prop('P01', 'Plane-wave excitation is the transverse wave it is declared to be',
     'For every position, time, field and direction, a plane wave built from a waveform, a polarisation and a propagation vector has the value waveform(k.r/c - t) times the unit polarisation in the declared field and times the right-handed companion (k x p for an electric, p x k for a magnetic polarisation) in the other field, with k and p normalised. This is the same for one-, two- and three-coordinate positions, and for copies and clones of the source.',
     ['inputs', 'configurations'], 'all waveforms, polarisations, propagation vectors, positions of 1 to 3 coordinates, times, both fields, all directions',
     'No test of the pinned suite builds a source (only the material and constants tests compile); a test samples points of an unbounded domain.',
     ['src/math/Function.h', 'src/components/Sources.cpp', 'src/components/Sources.h'],
     [{'name': 'plane-wave evaluation', 'where': 'src/math/Function.h Planewave'}, {'name': 'total-field wrapper', 'where': 'src/components/Sources.cpp TotalField'}],
     VN, 'real arithmetic; waveform is an arbitrary deterministic function', ['value of the incident field'])

prop('P02', 'Initial fields excite only their own field, at their own centre, along p',
     'An initial field evaluates to waveform(position - centre) times the chosen polarisation component when asked for the field it was declared for, and to zero for the other field, at every time and for positions of one, two or three coordinates. Copies and clones evaluate identically and do not share state with the original.',
     ['inputs', 'configurations'], 'all waveforms, centres, polarisations, positions, times, fields and directions',
     'The pinned suite never evaluates an initial field; the domain is unbounded.',
     ['src/components/Sources.cpp', 'src/components/Sources.h'], [{'name': 'initial field evaluation and copy', 'where': 'src/components/Sources.cpp InitialField'}],
     VN, 'real arithmetic; the centre has at least as many coordinates as the position', ['initial condition projected on the mesh'])

prop('P03', 'Analytic waveforms have their documented closed form in every dimension',
     'Gaussian, modulated Gaussian, sinusoidal and cavity-mode waveforms, and the cylindrical and spherical Bessel modes, evaluate to their closed-form expression for every position and parameter, for each number of dimensions they support. A clone evaluates to the same expression.',
     ['inputs'], 'all positions and waveform parameters, 1 to 3 dimensions',
     'The pinned suite evaluates no waveform; sampling cannot cover all parameters.',
     ['src/math/Function.h'], [{'name': 'waveform classes', 'where': 'src/math/Function.h'}],
     VN, 'real arithmetic; special functions of the maths libraries are taken as given', ['waveform value'])

prop('P04', 'The dipole excitation is an exact solution of the Maxwell equations',
     'The electric and magnetic field of the dipole source satisfy both curl equations of normalised vacuum at every point off the axis and at every time, and equal the retarded field of a z-directed dipole with Gaussian moment of the given length, spread and delay. Clones and wrapped copies give the same field.',
     ['inputs'], 'all observation points off the axis, times and dipole parameters',
     'A test can compare sampled values only; the curl equations are a statement about derivatives at every point.',
     ['src/math/Function.h'], [{'name': 'dipole field', 'where': 'src/math/Function.h DerivGaussDipole'}],
     VN + '; symbolic derivatives of the extracted closed form', 'real arithmetic; residuals compared by random interpretation', ['value of the incident field'])

prop('P05', 'Spherical and Cartesian descriptions of a point and a vector field agree',
     'Converting a Cartesian point (two or three coordinates, given as either container type) to spherical coordinates and back returns the same point, with radius, polar angle and azimuth in the usual ranges. Converting a vector field from spherical components to Cartesian components uses the orthonormal basis of the point.',
     ['inputs'], 'all points other than the origin and all field components',
     'The pinned suite does not exercise the conversions; quadrants and degenerate planes are easily missed by samples.',
     ['src/components/Spherical.cpp', 'src/components/Spherical.h'], [{'name': 'conversions', 'where': 'src/components/Spherical.cpp'}],
     VN, 'real arithmetic', ['far-field directions, dipole field'])

prop('P06', 'Only physical materials exist, and derived wave quantities are consistent',
     'A material can be created exactly when its relative permittivity and permeability are at least one and its conductivity is not negative, and it then reports the values it was given. Impedance, admittance and wave speed are sqrt(mu/eps), sqrt(eps/mu) and 1/sqrt(mu eps) for lossless materials and are refused for every lossy one.',
     ['inputs'], 'all finite permittivity, permeability and conductivity values',
     'The pinned tests try a handful of values; boundaries, tiny negative values and combinations are not covered.',
     ['src/components/Material.cpp', 'src/components/Material.h'], [{'name': 'admissibility check', 'where': 'src/components/Material.cpp'}],
     VN, 'finite inputs; real arithmetic', ['exceptions and returned values'])

DRV = 'src/driver/driver.cpp'

prop('P08', 'Solver options take effect exactly as written in the case file',
     'Every solver option present in a case file reaches the solver with the value written under its own key, and every absent one keeps its documented default, for any combination of present and absent keys. The evolution operator follows the word in the file and any unknown word is refused.',
     ['inputs', 'configurations'], 'all case files: every subset of option keys, every value, every operator word',
     'The pinned suite reads no case file; the subsets of keys and values are unbounded.',
     [DRV, 'src/solver/SolverOptions.h'], [{'name': 'option reader', 'where': DRV + ' buildSolverOptions'}],
     VN + '; JSON document as symbolic input', 'JSON library behaves as documented', ['options handed to the solver'])

prop('P09', 'Each source entry of a case file becomes exactly the field it describes',
     'Every entry of the source list yields exactly one source, in order, whose field at every position, time and direction equals that of a source built directly from the same numbers; short polarisation and propagation vectors are completed with zeros, longer ones and unknown source, magnitude or field words are refused. Without an explicit mean, a plane wave or dipole is delayed so that the pulse reaches the first point of its tagged surface (over all processes) five widths later.',
     ['inputs', 'configurations'], 'all source entries (types, words, vectors, numbers), 1 to 3 dimensions, with and without mesh and mean',
     'No test reads a case file; the space of entries and their fields is unbounded.',
     [DRV, 'src/components/Sources.cpp'], [{'name': 'source reader', 'where': DRV + ' buildSources'}],
     VN + '; JSON document and small mesh as symbolic input', 'meshes of up to four boundary elements with symbolic vertices; JSON and mesh queries behave as named', ['sources handed to the solver'])

prop('P10', 'Each probe entry of a case file becomes exactly the probe it describes',
     'Every probe entry yields exactly one probe of its own kind, in order, carrying its own position, field, direction, name, path, tags, identifier and recording window. Its sampling interval is the given number of steps, or the number of time steps of the run divided by the requested number of saves, never below one; unknown field or polarisation words and surface probes without tags are refused.',
     ['inputs', 'configurations'], 'all probe sections: every kind, one and several entries, every combination of steps and saves, every value',
     'No test reads a case file; intervals of zero arise only for particular combinations of final time, step and saves.',
     [DRV, 'src/components/Probes.h'], [{'name': 'probe reader', 'where': DRV + ' buildProbes'}],
     VN + '; JSON document as symbolic input', 'JSON library behaves as documented', ['probes handed to the solver'])

MOD = 'src/components/Model.cpp'

prop('P07', 'Materials and boundary conditions act on exactly the regions assigned to them',
     'In every model, each boundary condition selects exactly the boundary attributes assigned to it, separately for exterior and interior boundaries, and per-region permittivity, permeability and conductivity vectors hold each value at its own region and zero elsewhere (vacuum when no material is given). Non-positive or out-of-range attributes, conditions that cannot be applied and meshes mixing element types are refused, and a global element is matched to the local element with the same centre and to nothing else.',
     ['configurations', 'inputs'], 'all assignments of conditions to attributes, interior or exterior, with or without partition; all material values and region numbers',
     'The pinned suite builds no model; combinations of conditions, interior and exterior surfaces and attribute numbers are too many to sample.',
     [MOD, 'src/components/Model.h'], [{'name': 'marker assembly', 'where': MOD + ' assembleGeomTagToTypeMap, assembleBdrToMarkerMaps'}, {'name': 'piecewise coefficients', 'where': MOD + ' buildEpsMuPiecewiseVector'}],
     VN, 'mesh with eight boundary attributes; mesh queries behave as named', ['markers and coefficient vectors handed to the operators'])

prop('P11', 'The model section of a case file is applied to the mesh exactly as written',
     'Every material and boundary entry of a case file reaches exactly its own mesh regions, with conductivity converted to solver units, absent properties equal to vacuum, and boundaries treated as interior exactly when the mesh has an interior face with that tag; total-field and thin-layer surfaces are exactly the tagged ones. The named mesh file is loaded, refined as often as requested and distributed with the computed partition. Missing sections, missing tags or types, unknown words, tags absent from the mesh, unphysical materials and unknown mesh formats end in a reported error.',
     ['inputs', 'configurations'], 'all case files: entries, tags, words, values, refinement levels, mesh names',
     'No test reads a case file with a mesh (the mesh library is absent), and the space of case files is unbounded.',
     [DRV, MOD], [{'name': 'model reader', 'where': DRV + ' buildModel'}, {'name': 'surface markers', 'where': DRV + ' postProcessInformation'}],
     VN + '; JSON document and small mesh as symbolic input', 'mesh of seven boundary elements; one total-field source per case; JSON and mesh queries behave as named', ['model handed to the solver'])

prop('P12', 'Thin-layer boundaries are discretised as their case-file entry requires',
     'Each thin-layer boundary carries its own tags and, layer by layer in order, the declared material and width; its terminations follow the words given at the boundary, or at the material when the boundary gives none. Unless given explicitly, the polynomial order and the number of segments (between 4 and 1000) follow from wavelength (20 unknowns per wavelength) and half a skin depth at the highest source frequency. Layers without conductivity, width or material, unphysical layers and unknown termination words are refused.',
     ['inputs', 'configurations'], 'all layer entries: single and stacked, every subset of optional keys, every value, every source list',
     'No test reads a thin-layer entry; thresholds and clamps depend on products of continuous inputs.',
     [DRV, 'src/components/Model.h'], [{'name': 'layer reader', 'where': DRV + ' buildModel'}, {'name': 'highest frequency', 'where': DRV + ' calculateMaximumSourceFrequency'}],
     VN + '; JSON document as symbolic input', 'real arithmetic; positive widths and spreads; sources of one kind when the frequency is derived', ['layers handed to the solver'])

prop('P13', 'Both sides of a total-field or thin-layer face always share one process',
     'For every mesh, initial partition and number of processes, the two elements of each face of a total-field or thin-layer surface are assigned to the same existing process, also when faces chain elements together. Elements that touch no such face, and all elements of a run without such surfaces or with one process, stay where the partitioner put them.',
     ['inputs', 'configurations'], 'couplings of elements through tagged faces, initial partitions, 1 to 5 processes',
     'Requires several processes, a mesh and particular coupling shapes; none is available to the pinned suite.',
     [DRV], [{'name': 'constrained partition', 'where': DRV + ' applyPairwiseConstraintsPartitioning'}],
     VN + '; small mesh as symbolic input', 'six elements and up to five constrained faces of every coupling shape; initial ranks partly symbolic', ['partition the distributed mesh is built from'])

FLX = 'The numerical flux on every face uses the jump of the tangential fields in the direction of the outward normal and, weighted by the upwind parameter, the tangential part of the jump of the field itself; electric-conductor faces see twice the own electric and no magnetic jump, magnetic-conductor faces the reverse, absorbing faces the own fields with full upwinding, and interior conditions act on both sides separately.'

prop('P14', 'The global operator is the upwind DG form of the Maxwell equations',
     'For every state, the time derivative given by the global operator is curl H divided by permittivity minus the conduction loss sigma E / epsilon, and minus curl E divided by permeability, plus the numerical flux over all faces, shared faces between processes included. ' + FLX + ' The result depends on the given state alone, and the state is left unchanged.',
     ['inputs', 'configurations'], 'all states, meshes, materials, upwind parameters, 1 to 3 dimensions, every assignment of boundary conditions, with and without neighbouring processes',
     'The pinned suite cannot build the operator (the mesh library is absent); every matrix entry is a function of geometry, materials and conditions.',
     ['src/evolution/GlobalEvolution.cpp', 'src/components/DGOperatorFactory.h', 'src/mfemExtension/BilinearIntegrators.cpp', 'src/mfemExtension/IntegratorFunctions.cpp'],
     [{'name': 'operator assembly', 'where': 'src/components/DGOperatorFactory.h buildGlobalOperator'}, {'name': 'face integrators', 'where': 'src/mfemExtension/BilinearIntegrators.cpp'}, {'name': 'time derivative', 'where': 'src/evolution/GlobalEvolution.cpp Mult'}],
     VN + '; bilinear forms, sparse matrices and a two-element mesh as symbolic objects', 'two elements with up to two unknowns, all faces between them, up to two quadrature points; entries below 1e-14 may be dropped', ['time derivative handed to the time integrator'])

prop('P15', 'The componentwise operator is the upwind DG form of the Maxwell equations',
     'For every state in lossless media, the time derivative given by the componentwise operator is curl H divided by permittivity and minus curl E divided by permeability, plus the numerical flux over all faces, shared faces between processes included. ' + FLX + ' The result depends on the given state alone, and the state is left unchanged.',
     ['inputs', 'configurations'], 'all states, meshes, lossless materials, upwind parameters, 1 to 3 dimensions, every assignment of boundary conditions, with and without neighbouring processes',
     'The pinned suite cannot build the operator (the mesh library is absent); every matrix entry is a function of geometry, materials and conditions.',
     ['src/evolution/MaxwellEvolution.cpp', 'src/components/DGOperatorFactory.h', 'src/mfemExtension/BilinearIntegrators.cpp', 'src/evolution/MaxwellEvolutionMethods.cpp'],
     [{'name': 'component operators', 'where': 'src/components/DGOperatorFactory.h buildMaxwell*Operator'}, {'name': 'time derivative', 'where': 'src/evolution/MaxwellEvolution.cpp Mult'}],
     VN + '; bilinear forms, sparse matrices and a two-element mesh as symbolic objects', 'two elements with up to two unknowns, all faces between them, up to two quadrature points', ['time derivative handed to the time integrator'])

prop('P16', 'An implicit stage solves its linear system for the current step',
     'For every state and step size, the implicit evaluation of the global operator returns the k with k = A (x + dt k), A being the time derivative operator of the same model: the solved system is the identity minus dt A and the right-hand side is A x. A step of different size solves its own system, also after steps of other sizes, and with neighbouring processes their values enter both sides; the given state is left unchanged.',
     ['inputs', 'configurations', 'histories'], 'all states, step sizes, sequences of step sizes, materials and boundary conditions, small and large systems, with and without neighbouring processes',
     'The pinned suite cannot build the operator; factorisations are cached across calls, so a fault shows only for particular histories of step sizes.',
     ['src/evolution/GlobalEvolution.cpp'], [{'name': 'implicit stage', 'where': 'src/evolution/GlobalEvolution.cpp ImplicitSolve'}],
     VN + '; bilinear forms, sparse and dense matrices and a two-element mesh as symbolic objects', 'histories of three steps of two sizes; the linear solver solves the system it is given', ['stage derivative handed to the time integrator'])

prop('P17', 'Total-field surfaces inject the incident field once, signed per side',
     'For every state and time, the rate of the global operator with total-field sources equals the source-free rate with the jump across each tagged face corrected by the incident field: reduced by it on the total-field side and increased by it on the scattered-field side, evaluated at the positions of the face. Incident fields of several sources add, initial fields are not injected, the explicit and implicit evaluations see the same injection, and it is the same on every evaluation. The total side is between the two points in one dimension, to the right of the tagged face direction in two, and towards the centre of the surface in three.',
     ['inputs', 'configurations', 'histories'], 'all incident fields, states, times, materials, meshes in 1 to 3 dimensions, both directions of every tagged face, one or two sources, successive evaluations',
     'The pinned suite cannot build sub-meshes or operators; a wrong side or double injection shows only for particular orientations and histories.',
     ['src/components/SubMesher.cpp', 'src/solver/SourcesManager.cpp', 'src/evolution/GlobalEvolution.cpp', 'src/components/DGOperatorFactory.h'],
     [{'name': 'side assignment', 'where': 'src/components/SubMesher.cpp TotalFieldScatteredFieldSubMesher'}, {'name': 'incident field on the surface', 'where': 'src/solver/SourcesManager.cpp'}, {'name': 'injection', 'where': 'src/evolution/GlobalEvolution.cpp applyTFSFSourceToVector'}],
     VN + '; small meshes with positioned vertices, sub-meshes, bilinear forms and sparse matrices as symbolic objects', 'three to five elements in a row, tagged faces interior; incident fields of negligible norm may be skipped; the incident trace on a face is the mean of both sides', ['time derivative handed to the time integrator'])

prop('P18', 'A run starts from the sum of its initial fields and from nothing else',
     'Before the first step every component of the electric and magnetic field at every node equals the sum, over the initial-field sources in any order and number, of the value of that source for that component at the position of the node; without initial fields everything is zero, and total-field sources contribute nothing. The six components are seen identically through the complete state vector and through the individual fields.',
     ['inputs', 'configurations'], 'all source lists, waveforms, centres, polarisations, node positions, 1 to 3 dimensions',
     'The pinned suite cannot build fields on a mesh; combinations of sources are unbounded.',
     ['src/solver/SourcesManager.cpp', 'src/evolution/Fields.h', 'src/components/Sources.cpp'],
     [{'name': 'initial projection', 'where': 'src/solver/SourcesManager.cpp setInitialFields'}, {'name': 'state layout', 'where': 'src/evolution/Fields.h'}],
     VN + '; small meshes and finite element spaces as symbolic objects', 'up to three initial fields and two other sources; projection evaluates the function at the nodes', ['state handed to the time integrator'])

SOL = 'src/solver/Solver.cpp'
PM = 'src/solver/ProbesManager.cpp'

prop('P19', 'A run covers exactly the requested time, each step starting where the last ended',
     'For every final time and step, a run asks the time integrator for full steps as long as they fit and then for exactly the remaining time, ends with the clock at the final time and takes no step beyond it; a final time of zero takes none. Each step starts from the state the previous one left and the last state is the one reported; a run continued with a later final time, or with another step, goes on from where it stopped. With thin layers every step is preceded by a checkpoint for its own start and length and followed by its completion.',
     ['inputs', 'histories'], 'final times that are multiples, fractions and mixed multiples of the step, all steps, continued runs, with and without thin layers',
     'The pinned suite cannot build a solver; off-by-one and remainder faults show only for particular ratios of final time to step.',
     [SOL], [{'name': 'time loop', 'where': SOL + ' Solver::run'}, {'name': 'one step', 'where': SOL + ' Solver::step'}],
     VN + '; solver, time integrator and a line mesh as symbolic objects', 'ratios of final time to step between 0 and 7; steps of at least a thousandth; the integrator advances the clock by the length it is given', ['steps asked of the time integrator', 'time reported at the end'])

prop('P20', 'The solver is assembled from exactly the parts its options name',
     'For every choice of options the time integrator that advances the fields is the named one, bound to the named evolution operator, on a discontinuous space of the requested order and node placement in the dimension of the mesh. A negative order, a negative final time, a CFL factor that is not positive, and unknown integrators or operators end in a reported error; extreme valid values are accepted.',
     ['inputs', 'configurations'], 'all integrators, operators, orders, node placements and bounds of the options',
     'The pinned suite cannot build a solver, and the options form a product of choices.',
     [SOL, 'src/solver/SolverOptions.h'], [{'name': 'integrator choice', 'where': SOL + ' assignODESolver'}, {'name': 'operator choice', 'where': SOL + ' assignEvolutionOperator'}, {'name': 'refusal', 'where': SOL + ' checkOptionsAreValid'}],
     VN + '; solver, time integrator and a line mesh as symbolic objects', 'all integrators with the global operator, two of them with every operator', ['integrator and operator in use'])

prop('P21', 'Probes record the right field, place and time, at the right steps',
     'Every probe records at the start, then after each interval of its own and at the final time, and never else; when a number of saves is requested the interval is the number of steps of the run divided by it, at least one, and state records are spread evenly over their own time window. What is recorded is the requested field at the requested position in the state of that time, in memory and in the probe\'s own file alike, with the time in seconds in point and field files; a position outside the mesh or owned by another process records nothing. Only the directory of that kind of probe of this case is cleared, once, before its files are opened and by one process per machine.',
     ['inputs', 'configurations', 'histories'], 'all positions, components, intervals, numbers of saves, windows, lengths of runs, probe lists and processes',
     'The pinned suite cannot build a solver; wrong cadence or mixed-up probes show only for particular intervals and lists.',
     [PM, 'src/solver/ProbesManager.h', 'src/components/Probes.h', SOL], [{'name': 'sampling', 'where': PM + ' updateProbe'}, {'name': 'intervals', 'where': PM + ' recalculateExportSteps'}, {'name': 'files', 'where': PM + ' initPointFieldProbeExport'}],
     VN + '; solver, files and a line mesh as symbolic objects', 'runs of up to 7 steps with seven intervals; point, field, visualisation, snapshot and state probes; formatting of numbers not compared', ['recorded series', 'probe files'])

RCS = 'src/components/RCSSurfacePostProcessor.cpp'
prop('P22', 'The radar cross section is that of the recorded surface fields',
     'For every requested frequency and direction the radiated potential is that of the equivalent currents n x H and -n x E of the time-averaged Fourier transform of the recorded surface fields, integrated over the near-field faces with the phase of the direction and summed as complex amplitudes over all processes, and the cross section is that potential divided by the power of the incident pulse of the case at that frequency, with the two- or three-dimensional normalisation; snapshots after the time limit do not count. A request covers evenly spaced frequencies and all combinations of evenly spaced angles, ends included, for every recorded surface, and writes one file of each kind per direction, replacing only the two result directories. A case without plane wave, without data or with unfinished geometry, a limit before the first snapshot and a two-dimensional direction out of the plane are refused without touching earlier results, and a snapshot cut short by an interrupted run is ignored.',
     ['inputs', 'configurations', 'crash_points'], 'all fields, surfaces, frequencies, directions, pulses, time limits, numbers of processes, and all points at which recording may stop',
     'The pinned suite cannot build the post-processor; sign, phase and normalisation errors need an independent reference for every direction and frequency.',
     [RCS, 'src/components/FarField.cpp', 'src/driver/rcs_driver.cpp', 'src/mfemExtension/LinearIntegrators.cpp'], [{'name': 'far field', 'where': RCS + ' computeAndWriteResults'}, {'name': 'incident pulse', 'where': 'src/components/FarField.cpp buildPlaneWaveData'}, {'name': 'request', 'where': 'src/driver/rcs_driver.cpp runRCSPostProcessing'}],
     VN + '; recorded files, meshes and linear forms as symbolic objects', 'surfaces of one element per process with up to 2 faces, 2 quadrature points, 2 unknowns, 4 snapshots, 3 processes; concrete frequencies and angles, all fields, positions, normals and pulses symbolic', ['result files'])

EXPO = 'src/components/RCSSurfaceExporter.cpp'
prop('P23', 'Surface recordings hold the near-side fields of the tagged faces when due',
     'For every tagged surface, a recording holds the six field components at every node of exactly the elements on the near side of the tagged faces (to the left of the face direction in two dimensions, behind its normal in three), at the start, after each interval of its own and at the final time, with the time of each snapshot. The positions, outward unit normals and surface weights recorded belong to exactly the tagged faces, the stored mesh marks exactly these faces, and everything is written by each process in the layout and place from which cross sections are computed. Surfaces on tags the mesh does not have, empty surfaces and one-dimensional ones are refused.',
     ['inputs', 'configurations'], 'all states, node positions, lengths of runs, intervals, numbers of saves, face directions and element orders, several surfaces at once, processes',
     'The recording code needs the finite element library, which the pinned suite does not have; the result depends on the orientation of every face.',
     [EXPO, 'src/components/SubMesher.cpp', 'src/solver/ProbesManager.cpp'], [{'name': 'surface file', 'where': EXPO + ' writeGeometry, writeSnapshot'}, {'name': 'near side', 'where': 'src/components/SubMesher.cpp NearToFarFieldSubMesher'}, {'name': 'near-field probe', 'where': 'src/solver/ProbesManager.cpp updateProbe'}],
     VN + '; meshes with positions, sub-meshes and binary files as symbolic objects', 'rows of 6 quadrilaterals or bricks with 4 tagged faces (both directions, both element orders, a face at a partition boundary, an element with two tagged faces), 2 unknowns per element, 2 quadrature points', ['surface_data.bin and mesh of each process', 'near-field data collections'])

SEXT = 'src/solver/SolverExtension.cpp'
GEVO = 'src/evolution/GlobalEvolution.cpp'
prop('P24', 'A layered panel is modelled by the slab its layers describe',
     'The one-dimensional slab solved behind every point of a layered panel is the chain of its layers in order, each cut into its number of equal segments with its own permittivity, permeability and conductivity, between equally many vacuum cells on both sides (at least three, and more than the order) of the mean segment length. Its outer ends absorb, each face carries the condition requested for that side and none otherwise, and it is solved locally, without sources, with the highest order of its layers by a third-order implicit scheme. The step recommended for it is the smallest over the layers of half the crossing time of a segment, relaxed by the square of the skin depths (at most fifty) where a layer is thicker than three of them, and copies made for further threads describe the same slab.',
     ['inputs', 'configurations'], 'all layer stacks, thicknesses, materials, segment counts, orders and face conditions',
     'The slab builder needs the finite element library, which the pinned suite does not have; errors show only for stacks of unlike layers or particular terminations.',
     [SEXT, 'src/solver/SolverExtension.h', 'src/components/Model.h'], [{'name': 'slab construction', 'where': SEXT + ' SGBCWrapper'}, {'name': 'layers', 'where': 'src/components/Model.h SGBCProperties'}],
     VN + '; slab mesh, materials and solver as symbolic objects', 'stacks of up to 3 layers with up to 4 segments each, orders 1-5, all pairs of face conditions; widths and materials symbolic', ['slab mesh, materials and conditions', 'recommended step'])
prop('P25', 'Layered panels couple the two sides of a face through their slab',
     'At every stage of a step the rates on both sides of an interior panel are those of faces closed by the fields at that end of the slab, turned into the frame of the face, the slab being advanced from its state at the start of the step up to the stage by sub-steps no longer than recommended and driven by the fields of both sides; a side closed by a conducting condition sees its own fields mirrored instead. A finished step leaves every slab advanced over exactly the whole step, driven by fields running linearly from start to finish, and the next step starts there; stages and repeated evaluations leave no trace. This holds alike for every node pair, panel, face direction, element order and number of threads, weak fields of any component drive the slab, and a panel at rest without fields stays at rest.',
     ['inputs', 'histories', 'configurations', 'schedules'], 'all states, slab responses, times, steps and stage positions, several panels and pairs, threads, sequences of steps',
     'The coupling needs the finite element library, which the pinned suite does not have; errors show only for particular stage sequences, orientations, threads or components.',
     [GEVO, SEXT, 'src/solver/Solver.cpp'], [{'name': 'stage', 'where': GEVO + ' Mult'}, {'name': 'step', 'where': GEVO + ' commitSGBCCheckpoint, finalizeSGBCStep'}, {'name': 'slab solve', 'where': SEXT + ' SGBCWrapper'}, {'name': 'face frame', 'where': SEXT + ' buildFaceRotationMatrix'}],
     VN + '; the step of a slab is an uninterpreted function of its unknowns, time and step', 'interior panels in meshes of 2-6 elements, 1-3 dimensions, up to 3 panels and 3 threads, three steps with four stages; no element between two panels; pairing of nodes and their normals taken as given', ['rates of the mesh unknowns', 'state of every slab'])
prop('P26', 'The automatic time step follows from the whole mesh, the order and the operator',
     'Without a time step in the case, every process takes the same one: the CFL factor times the bound of the most restrictive element of the whole mesh, whichever elements the process holds, for every element shape and every order including piecewise constants. In one dimension the bound is the smallest distance between nodes of an element over the order to the power 3/2; in two and three it is half the measure of an element over half that of its boundary, times the spacing of the first two Gauss-Lobatto nodes on an interval of length two, reduced by 2 with quadrilaterals and by 6 with hexahedra and raised by 5/4 for the global operator in three dimensions, where the element-wise operator uses the largest face scale and the squared order instead. A time step given in the case is used unchanged.',
     ['inputs', 'configurations'], 'all node positions, volumes, element shapes, orders, operators, CFL factors and partitions',
     'The pinned suite cannot build the solver; a step taken from the wrong element or from the local part is wrong only for uneven meshes or several processes.',
     ['src/solver/Solver.cpp'], [{'name': 'step estimate', 'where': 'src/solver/Solver.cpp estimateTimeStep'}, {'name': 'mesh scale', 'where': 'src/solver/Solver.cpp getTimeStepScale, calcMeshTimeStep, getJacobiGQ_RMin'}],
     VN + '; meshes of symbolic vertices, volumes and nodes', '3 elements of any size of which the process holds one, 5 shapes, orders 0-3 (0-5 thorough), 3 operators; face scales of the element-wise operator on straight elements, order at least 1', ['step of the solver'])
HEVO = 'src/evolution/HesthavenEvolution.cpp'
prop('P27', 'The element-wise operator gives the rates of the upwind scheme',
     'With the element-wise operator the rates of E and H in a straight triangle, quadrilateral or tetrahedron are the curl of the other field in that element plus the upwind flux of the jumps across its faces, weighted by the measure of each face over that of the element, whichever elements share their matrices. At a node of a boundary the jump is that of a mirrored field: minus twice the own electric field at an electric wall, minus twice the own magnetic field at a magnetic one, minus both fields over the upwind factor at an absorbing one, and half of that (minus one half of both fields when absorbing) on each side of an interior one; across an incident-field surface every incident wave is taken from the scattered side and added on the total side, at the position and time of the node. Rates in curved elements are those of the global operator, elements counting as curved when a node is displaced by more than a hundred-thousandth, and an incident-field surface touching a curved element is refused.',
     ['inputs', 'configurations', 'programs'], 'all states, upwind factors above zero, geometries, incident fields, times, boundary assignments and mixtures of straight and curved elements',
     'The operator needs the finite element library, which the pinned suite does not have; a wrong factor or sign on one condition, shape or component changes only some rates.',
     [HEVO, 'src/evolution/HesthavenEvolutionMethods.cpp', 'src/evolution/HesthavenEvolutionMethods.h'], [{'name': 'rates', 'where': HEVO + ' Mult'}, {'name': 'element data', 'where': HEVO + ' storeDirectionalMatrices, storeFaceInformation'}, {'name': 'conditions', 'where': HEVO + ' applyBoundaryConditionsToNodes, evaluateTFSF'}],
     VN + '; meshes, reference matrices, node pairs and the global operator as symbolic objects', '5 elements of first order, three shapes, every condition, two incident waves, one curved element; node pairs, face matrices and the global operator taken as given', ['rates of the mesh unknowns'])
prop('P28', 'All processes of a distributed run take part in the same communication',
     'In a time-domain run over several processes every process performs the same collective operations (synchronisation, reductions, point location, exchanges between neighbours, parallel output, time steps) equally often and in the same order, so none waits for another that does not come. Whether and how often one runs never depends on what may differ between processes: the rank, the part of the mesh, of the fields, of the tagged faces or of the probe points it holds, the clock or what it finds in the file system. Panels are solved by the processes that hold them alone.',
     ['configurations', 'schedules', 'inputs'], 'all partitions, numbers of processes, cases, field values and timings',
     'The pinned suite runs in one process, where every collective operation succeeds; a mismatch hangs only for particular partitions.',
     ['src/launcher/launcher.cpp', 'src/driver/driver.cpp', 'src/solver/Solver.cpp', 'src/solver/ProbesManager.cpp', GEVO, 'src/evolution/MaxwellEvolution.cpp', SEXT],
     [{'name': 'run', 'where': 'src/solver/Solver.cpp Solver, run, step'}, {'name': 'rates', 'where': GEVO + ' Mult, ImplicitSolve'}, {'name': 'probes', 'where': 'src/solver/ProbesManager.cpp'}, {'name': 'case set-up', 'where': 'src/driver/driver.cpp'}, {'name': 'panels', 'where': SEXT + ' SGBCWrapper'}],
     'interprocedural flow-sensitive dependence (taint) analysis over the type-checked syntax tree: collective operations must not be control dependent on process-local values', 'whole program from main and the functions the library calls back; the element-wise operator, spectral analysis and radar post-processing are single-process and outside; an exception is taken to end the run everywhere', ['completion of distributed runs'])
