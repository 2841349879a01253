P('P01', 'Particle records agree with the particle they describe',
  'Whatever consistent subset of a primary or secondary particle\'s quantities (mass, energy, kinetic energy, momentum, direction, start, vertex, length, closest approach, times, helicity) is given, in whatever order, every quantity that is read back or written into the event record equals the true one. A quantity that cannot be derived from what was given is refused with an error rather than invented, a quantity that can be derived is not refused, and records bound to one event never write into, or read stale values from, another.',
  ['inputs', 'histories'], 'all consistent particles (massless to heavy, at rest to ultra-relativistic, any position and direction), all subsets of given quantities, all orders of setting and reading, copies and moves of records',
  'The derivation has dozens of branches chosen by which quantities happen to be set; tests exercise a few subsets at one kinematic point.',
  [D+'dataclasses/private/InteractionRecord.cxx', D+'dataclasses/public/SIREN/dataclasses/InteractionRecord.h', D+'dataclasses/private/Particle.cxx'],
  [('lazy derivation of primary quantities', D+'dataclasses/private/InteractionRecord.cxx PrimaryDistributionRecord::Update*'), ('secondary particle records', D+'dataclasses/private/InteractionRecord.cxx SecondaryParticleRecord'), ('finalisation into the interaction record', D+'dataclasses/private/InteractionRecord.cxx Finalize')],
  'differential runtime monitor: random consistent particles, random given subsets, every getter compared with the generated truth, under ASan+UBSan',
  '40k generated particles per quick run (1.8M thorough); getters compared with the generated truth at rounding-level tolerance')
P('P02', 'Event trees keep their shape through building, saving and loading',
  'An event tree built entry by entry has exactly the parent/daughter relations, depths and order in which it was built, and a saved set of trees loads back equal to what was saved, including trees written in the older pointer-based layout. A save that could not be completed is reported, and a truncated or index-corrupted file is refused with an error: it never loads as a tree with dangling or inconsistent references, crashes or hangs. The comparison of event records is a total order consistent with equality, so records can be used as keys.',
  ['inputs', 'histories', 'fault_sequences'], 'all tree shapes and contents, all truncation points and index corruptions of a saved file, all pairs and triples of event records',
  'Tests load a handful of fixed trees; shapes, cut positions and corruptions are unbounded.',
  [D+'dataclasses/private/InteractionTree.cxx', D+'dataclasses/public/SIREN/dataclasses/InteractionTree.h', D+'dataclasses/private/InteractionRecord.cxx', D+'dataclasses/private/InteractionSignature.cxx', D+'dataclasses/private/ParticleID.cxx'],
  [('tree construction', D+'dataclasses/private/InteractionTree.cxx add_entry'), ('legacy conversion and validation', D+'dataclasses/private/InteractionTree.cxx rebuild_indices_from_legacy, validate_indices'), ('save/load', D+'dataclasses/private/InteractionTree.cxx SaveInteractionTrees, LoadInteractionTrees'), ('record comparison', D+'dataclasses/private/InteractionRecord.cxx operator<, operator==')],
  'shadow-model monitor of tree histories plus fault injection into saved files (every truncation point, index corruption) under ASan+UBSan',
  'random shapes up to hundreds of nodes; all cut points of the saved file of each case; order axioms on record triples')
P('P04', 'Equal seeds give equal events and random draws stay in their range',
  'Two generators with the same seed, or one that is re-seeded, produce the same sequence, and every sampler driven by equal generators produces bit-identical results however many events were drawn before and whatever other objects exist. Uniform and power-law draws stay within the bounds asked for and follow the uniform and power-law shapes.',
  ['inputs', 'histories', 'configurations'], 'all seeds, bounds, indices and sequences of draws; all samplers of energies, directions, masses and helicities',
  'Tests draw once with one seed; reproducibility depends on hidden state in every sampler and on histories of calls.',
  [D+'utilities/private/Random.cxx', D+'utilities/public/SIREN/utilities/Random.h', D+'distributions/private/primary/energy', D+'distributions/private/primary/direction'],
  [('generator', D+'utilities/private/Random.cxx SIREN_random'), ('samplers', D+'distributions/private/primary/*/ *Sample*')],
  'replay monitor: the same seeded workload is run twice on different objects and after different histories and the traces compared bit by bit; shape by Kolmogorov tests',
  'thousands of (sampler, seed, history) replays; Kolmogorov tests at 1e-11 false-alarm level')
P('P05', 'Sampled energies, directions, masses follow the density that is reported',
  'For every primary energy, direction, mass, helicity and external-table distribution, the reported generation density is non-negative, vanishes outside the support, integrates to one over the support, and samples lie in the support and are distributed according to it. Physically normalised fluxes scale it by exactly their normalisation, and an event that could not have been generated gets zero density.',
  ['inputs'], 'all parameters of the distributions (ranges, indices, axes, opening angles, tables with zeros and irregular nodes, weights) and all events',
  'A weight is wrong without any symptom when sampler and density disagree; tests check single points of single parameter sets.',
  [D+'distributions/private/primary/energy', D+'distributions/private/primary/direction', D+'distributions/private/primary/mass', D+'distributions/private/primary/helicity', D+'distributions/private/primary/energy_direction', D+'distributions/private/primary/PrimaryExternalDistribution.cxx', D+'distributions/private/Distributions.cxx'],
  [('samplers and densities', D+'distributions/private/primary SampleEnergy/SampleDirection/Sample* and GenerationProbability'), ('tables', D+'utilities/public/SIREN/utilities/Interpolator.h')],
  'statistical runtime monitor: samples of the real samplers against the CDF obtained by independently integrating the reported density, support and normalisation checks, under ASan+UBSan',
  'about 3000 generated distribution objects per quick run; Kolmogorov distance at 1e-11 false-alarm level, so distortions below about 2-4% of probability mass are not seen')
P('P06', 'Equality and ordering of distributions identify exactly equal distributions',
  'For all primary distributions, equality holds exactly between distributions of the same kind with the same parameters, ordering is a strict total order compatible with it (also across kinds), a clone is equal to its original, and changing any one parameter makes them unequal and ordered one way.',
  ['inputs'], 'all pairs and triples of distributions of all kinds, and all single-parameter changes',
  'Factors shared between generation and physics are cancelled on the basis of these comparisons; tests compare a few equal or very different objects.',
  [D+'distributions/private/Distributions.cxx', D+'distributions/private/primary'],
  [('comparison dispatch', D+'distributions/private/Distributions.cxx operator==, operator<'), ('equal/less of each class', D+'distributions/private/primary/*')],
  'order-axiom monitor on random pairs, triples and single-parameter mutations of real objects',
  'random pools biased to near-equal objects; single-parameter mutation of each constructor argument')
P('P10', 'Density profiles agree with their own derivatives and column depths',
  'For every density profile (constant, polynomial, exponential) along a Cartesian or radial axis, the density at a point is the stated function of the axis coordinate, its directional derivative and antiderivative are those of that function, and the integrated density along any straight segment equals the true integral, whichever way the segment is described and however it is split. Inverting the integral returns the distance at which the depth is reached, with or without an additional constant rate, and reports failure when it is not reached within the allowed distance. Profiles compare equal exactly when axis and parameters are equal, and copies behave identically.',
  ['inputs'], 'all profiles, axes, origins, start points and directions (also perpendicular to the axis and through the centre), distances and target depths',
  'Tests evaluate a few profiles at random points and do not meet degenerate directions or inverse integrals.',
  [D+'detector/public/SIREN/detector/CartesianAxisDensityDistribution.h', D+'detector/public/SIREN/detector/DensityDistribution1D.h', D+'detector/public/SIREN/detector/ConstantDensityDistribution.h', D+'detector/private/PolynomialDistribution1D.cxx', D+'detector/private/ExponentialDistribution1D.cxx', D+'detector/private/CartesianAxis1D.cxx', D+'detector/private/RadialAxis1D.cxx', D+'math/private/Polynomial.cxx', D+'utilities/public/SIREN/utilities/Integration.h'],
  [('integrals and inverse integrals', D+'detector/public/SIREN/detector/*DensityDistribution*.h Integral, InverseIntegral'), ('profiles', D+'detector/private/*Distribution1D.cxx'), ('axes', D+'detector/private/*Axis1D.cxx')],
  'differential runtime monitor against independent Gauss-Legendre integration of the closed-form profile, inverse checked by re-integration, under ASan+UBSan',
  '12.5k generated profiles/lines per quick run; radial integrals compared at 2e-4 (3e-3 through the kink at the centre) because the code integrates them numerically')
P('P11', 'Material composition, nucleon counts and radiation lengths are consistent',
  'A material defined by mass fractions of nuclei, in code or in a file, reports exactly those mass fractions, the matching numbers of nuclei, protons, neutrons, nucleons and electrons per gram, the radiation length of the mixture and radiation shares that add up to one; absent targets report zero and all ways of asking agree. Nuclear codes decode to the right proton, neutron and strangeness counts and atomic masses. Redefining a material leaves nothing of the old definition, names and numbers identify materials one to one, and malformed or truncated files are refused; every material file shipped with the project loads.',
  ['inputs', 'histories', 'fault_sequences'], 'all compositions, all definition/redefinition sequences, all nuclides of the mass table, all file layouts and the malformed variants',
  'Tests compare names and presence, not the numbers, and never a malformed file or a redefinition.',
  [D+'detector/private/MaterialModel.cxx', D+'detector/public/SIREN/detector/MaterialModel.tcc', D+'detector/private/AtomicMasses.cxx', 'resources/detectors'],
  [('bookkeeping', D+'detector/private/MaterialModel.cxx AddMaterial, GetTarget*Fraction'), ('file reader', D+'detector/private/MaterialModel.cxx AddModelFile'), ('nuclear codes', D+'detector/private/MaterialModel.cxx Component, GetNucleonContent')],
  'differential runtime monitor against an independent composition calculation and an independent copy of the atomic mass evaluation; fault injection into material files',
  '2100 models/files plus all 3558 nuclides per quick run')
P('P07', 'Sampled final states conserve energy and momentum',
  'For every interaction model, every sampled final state has exactly the secondaries of its signature, finite, on their mass shells with the masses of their species and the stated helicities, and their total energy and momentum equal those of the primary plus the target, from threshold to ultra-relativistic energies and for every direction of the primary. The kinematic variables stored with the event describe that final state, a final state that was sampled has a positive density, and sampling below threshold is refused.',
  ['inputs'], 'all models with in-tree samplers (heavy neutral lepton decays to leptons, mesons, quarks and bosons, radiative decays, W and Z decays, charm decays, elastic scattering, dipole upscattering, DarkNews upscattering, the dummy model), all channels, masses, energies, directions and seeds',
  'Tests sample a few events of one channel along one axis and do not balance them; errors appear only for particular directions, masses or orders of the secondaries.',
  [D+'interactions/private', 'vendor/rk/rk'],
  [('final state samplers', D+'interactions/private/* SampleFinalState'), ('four vectors and rotations', 'vendor/rk/rk/geom3_Vector3.icc rotationBetween')],
  'conservation monitor over the final states sampled by the real code from random models, channels and kinematics, under ASan+UBSan',
  'about 25k final states per quick run; balance checked at 3e-8 of the total energy')
P('P08', 'Widths, cross sections and channel lists of a model are mutually consistent',
  'For every interaction model the total rate equals the sum over its listed channels, each channel\'s rate equals the stated formula or table (scaled by couplings, units and proton number), is non-negative, opens exactly at its threshold, and mirrors under particle-antiparticle exchange; decay lengths follow from the widths. The lists of primaries, targets and channels agree with one another however they are asked for, unsupported particles and energies outside a table are refused, and models compare equal exactly when all parameters are. A collection of interactions reports for each target the sum over its members and never loses or invents one.',
  ['inputs', 'configurations'], 'all masses (also within 1e-7 of thresholds), couplings, natures, channels, tables, energies, and collections of models',
  'Tests evaluate one mass point, compare the code with itself, or only check that a value is positive.',
  [D+'interactions/private/HNLDecay.cxx', D+'interactions/private/HNLDipoleDecay.cxx', D+'interactions/private/ElectroweakDecay.cxx', D+'interactions/private/CharmMesonDecay.cxx', D+'interactions/private/CharmMesonDecay3Body.cxx', D+'interactions/private/ElasticScattering.cxx', D+'interactions/private/HNLDipoleFromTable.cxx', D+'interactions/private/DarkNewsCrossSection.cxx', D+'interactions/private/DarkNewsDecay.cxx', D+'interactions/private/DummyCrossSection.cxx', D+'interactions/private/InteractionCollection.cxx', D+'interactions/private/Decay.cxx', D+'interactions/private/CrossSection.cxx'],
  [('rates', D+'interactions/private/* TotalDecayWidth, TotalCrossSection, DifferentialCrossSection'), ('channel lists', D+'interactions/private/* GetPossible*'), ('collections', D+'interactions/private/InteractionCollection.cxx')],
  'differential runtime monitor: the real models against independently written formulas, table lookups and summations on random parameters, under ASan+UBSan',
  'about 9k generated models per quick run; references agree to 3e-4 where the code integrates numerically, to rounding elsewhere')
P('P09', 'Sampled final states follow the density that is reported for them',
  'For every interaction model the reported probability density of a final state is the differential rate divided by the total rate, integrates to one over the kinematic variables, and the sampled final states are distributed according to it: angles of decays in the rest frame of polarised particles (with the sign of helicity and particle or antiparticle), energy sharing in three-body decays, and momentum transfer in scattering; azimuths around the primary are uniform.',
  ['inputs'], 'all models, channels, parameters, natures, helicities and primary directions',
  'A sampler and a density that disagree give wrong weights silently; a test that samples a few events cannot see a distorted distribution.',
  [D+'interactions/private', 'vendor/rk/rk'],
  [('samplers', D+'interactions/private/* SampleFinalState'), ('densities', D+'interactions/private/* FinalStateProbability, DifferentialDecayWidth, DifferentialCrossSection')],
  'statistical runtime monitor: Kolmogorov distances between samples of the real code and the independently integrated density, pointwise density comparison and normalisation, under ASan+UBSan',
  'about 400 parameter points with 3000+ final states each per quick run; distortions below about 6-7% of probability mass are not seen; the constant density of the three-neutrino channel is not a normalised density and is not monitored')
P('P20', 'Downloads install complete, verified files or nothing',
  'Whatever the server, the cache and concurrent downloads do, a requested resource file is either installed with exactly the content that its checksum promises or the request fails with an error and leaves the earlier state; interrupted, truncated or corrupted transfers never appear under the final name, and concurrent requests for the same file do not disturb one another. Archives extract only inside their destination, and a cached archive is used only for the archive it is.',
  ['inputs', 'histories', 'fault_sequences'], 'all server behaviours (errors, early close, wrong length, corrupted bytes, redirects), cache states, archive layouts and concurrent schedules',
  'Tests download from mocks that behave; cuts, races and hostile archives are unbounded.',
  ['python/download.py', 'python/_util.py'],
  [('transfer and verification', 'python/download.py'), ('extraction', 'python/download.py')],
  'fault-injection runtime monitor: the real module against a loopback server that cuts, corrupts and delays, with every destination and cache state inspected afterwards',
  'about 300 distinct scenarios per quick run, inside a scratch directory')
P('P21', 'Beamline frames and Earth layers are placed where they are described',
  'Positions, directions and rotations given in one beamline or detector frame are transformed to any other connected frame consistently: transformations compose along every path, invert each other and preserve lengths and handedness, and unknown, duplicate or unconnected frames are refused. Earth and atmosphere layers handed to a detector model have the radii, densities and mass of the tabulated model, keep their order, surround the detector\'s own volumes without displacing any of them, and a layer that cannot be placed is refused rather than dropped.',
  ['inputs', 'configurations'], 'all frame graphs and vectors, all layer tables and atmosphere forms, all detector models and positions of additional volumes',
  'Tests check fixed frames and the canonical layers; composition, inversion and ordering must hold for every graph and layer list.',
  ['resources/detectors/SBN/SBN-v1/sbn_geometry.py', 'python/earth/prem.py', 'python/earth/atmosphere.py', 'python/earth/sectors.py'],
  [('frame graph', 'resources/detectors/SBN/SBN-v1/sbn_geometry.py FrameGraph'), ('layers', 'python/earth/prem.py, python/earth/atmosphere.py'), ('insertion into a detector model', 'python/earth/sectors.py build_earth_sectors')],
  'algebraic runtime monitor over generated frame graphs, layer tables and detector models, against independent matrix composition and integration',
  'about 550 generated situations per quick run; the compiled detector classes are replaced by stand-ins that record what they are given')
P('P17', 'Tabulated functions and numerical integrals reproduce what they represent',
  'A function interpolated from a table returns the tabulated values at the nodes whatever the order of the rows, stays between the neighbouring values inside a cell (linearly, or along the power law on logarithmic grids, linearly next to zeros), is never negative, reports the range of the table, and tables compare equal exactly when their content is. Numerical integrals agree with the exact integral to the requested tolerance, restricted integrals of tabulated points are exact for the piecewise linear function and additive over adjacent ranges, and non-convergence or inconsistent input is reported instead of a value.',
  ['inputs'], 'all grids (regular, logarithmic, irregular, starting at or below zero), row orders, values over many decades, ranges, integrands and tolerances',
  'Tests use a few fixed grids and integrands; cell selection and the choice of scale depend on the nodes and on rounding.',
  [D+'utilities/public/SIREN/utilities/Interpolator.h', D+'utilities/private/Interpolator.cxx', D+'utilities/public/SIREN/utilities/Integration.h'],
  [('tables', D+'utilities/public/SIREN/utilities/Interpolator.h'), ('integration', D+'utilities/public/SIREN/utilities/Integration.h')],
  'differential runtime monitor: the real interpolators and integrators against long-double references on random tables and integrands, under ASan+UBSan',
  'about 10k tables and integrals per quick run; queries inside the range of the table')
P('P18', 'Rotations, vectors and polynomials obey their algebra',
  'Quaternions, rotation matrices, axis-angle pairs and the Euler angles of all 24 orders describe the same rotation when converted into one another, also at and near gimbal lock; rotations preserve lengths and handedness, compose by multiplication and are undone by their inverse, and the rotation between two directions takes one onto the other, opposite and nearly opposite ones included. Vector and matrix arithmetic, spherical coordinates, deflection of a direction, and evaluation, shift, scaling, differentiation and integration of polynomials are exact to rounding; a bracketed root is found inside its bracket and an unbracketed one is refused.',
  ['inputs'], 'all rotations, Euler orders and angles, vectors over many decades, polynomials up to degree six, and bracketed monotone functions with arbitrary starting points',
  'Tests rotate coordinate axes by quarter turns; errors hide in particular orders, signs, opposite directions and degenerate angles.',
  [D+'math/private', D+'math/public/SIREN/math'],
  [('rotations', D+'math/private/Quaternion.cxx, '+D+'math/public/SIREN/math/Conversions.h, EulerQuaternionConversions.h'), ('vectors and matrices', D+'math/private/Vector3D.cxx, Matrix3D.cxx'), ('polynomials and roots', D+'math/private/Polynomial.cxx')],
  'differential runtime monitor against an independent long-double rotation algebra on random and degenerate inputs, under ASan+UBSan',
  'about 22k cases per quick run; in-place multiplication of quaternions (which multiplies from the left) is not monitored')
P('P19', 'Particle identifiers are never given out twice',
  'Every identifier the library creates is set and differs from every other one, whatever the number of threads creating them at the same time and however often the process has been forked before, between or after; all identifiers of one process share one origin and no two processes share one. An identifier that a particle already has is kept when the particle is passed on, a missing one is created, and identifiers compare equal exactly when all their parts are.',
  ['histories', 'inputs'], 'all thread counts, interleavings, process trees and ways to create an identifier (directly, through a particle, through a record)',
  'Tests create identifiers in one thread of one process; collisions need a particular interleaving right after a fork.',
  [D+'dataclasses/private/ParticleID.cxx', D+'dataclasses/private/InteractionRecord.cxx', D+'dataclasses/private/Particle.cxx'],
  [('generation', D+'dataclasses/private/ParticleID.cxx ParticleID::GenerateID'), ('propagation', D+'dataclasses/private/InteractionRecord.cxx')],
  'uniqueness monitor over identifiers drawn by racing threads and forked process trees, with delays injected at every load, store and branch of the real code, plus ThreadSanitizer',
  'about 400 schedules and 1000 processes per quick run')
P('P03', 'Saved objects come back as they were',
  'Everything the library can save - records, tables, materials, densities, geometries, distributions, range functions, interactions, collections, processes, detectors and generators - is read back from a text or binary archive with the same concrete type, comparing equal and behaving identically: same values, same densities, same draws from the same seed, and saved again it gives the same archive. Objects shared inside what was saved are shared after loading; a random generator restarts the sequence of its seed. Archives of a newer class version and archives cut off anywhere are refused with an error.',
  ['inputs', 'fault_sequences'], 'all objects of every serialisable class, saved directly or through a base class or container, in each archive format, and every truncation point',
  'Tests save one object of a few classes; a member left out of an archive, swapped on loading or not rebuilt shows only for particular parameter values or when behaviour is compared after loading.',
  [D+'distributions/public', D+'interactions/public', D+'detector/public', D+'injection/public/SIREN/injection/Process.h', D+'math/public', D+'utilities/public', D+'dataclasses/public', D+'geometry/public'],
  [('save, load and load_and_construct', 'the serialisation members of the classes under '+D+'*/public'), ('polymorphic registration', D+'*/public/**/serializable.h and the class headers')],
  'round-trip monitor: saved and loaded objects of every class compared by type, value and behaviour; archives re-saved, truncated and re-versioned, under ASan+UBSan',
  'about 8k objects per quick run; classes that need optional external packages (photospline, Marley, Pythia, python trampolines) are not loaded')
P('P12', 'A line crosses a solid exactly at the boundary of its region',
  'For every solid - box, sphere, cylinder, cone, trapezoids, parallelepiped, ellipsoid, elliptical tube, torus, cut tube, polycones, polyhedra, extruded polygons, triangle meshes and their unions, intersections and differences - with any radial, azimuthal or polar cut and any placement, the ordered list of crossings of a line tells for every point of the line whether it lies in the region the parameters describe, with entering and leaving alternating and each crossing on the line. Containment queries agree with it, the bounding boxes hold the whole solid, and local and global queries agree. Copies, assignments and swaps behave as the original, and solids are ordered consistently with equality.',
  ['inputs'], 'all solids, parameters, cuts, placements, nested combinations and lines',
  'Tests sample a handful of lines per solid; a wrong cut, root or tolerance shows only for particular shapes, sizes, distances and directions.',
  [D+'geometry/private', D+'geometry/public'],
  [('crossings', D+'geometry/private/*.cxx ComputeIntersections'), ('azimuthal cuts', D+'geometry/private/PhiUtils.h'), ('combinations', D+'geometry/private/BooleanGeometry.cxx'), ('mesh search', D+'geometry/private/GeometryMesh.cxx')],
  'trace monitor: the crossings reported by the real code are replayed against an independent long-double description of each region along the line, under ASan+UBSan',
  'about 8k solids and 100k lines per quick run; lines exactly through an edge, corner or seam are not judged')
P('P13', 'A placement is the rotation and shift it was given',
  'Positions and directions are taken from the frame of a placed object to the surrounding frame and back by exactly the rotation and shift given, whatever the scale of the rotation parameters; going there and back returns the starting point and directions keep their length. A placement counts as trivial only if it moves nothing, and copying, moving, assigning, swapping and changing one part of it keeps everything else.',
  ['inputs'], 'all positions, rotations (of any normalisation, near the identity, by half turns), points and directions',
  'Tests use a few rotations about axes; errors of order, sign, normalisation or a stale identity flag need general rotations.',
  [D+'geometry/private/Placement.cxx', D+'geometry/public/SIREN/geometry/Placement.h'],
  [('transformations', D+'geometry/private/Placement.cxx')],
  'differential runtime monitor against an independent long-double rotation matrix, under ASan+UBSan', 'about 8k placements per quick run')
P('P14', 'The search tree of a mesh finds every triangle a line or box meets',
  'Whatever the triangles, the search tree built over a mesh holds every triangle in every part of space the triangle reaches, and a line is reported to cross exactly the triangles it crosses, at the right place and orientation. Clipping a triangle to a box gives the part of the triangle in the box, boxes overlap and are hit exactly when they share points, and the split chosen is the cheapest of those considered, never losing or duplicating triangles.',
  ['inputs'], 'all meshes (closed, open, flat, tiny, degenerate, far from the origin), lines, boxes and splits',
  'Tests build one or two meshes; a triangle dropped from one branch of the tree, or a clip outside its box, shows only for particular positions.',
  [D+'geometry/private/MeshBuilder.cxx', D+'geometry/public/SIREN/geometry/MeshBuilder.h'],
  [('tree', D+'geometry/private/MeshBuilder.cxx'), ('clipping and overlap', D+'geometry/private/MeshBuilder.cxx')],
  'differential runtime monitor: every tree query of the real code against brute force over all triangles, under ASan+UBSan', 'about 30k queries per quick run')
P('P15', 'Lepton depths and decay ranges are what losses and lifetime give',
  'The depth reserved for a produced lepton is the depth over which its energy is used up by the constant and proportional losses given (for a tau neutrino the tau and then the muon), and the decay range is the mean distance flown at that energy times the multiplier; both are capped at the maximum given and never shrink when the energy grows. Parameters are kept as set, and comparison and ordering of such functions, of the same or of different kinds, distinguish every parameter and are consistent.',
  ['inputs'], 'all particle types, energies, masses, widths, loss parameters, multipliers, caps, and pairs of functions of any kinds',
  'Tests evaluate a few energies with the default parameters; a slip for one particle type, one parameter in a comparison or one energy decade is not sampled.',
  [D+'distributions/private/primary/vertex/LeptonDepthFunction.cxx', D+'distributions/private/primary/vertex/DecayRangeFunction.cxx', D+'distributions/private/primary/vertex/RangeFunction.cxx', D+'distributions/private/primary/vertex/DepthFunction.cxx'],
  [('depth', D+'distributions/private/primary/vertex/LeptonDepthFunction.cxx'), ('range', D+'distributions/private/primary/vertex/DecayRangeFunction.cxx')],
  'differential runtime monitor against independent long-double formulas and a step-by-step loss integral, and an ordering monitor, under ASan+UBSan', 'about 16k functions per quick run')
P('P16', 'A process keeps its type, interactions and distinct distributions in step',
  'Through any sequence of adding, setting, copying, moving and assigning, a process holds exactly the particle type, interactions and distributions it was given, in order; a distribution equal to one already held is refused whether added singly or set as a list, and a refused operation changes nothing. For an injection process the distributions used for weighting are always exactly those used for injection, and changing the particle type changes it in the interactions too.',
  ['histories', 'inputs'], 'all histories of operations on physical, primary injection and secondary injection processes',
  'Tests do single operations; a list that gets out of step, or a refused operation that leaves a trace, needs a particular sequence.',
  [D+'injection/private/Process.cxx', D+'injection/public/SIREN/injection/Process.h'],
  [('processes', D+'injection/private/Process.cxx')],
  'history monitor: random operation sequences on the real objects compared after every step with a model of what they should hold, under ASan+UBSan', 'about 7.5k histories of up to 15 steps per quick run')
P('P22', 'The detector model knows what is where and how much of it lies on a line',
  'At every point the material and density are those of the innermost declared region holding the point, in detector and geometry coordinates alike, and along any line the regions passed, column depths and interaction depths are those of that description; asking for the distance at which a depth is reached undoes asking for the depth. A refused region or a defective detector file changes nothing and is reported, shipped detectors load, and many threads may query one model at once.',
  ['inputs', 'histories', 'fault_sequences'], 'all detector models (any solids, densities, levels, placements, origins and rotations), lines, targets, histories of edits, detector files and query schedules',
  'Tests load a few shipped detectors and ask along a few lines; a wrong sign, a forgotten decay or a missing sector shows only for particular layouts and lines, and a race only for particular schedules.',
  [D+'detector/private/DetectorModel.cxx', D+'detector/public/SIREN/detector/DetectorModel.h'],
  [('sector lookup and depth integrals', D+'detector/private/DetectorModel.cxx'), ('file loading', D+'detector/private/DetectorModel.cxx')],
  'differential runtime monitor: random models queried through the real code against an independent long-double walk over the declared regions, under ASan+UBSan, and concurrent queries under ThreadSanitizer', 'models without an all-embracing region, grazing lines and points on surfaces are not judged')
P('P23', 'A path through the detector stays consistent whatever is done to it',
  'Through any sequence of setting, flipping, extending, shrinking and clipping, the end points, direction and length of a path describe one and the same segment in detector and geometry coordinates, and each operation changes it by exactly the distance or depth asked for at the end asked for. Column depths, interaction depths and distances along the path are those of the detector model between the same points, clipping keeps exactly the part within the outer bounds of the detector, and operations that lack points or a model are refused.',
  ['histories', 'inputs'], 'all histories of path operations over all detector models, lines, targets and cross sections',
  'Tests follow one straight path through one detector; a cached intersection list or depth that outlives the operation that should have refreshed it needs a particular sequence.',
  [D+'detector/private/Path.cxx', D+'detector/public/SIREN/detector/Path.h'],
  [('path state', D+'detector/private/Path.cxx')],
  'history monitor: random operation sequences on real paths compared after every step with a long-double segment and independent depth integrals, under ASan+UBSan', 'grazing lines are not judged; the code reuses intersections of nearly coinciding lines within a documented tolerance')
P('P24', 'Vertices lie where they may, with the density the generator claims',
  'A vertex placed by any position distribution lies on the particle\'s line, within the volume, disk, target, fiducial region, length and detector bounds the distribution is given, and its reported bounds and start are those of that stretch; vertices follow the interactions the detector offers along the line. The generation density reported for a vertex is the density vertices are really placed with, never undefined, and zero wherever none can be placed; where nothing can interact no vertex is placed and that is reported as an injection failure, and distributions compare equal only when all their parameters do.',
  ['inputs', 'histories'], 'all detector models, lines, particles, cross sections and decays, and all parameters of the primary and secondary position distributions',
  'Tests place vertices in one or two detectors with short decay-free particles; a density that disagrees with the sampling biases event weights silently and shows only for particular geometries, decays or depths.',
  [D+'distributions/private/primary/vertex/PointSourcePositionDistribution.cxx', D+'distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx', D+'distributions/private/primary/vertex/RangePositionDistribution.cxx', D+'distributions/private/primary/vertex/DecayRangePositionDistribution.cxx', D+'distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx', D+'distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx', D+'distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx', D+'distributions/private/primary/vertex/CylinderVolumePositionDistribution.cxx', D+'distributions/private/primary/vertex/SphereVolumePositionDistribution.cxx'],
  [('vertex sampling and densities', D+'distributions/private/primary/vertex/PointSourcePositionDistribution.cxx'), ('comparison', D+'distributions/private/primary/vertex/RangePositionDistribution.cxx')],
  'differential runtime monitor: vertices sampled by the real code in random detectors with interactions of known totals are checked one by one against an independent stretch and density, and pooled by Kolmogorov-Smirnov tests, under ASan+UBSan', 'grazing lines and stretches whose ends nearly coincide with a surface are not judged; the density of a point source off its ray is not judged')
P('P25', 'Generated events tell one consistent story in the right proportions',
  'Every interaction of a generated event continues exactly one particle of its parent with that particle\'s identity, momentum, mass, helicity, place and time, every secondary that has a process and is not stopped continues exactly once, and each interaction is one that can happen where it takes place, complete with its secondaries, target and times. Among the interactions possible at a vertex each is drawn in proportion to its rate there, with the final state of the one drawn. An injector makes as many attempts as it was asked for and no more, says truthfully whether there are more to come, and counts attempts, events and event numbers accordingly.',
  ['inputs', 'histories', 'configurations'], 'all detector models, interaction collections, chains of secondary processes, stopping conditions and sequences of calls to an injector',
  'The tests that run whole injectors need data files and compare a few histograms; lost or doubled secondaries, a decay chosen with the wrong odds or a miscounted attempt need particular chains and mixtures.',
  [D+'injection/private/Injector.cxx', D+'injection/private/WeightingUtils.cxx', D+'dataclasses/private/InteractionRecord.cxx', D+'dataclasses/private/InteractionTree.cxx'],
  [('event generation', D+'injection/private/Injector.cxx'), ('choice of the interaction', D+'injection/private/Injector.cxx')],
  'event-log monitor: every tree that a real injector generates in random detectors with random chains of processes is replayed against its inputs and the log of stopping-condition calls; choices are tallied against their rates with Bernstein bounds, under ASan+UBSan', 'places within 1e-5 of an edge are not judged for rates')
P('P26', 'Event weights turn generated events into the physical expectation',
  'The weight of an event is the physical probability of its story divided by the density with which all the given injectors together would have generated it; injectors that cannot generate an event do not change its weight, and distributions that are both physical and generated cancel. Interaction and survival probabilities are those of the matter between the bounds of the generation. Summed over generated events, weights give the expected number of interactions, whatever spectra and how many injectors the events came from.',
  ['inputs', 'configurations'], 'all events, injectors, mixtures of injectors, physical and generation distributions and detector models',
  'A weight that is wrong by a factor passes every test that does not recompute it; mixtures of injectors, shared distributions and missing processes each need their own set-up.',
  [D+'injection/private/Weighter.cxx', D+'injection/public/SIREN/injection/Weighter.tcc', D+'injection/private/WeightingUtils.cxx', D+'injection/private/Injector.cxx'],
  [('event weight', D+'injection/private/Weighter.cxx'), ('process weights', D+'injection/public/SIREN/injection/Weighter.tcc')],
  'differential runtime monitor: weights and probabilities the real weighter reports for generated events are recomputed from the parts, and closure of the weights is tallied with Bernstein bounds, under ASan+UBSan', 'events in vacuum (depth below 1e-25), at edges, or behind a depth above 300 are not judged; point sources are not mixed with volume distributions')
P('P27', 'A saved detector, injector or weighter comes back as it was',
  'A detector model that is saved and loaded, in any of the formats and into a new or a used object, answers every question about places, directions, densities, depths and targets as before. A loaded injector remembers how far it had come, has exactly the processes it was saved with, and given the same random numbers generates the same events as the original with the same generation probabilities; one made from a file generates the number of events asked for. A loaded weighter gives every event the weight the original gives it, and a save that could not be completed is reported.',
  ['inputs', 'histories'], 'all detector models, injectors at any point of their run, weighters, formats, and objects loaded into',
  'What is left out of a file only shows when the loaded object is used in a way that depends on it: a rotated detector, secondaries of an injector loaded over another one, distributions shared between injector and weighter.',
  [D+'detector/public/SIREN/detector/DetectorModel.h', D+'injection/public/SIREN/injection/Injector.h', D+'injection/public/SIREN/injection/Weighter.h', D+'injection/private/Injector.cxx', D+'injection/private/Weighter.cxx'],
  [('what a detector file holds', D+'detector/public/SIREN/detector/DetectorModel.h'), ('what an injector file holds', D+'injection/public/SIREN/injection/Injector.h')],
  'differential runtime monitor: original and loaded object answer the same questions and run on the same random numbers; every event, probability and weight is compared, under ASan+UBSan, with truncated and newer files as hostile input', 'stand-in cross sections, decays and ranges that can be saved; stopping conditions are functions and not saved')
