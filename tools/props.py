DIST = ('h_dist', ['distributions'], 'san')
PROPS = {
 'P01': dict(harness=[('h_records', ['dataclasses'], 'san')], min_evals=10000,
   rule='distinct = (quantity read, set of quantities that had been given) pairs, plus finalisation states; each case is one randomly generated consistent particle of which a random subset was given',
   assumptions=['the given quantities are mutually consistent up to rounding']),
 'P02': dict(harness=[('h_tree', ['dataclasses'], 'san')], min_evals=10000,
   rule='distinct = tree shapes (parent vectors), cut positions, corruption kinds and legacy shapes that the monitors examined'),
 'P04': dict(harness=[DIST], min_evals=10000,
   rule='distinct = (seed, number of draws) of the generator and (sampler kind, number of events) replayed under the same seed'),
 'P05': dict(harness=[DIST], min_evals=10000,
   rule='distinct = distribution objects with generated parameters whose density, support and samples were examined',
   assumptions=['Kolmogorov distances are tested at a false alarm probability of about 1e-11 each']),
 'P06': dict(harness=[DIST], min_evals=10000,
   rule='distinct = (type pair, outcome of ==,<,>) combinations and single-parameter differences compared'),
 'P10': dict(harness=[('h_density', ['detector'], 'san')], min_evals=10000, rule='distinct = (profile kind, axis kind, line geometry) combinations, difference kinds and profile shapes'),
 'P11': dict(harness=[('h_density', ['detector'], 'san')], min_evals=10000, rule='distinct = nuclides, material shapes, file defects and shipped materials examined'),
 'P07': dict(harness=[('h_inter', ['interactions'], 'san')], min_evals=10000, rule='distinct = (interaction kind, channel, primary kinematic regime) combinations whose sampled final states were balanced', assumptions=['the primary in the record is on shell and the channel is open']),
 'P08': dict(harness=[('h_inter', ['interactions'], 'san')], min_evals=10000, rule='distinct = (model, channel, parameter regime) combinations whose widths, cross sections, thresholds and signature lists were compared'),
 'P09': dict(harness=[('h_inter', ['interactions'], 'san')], min_evals=5000, rule='distinct = (model, channel, parameter regime) combinations whose samples and reported density were compared', assumptions=['Kolmogorov distances are tested at a false alarm probability of about 1e-11 each', 'the stationary bias of the finite Markov chains inside the samplers is bounded analytically; parameter points where that bound exceeds one per cent are skipped']),
 'P20': dict(script=['scripts/p20_download.py'], min_evals=100, rule='distinct = (server behaviour, file kind, cache state, concurrency) scenarios'),
 'P21': dict(script=['scripts/p21_frames.py'], min_evals=1000, rule='distinct = generated frame graphs, inputs and geometries examined'),
 'P17': dict(harness=[('h_math', ['math', 'utilities'], 'san')], min_evals=10000, rule='distinct = (grid kind, number of nodes, value kind, scale chosen) of tables and (integrand, tolerance, refinement) of integrals'),
 'P18': dict(harness=[('h_math', ['math', 'utilities'], 'san')], min_evals=10000, rule='distinct = (Euler order, distance from gimbal lock) pairs, direction pair kinds and distances, polynomial degrees and evaluation points, and generated vectors and matrices'),
 'P19': dict(harness=[('h_ids', ['dataclasses'], 'sched'), ('h_ids', ['dataclasses'], 'tsan')], min_evals=3000, rule='distinct = (number of threads or shape of the process tree, way of creating identifiers, delay injection rate) combinations', assumptions=['fork is called while no other thread of the process is creating an identifier']),
 'P03': dict(harness=[('h_serial', ['injection'], 'sanreg')], min_evals=20000, rule='distinct = (class, archive format) pairs saved, loaded, compared and attacked'),
 'P12': dict(harness=[('h_geom', ['geometry'], 'san')], min_evals=100000, rule='distinct = (solid, kind of line, number of crossings) combinations and pairs of solids compared', assumptions=['lines keep a distance of a thousandth of the size of the solid from its edges, corners and seams']),
 'P13': dict(harness=[('h_geom', ['geometry'], 'san')], min_evals=10000, rule='distinct = (way of building the placement, identity flag, amount of rotation) combinations'),
 'P14': dict(harness=[('h_geom', ['geometry'], 'san')], min_evals=10000, rule='distinct = (mesh, split policy, line or box geometry, depth) combinations'),
 'P15': dict(harness=[('h_proc', ['injection'], 'san')], min_evals=50000, rule='distinct = (default or set parameters, tau or not, decade of energy, capped or not) combinations'),
 'P16': dict(harness=[('h_proc', ['injection'], 'san')], min_evals=20000, rule='distinct = (kind of process, sequence of the first operations) combinations'),
 'P22': dict(harness=[('h_det', ['detector', 'geometry', 'math', 'utilities', 'dataclasses'], 'san'), ('h_detmt', ['detector', 'geometry', 'math', 'utilities', 'dataclasses'], 'tsan')], min_evals=20000, rule='distinct = (number and shapes of regions, kind of line, target set, file defect, edit sequence) combinations', assumptions=['lines and points keep a distance of some 1e-6 of the size of the model from the surfaces of regions']),
 'P23': dict(harness=[('h_path', ['detector', 'geometry', 'math', 'utilities', 'dataclasses'], 'san')], min_evals=20000, rule='distinct = (operations so far, open or closed path, targets, cross sections) combinations', assumptions=['lines keep a distance of some 1e-6 of the size of the model from the edges of regions']),
 'P24': dict(harness=[('h_vertex', ['distributions'], 'san')], min_evals=50000, rule='distinct = (distribution, detector layout, fiducial volume or not, open or bounded, decade of interaction depth, targets, decays) combinations', assumptions=['lines keep a distance of some 1e-6 of the size of the model from the edges of regions']),
 'P25': dict(harness=[('h_inject', ['injection'], 'san')], min_evals=50000, rule='distinct = (position distribution, interactions in the event, depth of the chain, kinds of secondaries, decay or not) and (targets, decays, cross sections, channels, dominance) combinations', assumptions=['interactions have totals known in closed form']),
 'P26': dict(harness=[('h_inject', ['injection'], 'san')], min_evals=30000, rule='distinct = (position distribution, number of injectors, injectors unable to generate the event, interactions in the event, physical distributions, normalization, decade of depth) combinations', assumptions=['interactions have totals known in closed form']),
 'P27': dict(harness=[('h_save', ['injection'], 'san')], min_evals=30000, rule='distinct = (detector layout, format, number of regions), (position distribution, way of saving, interactions in the event) and (way of saving, number of injectors, interactions) combinations'),
}
