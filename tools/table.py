"""The properties: one entry each, with what the manifest says about its check."""
HOOK_COMMITS = []
NOTES = ('All checks run the real code of /repo (Python modules in place, C++ modules rebuilt into /verif/.build) in forked '
         'children of one process. ./check replay FILE re-executes a replay file. No hooks were needed in /repo.')

TECH = 'deterministic simulation: seeded random worlds and schedules, real code, independent reference model checked after every step'
NOTE = ('Seeded search, not exhaustive: assurance is proportional to the runs reported in the evidence. Trusts the reference '
        'model in /verif/dtsim, dolfin and numpy. ')

PROPS = [
 dict(id='C01', title='Particle storage behaves as one growable sequence',
  statement='Whatever sequence of appends, full-index reads and writes, in/out passes that keep or drop items, and observers is '
            'applied to a particle store, its contents, order, item count and the index each append reports are those of a plain '
            'sequence. This holds for every segment length, for the Python and the C++ store, and after an allocation failure '
            'the store still holds exactly what it held before.',
  quantifier=dict(over=['histories', 'configurations', 'fault_sequences'],
                  text='every history of operations, every segment length and record layout, every allocation that may fail'),
  why_tests_cant='The tests use a couple of fixed histories with one segment length; emptied stores, exact multiples of the '
                 'segment length, repeated in/out swaps, and failing allocations are not reached.',
  anchors=dict(files=['SegmentedArrayPair_Module.py', 'cpp/SegmentedArrayPair.h'],
   mechanism=[dict(name='push_back, get_next_out_segment, set_number_of_items, init_inout_loop', where='SegmentedArrayPair_Module.py'),
              dict(name='SegmentedArrayPair<PT>', where='cpp/SegmentedArrayPair.h')],
   state=[dict(name='segment lists, first open segment, in/out selector', meaning='which storage is live', where='SegmentedArrayPair_Module.py')],
   observe_at=['get_number_of_items', 'get_segment_and_offset', 'init_out_loop/get_next_segment'], hook_needed=None),
  technique='deterministic simulation with allocation-failure injection; refinement against a Python list',
  level_note=NOTE + 'Allocation failures are injected at numpy.empty (Python store only).'),
 dict(id='C02', title='Advancing particles neither loses, duplicates nor alters them',
  statement='At every moment each species holds exactly the particles that were created in it and have not since been absorbed '
            'by a boundary or marked for removal, each once, with the identity and weight it was created with; the reported '
            'counts and every loop over the species agree with that. This holds for any mix of advances, sources, '
            'observers and deletions, any segment length and either engine.',
  quantifier=dict(over=['histories', 'inputs', 'configurations'],
                  text='every schedule of operations on every mesh, wall layout, field, particle set, segment length and engine'),
  why_tests_cant='The tests move a handful of particles for a few steps with segments that never fill exactly or empty; most '
                 'never delete across segments.',
  anchors=dict(files=['Particle_Module.py', 'SegmentedArrayPair_Module.py', 'cpp/advance_*.cpp', 'cpp/SegmentedArrayPair.h'],
   mechanism=[dict(name='in/out copy loop of every mover and its out counter', where='Particle_Module.py, cpp/advance_*.cpp'),
              dict(name='delete flag handling', where='Particle_Module.py, cpp/advance_*.cpp')],
   observe_at=['get_species_particle_count', 'get_total_particle_count', 'storage contents'], hook_needed=None),
  technique=TECH, level_note=NOTE + 'Which particles must be absorbed comes from brute-force ray tracing over all facets.'),
 dict(id='C03', title='Every stored particle lies in the cell recorded for it',
  statement='After particles are placed on the mesh and after every advance, each stored particle has the index of a mesh cell '
            'that geometrically contains its position, and the number of facets it is recorded to have crossed in its last move '
            'is the number its path crossed.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'],
                  text='every mesh of the supported dimensions, every particle position and velocity, every number of cells crossed in a step'),
  why_tests_cant='The tests use one or two regular meshes and a few straight paths; multi-cell crossings, reflections followed by '
                 'crossings and irregular meshes are not covered.',
  anchors=dict(files=['Particle_Module.py', 'Dolfin_Module.py', 'cpp/dolfin_functions.cpp', 'cpp/MeshEntityArrays.h', 'cpp/advance_*.cpp'],
   mechanism=[dict(name='facet-by-facet tracking loop', where='Particle_Module.py, cpp/advance_*.cpp'),
              dict(name='find_facet, is_inside_cell, neighbour and normal tables', where='Dolfin_Module.py, cpp/dolfin_functions.cpp, cpp/MeshEntityArrays.cpp'),
              dict(name='compute_mesh_cell_indices', where='Particle_Module.py')],
   observe_at=['cell_index, crossings and coordinates in storage'], hook_needed=None),
  technique=TECH, level_note=NOTE + 'Cell membership by barycentric coordinates with tolerance 1e-8.'),
 dict(id='C04', title='Boundaries act on exactly the particles that meet them',
  statement='Each time a particle\'s path meets a marked facet, the most specific user function for that boundary and species, and no '
            'other, is applied to that particle, in path order, with the crossing point, fraction and normal of that facet (unit vector pointing out of the cell left); '
            'a particle is removed if and only if such a function absorbed it, and a reflected particle continues on the mirrored path.',
  quantifier=dict(over=['inputs', 'configurations', 'histories'],
                  text='every assignment of boundary functions to boundaries and species, every path, any number of boundary meetings per step'),
  why_tests_cant='The tests define one set of functions and check a few single reflections or absorptions.',
  anchors=dict(files=['Particle_Module.py', 'Dolfin_Module.py', 'cpp/ParticleMeshBoundaryConditions.h', 'cpp/UserParticleBoundaryFunctions.h',
                      'cpp/UPBFs_spherical_r.h', 'cpp/Pstruct.h', 'cpp/advance_*.cpp', 'UserParticles_*.py'],
   mechanism=[dict(name='boundary function lookup by name', where='Particle_Module.py: ParticleMeshBoundaryConditions_C; cpp/ParticleMeshBoundaryConditions.h'),
              dict(name='facet marker test in the tracking loop', where='Particle_Module.py, cpp/advance_*.cpp'),
              dict(name='reflect_from_surface', where='cpp/Pstruct.h')],
   observe_at=['calls of the user functions', 'stored particles'], hook_needed=None),
  technique=TECH, level_note=NOTE + 'C++ engine: judged by the effect of the compiled boundary functions, since calls cannot be observed.'),
 dict(id='C05', title='Each particle follows its own equation of motion',
  statement='One advance changes a charged particle\'s velocity by charge/mass times the field at its own position times the time step '
            'and then moves it by the new velocity times the time step (a neutral one by its velocity), apart from what '
            'boundaries do; particles of species that are not advanced do not change. The result does not depend on other '
            'particles, on segment boundaries or on what was done before.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'],
                  text='every field, species, time step, position and velocity, and every arrangement of particles in storage'),
  why_tests_cant='The tests check a few particles in a single segment on fixed meshes.',
  anchors=dict(files=['Particle_Module.py', 'Dolfin_Module.py', 'cpp/advance_*.cpp', 'cpp/dolfin_functions.cpp'],
   mechanism=[dict(name='explicit movers', where='Particle_Module.py, cpp/advance_*.cpp'),
              dict(name='interpolate_field_to_points', where='Dolfin_Module.py, cpp/dolfin_functions.cpp')],
   observe_at=['coordinates and velocities in storage'], hook_needed=None),
  technique=TECH, level_note=NOTE + 'Relative tolerance 2e-9 per facet crossed. C++ engine: cell-constant fields, as documented there.'),
 dict(id='C06', title='The Python and the C++ engine give the same history',
  statement='Given the same mesh, boundaries, field, particles and operations, the Python engine and the C++ engine keep the same '
            'particles with the same positions, velocities, cells, crossings and weights, and record the same trajectories, '
            'to rounding, after every step, for every dimension both support and every segment length.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'],
                  text='every world both engines support and every schedule of operations on it'),
  why_tests_cant='The tests compare each engine with stored numbers for a few cases; the two engines are never run on the same history.',
  anchors=dict(files=['Particle_Module.py', 'SegmentedArrayPair_Module.py', 'Dolfin_Module.py', 'cpp/advance_*.cpp', 'cpp/SegmentedArrayPair.h'],
   mechanism=[dict(name='use_cpp_integrators: one mover per engine', where='Particle_Module.py, cpp/advance_*.cpp')],
   observe_at=['stored particles', 'trajectory lists'], hook_needed=None),
  technique='deterministic simulation: one seeded schedule run on both engines in lock step, states compared after every operation',
  level_note=NOTE + 'Trajectory points of particles already absorbed or marked for removal are not compared.'),
 dict(id='C07', title='Trajectories hold exactly the history of their particle',
  statement='Each trajectory that is being recorded receives, at every record call and at every boundary meeting, one point with the state '
            'of its own particle and the field that acted on it at that moment, in time order and without gaps, until the '
            'trajectory is full or its particle is removed; storage moves, deletions and other trajectories do not affect it.',
  quantifier=dict(over=['inputs', 'histories', 'configurations'],
                  text='every schedule of advances, record calls, injections and deletions, every number of traced particles, capacity, segment length and engine'),
  why_tests_cant='The tests record a few particles that stay at the same storage index; index updates after deletions, full '
                 'trajectories beside unfinished ones and boundary points are not covered.',
  anchors=dict(files=['Particle_Module.py', 'Trajectory_Module.py', 'cpp/Trajectory.h', 'cpp/advance_*.cpp'],
   mechanism=[dict(name='record_trajectory_data / record_trajectory_datum', where='Particle_Module.py'),
              dict(name='trajectory index update in the in/out copy', where='Particle_Module.py, cpp/advance_*.cpp')],
   observe_at=['traj_T.data_list, trajectory_length, particle_index_list'], hook_needed=None),
  technique=TECH, level_note=NOTE + 'Points after a particle has met an absorbing facet inside the mesh are not judged.'),
 dict(id='C08', title='Diagnostics and histories report the particles and change nothing',
  statement='At any moment the reported particle count, number and kinetic energy of each species are the sums over exactly the '
            'particles it then holds, and each history record appends one row with the step, the time and these sums per '
            'species and in total, without altering earlier rows; a limit on the number of history points is kept to. Asking '
            'for diagnostics or recording a history changes no particle, trajectory or field, also when a '
            'user-supplied history function fails.',
  quantifier=dict(over=['histories', 'inputs', 'fault_sequences'],
                  text='every schedule of state changes and records, every segment length, fill and engine, any user function that raises'),
  why_tests_cant='The tests compute sums for a few particles in one segment and never look at what a diagnostic leaves behind; '
                 'empty species, partly filled segments and failing user functions are not reached.',
  anchors=dict(files=['Particle_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py', 'cpp/SegmentedArrayPair.h'],
   mechanism=[dict(name='get_species_particle_count, get_species_number, get_species_KE, record_history_data', where='Particle_Module.py'),
              dict(name='ParticleHistory_C', where='RecordedData_Module.py')],
   observe_at=['return values', 'ParticleHistory_C.data_array'], hook_needed=None),
  technique='deterministic simulation: seeded schedules of state changes and observers with failing user functions; sums recomputed from the storage',
  level_note=NOTE + 'History columns are single precision in the code (3e-7).'),
 dict(id='C09', title='The particle snapshot file is faithful and survives faults',
  statement='After a call to write a snapshot has returned, the file holds for every snapshot written so far the time and, for '
            'each requested attribute, the values of exactly the particles stored at that moment, whatever happened in '
            'between: later snapshots, failed calls, disk errors, failed allocations or the death of the process. A call that '
            'fails can be repeated once the cause is gone, a step is written once, and writing changes no particle.',
  quantifier=dict(over=['histories', 'fault_sequences', 'crash_points'],
                  text='every schedule of state changes, new files and writes, every position of a disk or allocation failure, every moment of death outside an HDF5 flush'),
  why_tests_cant='The tests write one or two snapshots to a good disk and do not read them back.',
  anchors=dict(files=['Particle_Module.py', 'SegmentedArrayPair_Module.py'],
   mechanism=[dict(name='initialize_particle_output_file, write_particles_to_file, write_species_particle_attributes', where='Particle_Module.py')],
   state=[dict(name='particle_output_handle, h5_step_counter, h5_buffer', meaning='open file, number of snapshots, output buffer', where='Particle_Module.py')],
   observe_at=['bytes on the simulated disk, parsed by an independent h5py'], hook_needed=None),
  technique='deterministic simulation with a simulated disk: write errors, full disk, failing HDF5 calls and allocations, crashes; file contents against the recorded snapshots',
  level_note=NOTE + 'HDF5 has no journal: death inside an HDF5 flush is not judged. Up to 4 repeats are allowed after a failure (HDF5 needs a second flush).'),
 dict(id='C10', title='Trajectory files are faithful and survive faults',
  statement='After a call to write the trajectories has returned there is exactly one file per recorded trajectory, named by '
            'species and particle, and it holds exactly the recorded points in order with their times and values and the '
            'right species header. This holds for any number of points including none, for neutral species, for repeated calls, '
            'and after a call that failed because of the disk; writing changes no particle and no trajectory.',
  quantifier=dict(over=['histories', 'fault_sequences'],
                  text='every schedule of recording and writing, every position of a disk failure'),
  why_tests_cant='The tests plot trajectories or write them once and do not read the files back.',
  anchors=dict(files=['RecordedData_Module.py', 'Trajectory_Module.py', 'Particle_Module.py'],
   mechanism=[dict(name='Trajectory_C.write_trajectories_to_files', where='RecordedData_Module.py')],
   observe_at=['bytes on the simulated disk, parsed by an independent h5py'], hook_needed=None),
  technique='deterministic simulation with a simulated disk: write errors, full disk, failing opens and HDF5 calls; file contents against the recorded trajectories',
  level_note=NOTE),
 dict(id='C11', title='Densities on the mesh hold exactly the particles',
  statement='Depositing a species adds to the density of each degree of freedom the sum over exactly its stored particles of '
            'weight times the value of that basis function at the particle, and to each cell the weight divided by the '
            'volume of the cell, so that the total weight is conserved; the charge density is the charge-weighted sum of the species '
            'densities. Depositing changes no particle, trajectory or other field.',
  quantifier=dict(over=['histories', 'inputs', 'configurations'],
                  text='every schedule of state changes and deposits, every mesh, coordinate system, element, segment length and engine'),
  why_tests_cant='The tests deposit a few particles at chosen points of one mesh; empty species, several segments, moved particles, '
                 'spherical cells and other elements are not covered.',
  anchors=dict(files=['Particle_Module.py', 'Dolfin_Module.py'],
   mechanism=[dict(name='accumulate_number_density, accumulate_charge_density_from_particles', where='Particle_Module.py'),
              dict(name='interpolate_delta_function_to_dofs, add_weight_to_cell, divide_by_cell_volumes, multiply_add', where='Dolfin_Module.py')],
   observe_at=['Field_C.function values'], hook_needed=None),
  technique='deterministic simulation: seeded schedules of moves, sources and deposits with failing deposits; densities recomputed from the particles with an independent basis',
  level_note=NOTE + 'Cell densities are judged when zeroed before each deposit, as the examples do.'),
 dict(id='C12', title='Particle sources make exactly what was asked for',
  statement='A source call at a step adds to its species, for exactly the sources due at that step, the requested number of '
            'particles in every cell of the source region, each inside its cell, with weight density times volume per particle, the '
            'requested drift and thermal velocity, a number used by no other particle, and a clean record; existing particles, '
            'trajectories and the source parameters do not change. Unknown kinds are refused. After a failed allocation the '
            'particles made so far are whole and later calls work.',
  quantifier=dict(over=['inputs', 'histories', 'fault_sequences'],
                  text='every mesh, region, number per cell, interval, velocity, schedule of steps, and every allocation that may fail'),
  why_tests_cant='The tests create particles once in one mesh and compare with stored numbers of one random seed.',
  anchors=dict(files=['Particle_Module.py', 'Dolfin_Module.py', 'UserParticles_*.py'],
   mechanism=[dict(name='add_more_particles, initialize_particles, create_maxwellian_particles', where='Particle_Module.py'),
              dict(name='CellSet_C and its regions', where='Dolfin_Module.py')],
   observe_at=['storage contents before and after each call'], hook_needed=None),
  technique='deterministic simulation: seeded schedules of source calls with failing allocations and failing user sources; exact counts, weights and velocities, statistical tests at 7 sigma',
  level_note=NOTE + 'The distribution inside a cell is judged statistically, in Cartesian coordinates only.'),
 dict(id='C13', title='Potential and field follow from the charge alone',
  statement='After a solve the potential satisfies the discretised Poisson equation for the charge it was given and the '
            'boundary values, and the field is the gradient of that potential, whatever was solved before, how often, with which '
            'fields edited meanwhile or after a solve that failed; the charge density, the particles and the boundary values are unchanged by it.',
  quantifier=dict(over=['histories', 'inputs', 'fault_sequences'],
                  text='every schedule of deposits, solves, repeats, edits and failing solves on every mesh, solver and boundary values'),
  why_tests_cant='The tests solve once per solver object and look at a plot or a few numbers.',
  anchors=dict(files=['Dolfin_Module.py', 'UserMesh_y_Fields_*.py'],
   mechanism=[dict(name='PoissonSolve_C.assemble_source_expression, solve_for_phi, compute_negE', where='Dolfin_Module.py'),
              dict(name='UserPoissonSolve classes', where='UserMesh_y_Fields_*.py')],
   observe_at=['phi and neg_electric_field values'], hook_needed=None),
  technique='deterministic simulation: seeded schedules of deposits and solves with failing solves and projections; potential and field recomputed with an independent assembly',
  level_note=NOTE + 'Linear elements; the accuracy of the discretisation itself is not judged.'),
 dict(id='C14', title='A run is determined by its input and not by being observed',
  statement='The same input gives the same run: particles, densities, potential and field after every step agree bit for bit '
            'between repetitions, with any segment length, and whether or not diagnostics, histories, trajectories, densities, '
            'extra solves and output files are made on the way, also when making them fails. The Python and the C++ engine give the same '
            'run to rounding.',
  quantifier=dict(over=['histories', 'configurations', 'fault_sequences'],
                  text='every input, placement of observers, fault in an observer, segment length and engine'),
  why_tests_cant='The tests never run the whole loop twice, nor compare a run with outputs to one without.',
  anchors=dict(files=['Particle_Module.py', 'Dolfin_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py', 'cpp/advance_*.cpp'],
   mechanism=[dict(name='the time loop: advance, add_more_particles, accumulate_number_density, solve_for_phi, record_*, write_*', where='Particle_Module.py, Dolfin_Module.py')],
   observe_at=['storage contents and field values after every step'], hook_needed=None),
  technique='deterministic simulation: one seeded run executed as several lanes (bare, observed with faults, repeated, other engine) and compared after every step',
  level_note=NOTE + 'Runs with a random external field keep one segment length.'),
 dict(id='C15', title='A mesh and everything derived from it agree',
  statement='However a mesh was obtained (given as an object, made by a user mesh class, read from a file), its vertices, cells, boundary marks, cell '
            'volumes, neighbours and facet normals (Python and C++), point-in-cell tests, cell searches (no cell outside of the mesh) and '
            'facet-crossing queries agree with the coordinates of its vertices and with each other, in any order of queries and '
            'table computations (after vertices are moved, once the tables are computed again); meshes made from the same object are independent '
            'of each other. Damaged or missing mesh files are refused, and a table computation that failed can be repeated.',
  quantifier=dict(over=['inputs', 'histories', 'fault_sequences'],
                  text='every mesh, point and ray, every order of table computations and queries, every allocation or read that may fail'),
  why_tests_cant='The tests look up a few points of one fixed mesh of each kind and never fail a read or a table computation.',
  anchors=dict(files=['Dolfin_Module.py', 'UserMesh_y_Fields_*.py', 'cpp/MeshEntityArrays.h', 'cpp/dolfin_functions*.cpp'],
   mechanism=[dict(name='Mesh_C: compute_cell_dict, compute_cell_entity_index_dict, compute_cell_neighbors, compute_cell_volumes, compute_cell_index, is_inside, find_facet', where='Dolfin_Module.py'),
              dict(name='MeshEntityArrays, cell_contains_point, find_facet', where='cpp/')],
   observe_at=['tables of the mesh object', 'compute_cell_index, is_inside_cell, find_facet results'], hook_needed=None),
  technique='deterministic simulation: seeded orders of table computations, queries, file reads with failing allocations and damaged files; every answer recomputed from vertex coordinates by brute force',
  level_note=NOTE + 'Points within rounding of a facet may be given to either cell.'),
 dict(id='C16', title='Field operations do what they say',
  statement='Setting, scaling, adding, randomising, interpolating and depositing into a field, on the whole mesh or on a region, changes exactly '
            'the degrees of freedom it names to exactly the values it names (each once, also when degrees of freedom are shared between cells or a field is '
            'added to itself), and no other field, mesh or particle. A failed operation on a region leaves everything outside of it as it was.',
  quantifier=dict(over=['inputs', 'histories', 'fault_sequences'],
                  text='every mesh, element, region, schedule of operations, and every allocation that may fail'),
  why_tests_cant='The tests use whole-mesh operations on one element; shared degrees of freedom, regions and sequences of operations are not covered.',
  anchors=dict(files=['Dolfin_Module.py'],
   mechanism=[dict(name='Field_C.set_values, multiply_values, set_gaussian_values, multiply_add, interpolate_field_to_points, interpolate_delta_function_to_dofs', where='Dolfin_Module.py'),
              dict(name='CellSet_C, RectangularRegion_C', where='Dolfin_Module.py')],
   observe_at=['Field_C.function values after each operation'], hook_needed=None),
  technique='deterministic simulation: seeded schedules of field operations on fields sharing a mesh with failing allocations; a reference model of every degree of freedom',
  level_note=NOTE),
 dict(id='C17', title='Plots show exactly what was recorded',
  statement='A plot of histories or trajectories shows, for each recorded quantity and each trajectory of each species, exactly the points recorded '
            'so far, in order, and nothing else; a plot of a solution or of a mesh shows that solution or mesh. Every figure made is shown before it is closed. '
            'Plotting changes no history, trajectory, particle or field, also when the display fails, after which it can be repeated.',
  quantifier=dict(over=['histories', 'configurations', 'fault_sequences'],
                  text='every schedule of recording and plotting, partly filled and full records, any number of trajectories and species, every figure at which the display may fail'),
  why_tests_cant='The tests that plot only check that no exception is raised; nobody looks at the figures.',
  anchors=dict(files=['RecordedData_Module.py', 'Dolfin_Module.py'],
   mechanism=[dict(name='ParticleHistory_C.plot, Trajectory_C.plot, plot_trajectories_on_mesh', where='RecordedData_Module.py'),
              dict(name='solve_for_phi / compute_negE with plot_flag', where='Dolfin_Module.py')],
   observe_at=['curves in the figures at the moment they are shown'], hook_needed=None),
  technique='deterministic simulation with a simulated display that can fail: seeded schedules of recording and plotting; the curves shown against the records',
  level_note=NOTE + 'Tick marks, colours and the drawing itself are matplotlib\'s and not judged; two- and three-dimensional solution plots are judged by their presence.'),
]
NA = []
