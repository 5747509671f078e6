LEVEL = 'exploration'
TIME_UNIT = 'simulated seconds of plasma time (sum of time steps)'
RULE = ('a case is a random mesh (1-3 dimensions, spherical), engine, segment length, species, walls, field, particles and '
        'schedule of advances, sources, field changes and observers (swarm-weighted); non-trivial when a particle crossed a '
        'facet or was absorbed; distinct by the sequence of operation kinds and fired faults')
STATE_MEASURE = ('hash of (engine, coordinate system, segment length, particles per species, fill of the last segment) '
                 'after each operation')
REAL = ['Particle_Module.Particle_C (storage, movers, boundary dispatch, sources)', 'Dolfin_Module.Mesh_C / Field_C',
        'SegmentedArrayPair_Module', 'the C++ modules in /repo/cpp, rebuilt from the working tree', 'dolfin',
        'boundary functions of UserParticles_1D, _2D_e and _3D (half of the Python-engine worlds)']
STUBS = ['boundary handlers of the Python engine are the simulator\'s user code (in half of the worlds they hand over to the repository\'s functions)', 'clock (time, step counter) set by the simulator',
         'numpy random generator seeded by the simulator', 'numpy.empty poisoned']
ASSUMPTIONS = ['paths that meet a vertex or edge, or start or end on a facet, within 1e-9 of the mesh size, are not judged',
               'reflecting handlers only on outer facets (an interior facet lets particles through or absorbs)',
               'C++ engine: the boundary functions compiled into the repository\'s own modules']
