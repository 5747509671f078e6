"""C12: particle sources and initial distributions make exactly what was asked for."""
from .. import sources, world
from ._meta import *

RUNS = {"quick": 2400, 'thorough': 60000}
RULE = ('Worlds as for C02 with 1-3 sources and 0-2 initial distributions over random regions (whole mesh, box, sphere, user-defined). Schedules interleave '
        'steps, state changes and source calls; faults: the k-th allocation fails, a user source raises. Non-trivial: a fault fired or new particles span several segments.')
REAL = REAL + ['Particle_C.add_more_particles / initialize_particles / create_maxwellian_particles', 'Dolfin_Module.CellSet_C and its regions']
STUBS = STUBS + ['normal deviates: the simulator\'s in part of the cases', 'user source functions']
ASSUMPTIONS = ['in spherical coordinates the distribution within one cell is not judged, only that all of the cell is reached',
               'statistical limits at 7 standard deviations with the seed of the case']
PROBES = ['maxwellian', 'spread_over_cell', 'several_segments', 'refused', 'engine_py', 'engine_cpp', 'more_coordinates']


def prepare():
    world.prepare()


def generate(rng, index):
    return sources.generate(rng, index)


def execute(case, run):
    sources.simulate(case, run)
