"""C02: particles are neither lost, duplicated nor altered."""
from .. import motion, world
from ._meta import *

RUNS = {'quick': 2400, 'thorough': 60000}
PROBES = ['absorbed', 'species_emptied', 'deleted_across_segments', 'survivors_exact_multiple', 'absorbed_inside',
          'engine_py', 'engine_cpp', 'dim_x', 'dim_xy', 'dim_xyz', 'dim_r', 'uniform']


def prepare():
    world.prepare()


def generate(rng, index):
    if rng.random() < 0.08:
        return motion.generate_uniform(rng, index)
    return motion.generate(rng, index)


def execute(case, run):
    motion.simulate(case, run, {'conserve'})
