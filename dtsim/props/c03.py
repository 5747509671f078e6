"""C03: every stored particle is in the cell it is recorded in, and its facet crossings are counted."""
from .. import motion, world
from ._meta import *

RUNS = {'quick': 2400, 'thorough': 60000}
PROBES = ['crossed', 'crossed_many', 'reflected', 'transmitted', 'absorbed', 'engine_py', 'engine_cpp', 'dim_x', 'dim_xy', 'dim_xyz', 'dim_r', 'placed_again']


def prepare():
    world.prepare()


def generate(rng, index):
    return motion.generate(rng, index)


def execute(case, run):
    motion.simulate(case, run, {'cell'})
