"""C04: boundaries act on exactly the particles that meet them."""
from .. import motion, world
from ._meta import *

RUNS = {'quick': 2400, 'thorough': 60000}
PROBES = ['absorbed', 'absorbed_inside', 'reflected', 'reflected_twice', 'transmitted', 'engine_py', 'engine_cpp', 'dim_x', 'dim_xy', 'dim_xyz', 'dim_r']


def prepare():
    world.prepare()


def generate(rng, index):
    return motion.generate(rng, index)


def execute(case, run):
    motion.simulate(case, run, {'boundary'})
