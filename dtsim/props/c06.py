"""C06: the Python and the C++ engine are interchangeable."""
from .. import twins, world
from ._meta import *

RUNS = {'quick': 2400, 'thorough': 60000}
RULE = RULE.replace('engine, ', '') + '; every case runs on both engines in lock step'
REAL = REAL
PROBES = ['crossed', 'reflected', 'absorbed', 'trajectory_moved', 'dim_x', 'dim_xy', 'dim_xyz', 'dim_r']


def prepare():
    world.prepare()


def generate(rng, index):
    return twins.generate(rng, index)


def execute(case, run):
    twins.simulate(case, run)
