"""C07: a trajectory is the complete, ordered record of one particle."""
from .. import motion, world
from ._meta import *

RUNS = {'quick': 3000, 'thorough': 60000}
PROBES = ['trajectory_full', 'trajectory_crossing', 'trajectory_ended', 'trajectory_of_marked', 'removed_after_record',
          'late_trajectory', 'source_trajectory', 'second_record', 'second_simulation', 'engine_py', 'engine_cpp', 'dim_x', 'dim_xy', 'dim_xyz', 'dim_r']


def prepare():
    world.prepare()


def generate(rng, index):
    return motion.generate_traj(rng, index)


def execute(case, run):
    motion.simulate(case, run, {'traj'})
