"""C14: a run is determined by its input; observing it changes nothing."""
from .. import field, pic, world
from ._meta import *

RUNS = {'quick': 1200, 'thorough': 20000}
RULE = ('The whole particle-in-cell loop (move, source, deposit, solve) of 2-8 steps is run 2-5 times on one world: bare, again, with every observer '
        '(diagnostics, histories, trajectories, density deposits, extra solves, output files) at seeded points and other segment lengths, and on the '
        'other engine. Faults hit the observers: full disk, disk errors, failing HDF5 calls, failed allocations, user functions that raise, failing solves. '
        'Non-trivial: a species needs more than one segment.')
REAL = REAL + ['PoissonSolve_C and the UserPoissonSolve classes', 'dolfin assembly and linear solvers', 'h5py and HDF5 above the file driver']
STUBS = STUBS + ['the disk: a byte array per file; the simulator decides about every write HDF5 makes']
ASSUMPTIONS = ['one engine: bit for bit; between the engines 1e-6 of the mesh and 1e-5 of the potential, as long as no particle sits on a facet to 1e-6',
               'worlds with a random external field keep one segment length, since the field is drawn per stored particle']
PROBES = ['observed_lane', 'lane_py', 'lane_cpp', 'steps']


def prepare():
    world.prepare()
    field.prewarm()


def generate(rng, index):
    return pic.generate(rng, index)


def execute(case, run):
    pic.simulate(case, run)
