"""C10: trajectory files are faithful and survive faults."""
from .. import trajout, world
from ._meta import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('Worlds as for C02. Schedules interleave advances, sources, deletions and recording with calls that write the trajectory files; faults: the k-th disk '
        'write fails (once, twice or until healed), a file cannot be opened. Non-trivial: a fault fired or a trajectory has several points.')
REAL = REAL + ['RecordedData_Module.Trajectory_C', 'h5py and HDF5, through HDF5\'s file-object driver']
STUBS = STUBS + ['the disk: a byte array per file; the simulator decides about every write HDF5 makes']
PROBES = ['files', 'retried', 'empty_trajectory', 'neutral', 'engine_py', 'engine_cpp']


def prepare():
    world.prepare()


def generate(rng, index):
    return trajout.generate(rng, index)


def execute(case, run):
    trajout.simulate(case, run)
