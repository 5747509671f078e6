"""C09: the snapshot file is faithful and survives faults."""
from .. import output, world
from ._meta import *

RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('Worlds as for C02. Schedules interleave advances, sources and user edits with snapshot calls and new files; faults: the k-th disk write inside a call '
        'fails (full disk, I/O error; once, several times or until healed), an allocation fails, the process dies inside or after a call. '
        'Non-trivial: a fault fired or a species spans several segments.')
REAL = REAL + ['h5py and HDF5, through HDF5\'s file-object driver']
STUBS = STUBS + ['the disk: a byte array per file; the simulator decides about every write HDF5 makes']
ASSUMPTIONS = ['a crash of the process (not of the machine): bytes HDF5 has handed to the disk survive',
               'a crash while HDF5 itself flushes is not judged (HDF5 has no journal)']
PROBES = ['snapshots', 'counter_restarted', 'retried', 'second_call', 'closed', 'engine_py', 'engine_cpp']


def prepare():
    world.prepare()


def generate(rng, index):
    return output.generate(rng, index)


def execute(case, run):
    output.simulate(case, run)
