"""C08: diagnostics and histories report the particles and change nothing."""
from .. import diag, world
from ._meta import *

RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('Worlds as for C02. Schedules interleave advances, sources, user edits and trajectory recording with diagnostics and history records, '
        'also with user-supplied history functions, some of which raise. Non-trivial: a species is empty or spans several segments.')
PROBES = ['several_segments', 'species_empty', 'history_rows', 'max_points', 'engine_py', 'engine_cpp']


def prepare():
    world.prepare()


def generate(rng, index):
    return diag.generate(rng, index)


def execute(case, run):
    diag.simulate(case, run)
