"""C16: every operation on a field does what it says and nothing else."""
from .. import fields, world
from ._meta import *

RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('Worlds as for C02 with 2-4 fields (continuous and discontinuous, degree 0-2, scalar and vector). Schedules of sets, products, sums (also of a field with '
        'itself), random values, interpolation to points and deposits, on the whole mesh or a region; faults: failing allocations, points outside of the mesh. '
        'Non-trivial: an operation on a region.')
REAL = ['Dolfin_Module.Field_C, CellSet_C and its regions, Mesh_C', 'dolfin']
STUBS = ['numpy random generator seeded by the simulator, in part of the cases every normal deviate the simulator\'s']
ASSUMPTIONS = ['points lie inside cells (1e-3 of the cell)', 'statistical limits at 7 standard deviations with the seed of the case']
PROBES = ['region', 'to_itself', 'random_values', 'dim_x', 'dim_r', 'dim_xy', 'dim_xyz']


def prepare():
    world.prepare()
    world.warm_elements([tuple(e) for e in map(list, {tuple(e) for e in fields.ELEMENTS})])


def generate(rng, index):
    return fields.generate(rng, index)


def execute(case, run):
    fields.simulate(case, run)
