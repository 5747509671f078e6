"""C11: densities on the mesh hold exactly the particles, and depositing changes nothing else."""
from .. import deposit, world
from ._meta import *

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('Worlds as for C02 with linear, quadratic or discontinuous density elements. Schedules interleave state changes with deposits, also several into one field, '
        'and charge sums; fault: the deposit of the k-th particle fails and the user starts over. Non-trivial: a fault fired or a species spans several segments.')
REAL = REAL + ['Field_C.interpolate_delta_function_to_dofs, add_weight_to_cell, divide_by_cell_volumes, multiply_add']
ASSUMPTIONS = ['the user zeroes a cell density before each deposit, as the examples do (it is divided by the volumes as a whole)',
               'every stored particle lies in its recorded cell (C03)']
PROBES = ['deposits', 'several_segments', 'species_empty', 'element_CG1', 'element_CG2', 'element_DG1', 'engine_py', 'engine_cpp']


def prepare():
    world.prepare()
    world.warm_elements([('CG', 2, 'scalar'), ('DG', 1, 'scalar'), ('CG', 1, 'scalar'), ('DG', 0, 'scalar')])


def generate(rng, index):
    return deposit.generate(rng, index)


def execute(case, run):
    deposit.simulate(case, run)
