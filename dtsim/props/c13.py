"""C13: the potential and the field follow from the charge alone."""
from .. import field, world
from ._meta import *

RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('Worlds with a field solver: the repository\'s own user solvers (1-D, spherical, 2-D) and one written by the simulator as user code (also 3-D, also with a '
        'coefficient that changes). Schedules interleave deposits, solves, repeated solves, analytic sources, edits of the field and motion; faults: the linear solver '
        'or the projection fails once. Non-trivial: a fault fired.')
REAL = REAL + ['PoissonSolve_C and the UserPoissonSolve classes', 'dolfin assembly and linear solvers']
ASSUMPTIONS = ['linear elements for the potential; the projected field in DG0 or CG1', 'tolerance 1e-7 of the potential, 1e-6 of the field']
PROBES = ['solves', 'own_solver', 'repo_solver', 'repeated_after_failure', 'engine_py', 'engine_cpp']


def prepare():
    world.prepare()
    field.prewarm()


def generate(rng, index):
    return field.generate(rng, index)


def execute(case, run):
    field.simulate(case, run)
