"""C17: plots."""
from .. import field, plots, world
from ._meta import *

RUNS = {'quick': 1200, 'thorough': 20000}
RULE = ('Worlds as for C02 with 0-8 particles, some traced. Schedules interleave state changes with trajectory and history records and plots of histories, trajectories '
        '(with and without the phase-space plots, on the mesh) and solutions; fault: the display fails at the k-th figure and the user repeats the call. '
        'Non-trivial: a plot of recorded data was judged.')
REAL = REAL + ['RecordedData_Module.ParticleHistory_C.plot, Trajectory_C.plot, plot_trajectories_on_mesh', 'PoissonSolve_C plots', 'matplotlib and dolfin plotting']
STUBS = STUBS + ['the display: the simulator reads the curves of the figures that are shown, and closes them as a user does, or fails']
PROBES = ['history_plots', 'history_partly_filled', 'trajectory_plots', 'mesh_plots', 'solution_plots', 'engine_py', 'engine_cpp']


def prepare():
    world.prepare()
    field.prewarm()
    import matplotlib.pyplot as plt
    plt.figure()
    plt.plot([0, 1], [0, 1])
    plt.close('all')


def generate(rng, index):
    return plots.generate(rng, index)


def execute(case, run):
    plots.simulate(case, run)
