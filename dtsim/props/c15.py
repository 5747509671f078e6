"""C15: a mesh, however obtained, and everything derived from it agree with its coordinates."""
from .. import mesh, world
from ._meta import *

RUNS = {'quick': 4000, 'thorough': 80000}
TIME_UNIT = 'operations'
RULE = ('Schedules of 2-10 operations on up to 9 meshes: made from an object, as a copy, from a file, with marks from a file, or by the three user mesh classes (1-3 '
        'dimensions, spherical, segment of a circle; random sizes, stretches, diagonals, local refinements), deformed, tables recomputed, queried. After every operation every mesh is judged. '
        'Faults: missing, empty and truncated files, failing allocations, an unwritable plot file, points outside. Non-trivial: a query.')
STATE_MEASURE = 'hash of (operation, source, size, dimension and freshness of every mesh) after each operation'
REAL = ['Dolfin_Module.Mesh_C', 'UserMesh_C, UserMesh1DS_C, UserMesh2DCirc_C', 'cpp/MeshEntityArrays', 'dolfin']
STUBS = ['numpy.empty fails on demand', 'files are written and damaged in the scratch directory of the run']
ASSUMPTIONS = ['after vertices are moved by the user, tables are judged when recomputed', 'points lie 1e-7 (barycentric) off facets, paths do not end on facets']
PROBES = ['cell_found', 'inside_asked', 'facet_found', 'stays_in_cell', 'dim_x', 'dim_r', 'dim_xx', 'dim_xxx']


def prepare():
    world.prepare()
    import UserMesh_y_Fields_FE_XYZ_Module, UserMesh_y_Fields_FE2D_Module, UserMesh_y_Fields_Spherical1D_Module  # noqa


def generate(rng, index):
    return mesh.generate(rng, index)


def execute(case, run):
    mesh.simulate(case, run)
