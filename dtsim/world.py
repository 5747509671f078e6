"""The simulated plasma: meshes, particles, walls and fields driven through lyrana/dt's public API,
with an independent reference for one step of motion.

A world is built from case['world'] and is deterministic.  The real code runs: particle storage,
movers, boundary dispatch, field interpolation, meshes (Python or C++ engine).  The simulator
owns the clock (ctrl.time, ctrl.timeloop_count), the random-number generator, the boundary
callbacks (Python engine) and the order of operations.
"""
import importlib, math, random
import numpy as np
from . import geom, seams
from .core import Violation, HarnessError
from .geom import Degenerate, Geometry

CS = {'x': 'cartesian_x', 'xy': 'cartesian_xy', 'xyz': 'cartesian_xyz', 'r': 'spherical_r'}
COORDS = {'x': ['x'], 'xy': ['x', 'y'], 'xyz': ['x', 'y', 'z'], 'r': ['r']}
DIM = {'x': 1, 'xy': 2, 'xyz': 3, 'r': 1}
FACES = {'x': ['lo0', 'hi0'], 'r': ['lo0', 'hi0'], 'xy': ['lo0', 'hi0', 'lo1', 'hi1'],
         'xyz': ['lo0', 'hi0', 'lo1', 'hi1', 'lo2', 'hi2']}
DELETE, TRAJ = 1, 2

_mods = {}


def prepare(cpp=True):
    import dolfin as df
    df.set_log_level(50)
    import Dolfin_Module, Particle_Module, RecordedData_Module, DT_Module, SegmentedArrayPair_Module
    _mods.update(D=Dolfin_Module, P=Particle_Module, R=RecordedData_Module, T=DT_Module, S=SegmentedArrayPair_Module)
    if cpp:
        import numpy_types_solib, segmented_array_pair_solib, mesh_entity_arrays_solib, dolfin_functions_solib  # noqa
        for c in CS.values():
            importlib.import_module('particle_%s_solib' % c)
    prewarm()


def prewarm():
    """Let dolfin compile (or load) its elements before the runs fork."""
    if _mods.get('warm'):
        return
    _mods['warm'] = True
    import dolfin as df
    for m in (df.UnitIntervalMesh(1), df.UnitSquareMesh(1, 1), df.UnitCubeMesh(1, 1, 1)):
        for el, deg in (('CG', 1), ('DG', 0)):
            df.FunctionSpace(m, el, deg)
            df.VectorFunctionSpace(m, el, deg)
        df.Function(df.FunctionSpace(m, 'CG', 1))(*[0.3] * m.geometry().dim())


def warm_elements(els, dims=(1, 2, 3)):
    """Let dolfin compile further elements before the runs fork; els: (family, degree, kind)."""
    import dolfin as df
    for m in [f() for i, f in enumerate((lambda: df.UnitIntervalMesh(1), lambda: df.UnitSquareMesh(1, 1), lambda: df.UnitCubeMesh(1, 1, 1))) if i + 1 in dims]:
        for fam, deg, kind in els:
            (df.FunctionSpace if kind == 'scalar' else df.VectorFunctionSpace)(m, fam, deg)


def mods():
    return _mods


# ------------------------------------------------------------------ generation

def engine_can(engine, dim, charged):
    if engine == 'py':
        return True
    if dim in ('x', 'r'):
        return charged
    if dim == 'xyz':
        return not charged
    return True


def gen_world(rng, dims=('x', 'xy', 'xyz', 'r'), engines=('py', 'cpp'), field=None, small=False,
              max_particles=14, charged=None, nspecies=None, interior=True, dims_weights=None,
              external=True):
    dim = rng.choices(list(dims), dims_weights)[0] if dims_weights else rng.choice(list(dims))
    engine = rng.choice(list(engines))
    d = DIM[dim]
    n = [rng.randint(1, 8)] if d == 1 else ([rng.randint(1, 4) for _ in range(2)] if d == 2
                                            else [rng.randint(1, 2) for _ in range(3)])
    lo = [0.3 + rng.random()] if dim == 'r' else [rng.uniform(-1, 1) for _ in range(d)]
    size = [10 ** rng.uniform(-0.5, 0.7) for _ in range(d)]
    if d == 1 and rng.random() < 0.06:
        n = [rng.randint(9, 40)]
    w = {'dim': dim, 'engine': engine, 'L': rng.choice([1, 2, 3, 4, 5, 7]),
         'n': n, 'lo': lo, 'hi': [a + s for a, s in zip(lo, size)],
         'diag': rng.choice(['right', 'left', 'crossed', 'right/left']),
         'warp': rng.randint(0, 10 ** 9), 'shear': rng.choice([0.0, 0.0, rng.uniform(-0.6, 0.6)]) if d == 2 else 0.0,
         'dt': 10 ** rng.uniform(-1.5, 0.0)}
    if rng.random() < 0.25:      # a locally refined mesh: its vertices are not numbered along the axes
        w['refine'] = [rng.randint(0, 10 ** 9) for _ in range(rng.choice([1, 1, 2]) if d < 3 else 1)]
    ch = [c for c in (True, False) if engine_can(engine, dim, c) and (charged is None or c == charged)]
    k = nspecies or (rng.randint(1, 3) if rng.random() < 0.95 else rng.randint(4, 5))
    names = ['test_electrons', 'H', 'plasma_ions', 'He', 'argon']
    rng.shuffle(names)
    if 'test_electrons' not in names[:k] and rng.random() < 0.6:
        names.insert(0, 'test_electrons')
    sp = []
    for i in range(k):
        c = rng.choice(ch)
        sp.append({'name': names[i], 'charge': rng.choice([-1.0, 1.0, 2.0]) * 10 ** rng.uniform(-0.5, 0.5) if c else 0.0,
                   'mass': 10 ** rng.uniform(-0.5, 0.5)})
    w['species'] = sp
    # walls: every outer face belongs to a named boundary
    faces = FACES[dim]
    bn = ['rmin', 'rmax', 'wall', 'left_side', 'rmin_outer']
    w['faces'] = {f: rng.choice(bn[:rng.randint(1, 4)]) for f in faces}
    if engine == 'cpp' and rng.random() < 0.5:
        w['faces'] = {f: rng.choice(['rmin', 'rmin', 'rmin', 'wall']) for f in faces}
    w['interior'] = []
    if interior and rng.random() < 0.4:
        w['interior'] = [rng.choice(['inner', 'inner2', 'rmin_in']), rng.uniform(0.1, 0.7)]
    w['tags'] = rng.sample([1, 2, 3, 4, 5, 7, 8, 11, 16], 9)
    names_used = sorted(set(list(w['faces'].values()) + ([w['interior'][0]] if w['interior'] else [])))
    if engine == 'py':
        h = {'default_bc': rng.choice(['absorb', 'reflect'])}
        for b in names_used:
            inner = bool(w['interior']) and b == w['interior'][0]
            if rng.random() < 0.6 or inner:
                h['default_bc_at_' + b] = rng.choice(['pass', 'pass', 'absorb'] if inner else ['absorb', 'reflect', 'reflect'])
            for s in sp:
                if rng.random() < 0.35:
                    h['bc_at_%s_for_%s' % (b, s['name'])] = rng.choice(['pass', 'pass', 'absorb'] if inner else ['absorb', 'reflect', 'reflect'])
        w['handlers'] = h
    # field
    f = field if field is not None else rng.choice(['CG1', 'DG0', 'CG1', 'none'])
    if engine == 'cpp':
        f = 'DG0'       # the C++ interpolation is documented for fields that are constant in a cell
    w['field'] = [f, rng.randint(0, 10 ** 9), 10 ** rng.uniform(-0.7, 0.5)]
    # species the solved field is not applied to (None: it is applied to all)
    w['nofield'] = None if rng.random() < 0.7 else [s['name'] for s in sp if rng.random() < 0.5]
    # a random external field: the simulator owns the draw (same deviate for every particle)
    if engine == 'py' and external and rng.random() < 0.25:
        w['ext'] = [rng.choice(['CG1', 'DG0']), rng.randint(0, 10 ** 9), 10 ** rng.uniform(-0.7, 0.3), rng.uniform(-2, 2)]
        w['noext'] = None if rng.random() < 0.6 else [s['name'] for s in sp if rng.random() < 0.5]
    w['rand'] = rng.randint(0, 2 ** 31)
    w['traj_all'] = False
    w['extcol'] = rng.random() < 0.5        # trajectories also hold the external field
    # now and then a run that starts late, with high particle numbers, or with long segments
    if rng.random() < 0.2:
        w['step0'], w['t0'] = rng.choice([[9, 0.0], [0, 12.5], [99, 7.25], [99998, 1234.5]])
    if rng.random() < 0.15:
        w['uid0'] = rng.choice([8, 97, 253, 1020, 32765, 65533, 10 ** 6])
    if rng.random() < 0.03 and not small:
        w['L'], w['big'] = rng.choice([10, 16, 33, 64]), True
    w['repo_bcs'] = rng.random() < 0.5      # what a boundary does is done by the functions in the repository's user modules
    return w


def length(rng, lo, hi, p=0.06):
    """Length of a schedule: now and then a long one (counters that reach two digits, stores that are reused many times)."""
    return rng.randint(3 * hi, 6 * hi) if rng.random() < p else rng.randint(lo, hi)


def gen_particles(rng, w, lo=1, hi=14, traj=0.0, speed=None):
    """Positions as a barycentric draw in a cell, so that any reduction of the world keeps them legal."""
    d = DIM[w['dim']]
    n = rng.randint(lo, hi)
    out = []
    L = w['L']
    if rng.random() < 0.4:      # bias to exact fills
        n = max(lo, min(hi, rng.choice([L, 2 * L, L + 1, 2 * L - 1, 3 * L])))
    if w.get('big') and lo <= 1:
        n = rng.randint(20, 90)
        speed = min(speed, 0.3) if speed is not None else 10 ** rng.uniform(-1.2, -0.5)
    size = max(h - l for l, h in zip(w['lo'], w['hi']))
    v = speed if speed is not None else 10 ** rng.uniform(-1.2, 0.6)
    nsp = len(w['species'])
    one = rng.random() < 0.5
    for i in range(n):
        b = [rng.random() + 0.02 for _ in range(d + 1)]
        t = sum(b)
        u = [rng.gauss(0, 1) * v * size / w['dt'] * 0.5 for _ in range(d)]
        if rng.random() < 0.06:
            u = [0.0] * d
        elif d > 1 and rng.random() < 0.06:
            u[rng.randrange(d)] = 0.0
        out.append({'s': 0 if one else rng.randrange(nsp), 'c': rng.random(), 'b': [x / t for x in b], 'u': u,
                    'w': round(10 ** rng.uniform(-1, 2), 6), 't': rng.random() < traj})
    return out


# ------------------------------------------------------------------ construction

def add_other(rng, w, ops, p=0.1):
    """Now and then a second simulation lives in the process and takes its steps between the operations."""
    if rng.random() < p:
        parts = gen_particles(rng, w, lo=1, hi=4, traj=0.7)
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops.insert(rng.randint(0, max(0, len(ops) - 1)), ['other', parts])


def build_mesh(w):
    import dolfin as df
    dim, n, lo, hi = w['dim'], w['n'], w['lo'], w['hi']
    d = DIM[dim]
    if d == 1:
        m = df.IntervalMesh(n[0], 0.0, 1.0)
    elif d == 2:
        m = df.RectangleMesh(df.Point(0, 0), df.Point(1, 1), n[0], n[1], w['diag'])
    else:
        m = df.BoxMesh(df.Point(0, 0, 0), df.Point(1, 1, 1), n[0], n[1], n[2])
    for s in w.get('refine') or []:
        rr = random.Random(s)
        mark = df.MeshFunction('bool', m, d)
        mark.set_all(False)
        for c in range(m.num_cells()):
            mark[c] = rr.random() < 0.3
        m = df.refine(m, mark)
    rng = random.Random(w['warp'])
    X = m.coordinates()
    U = np.array(X)
    # monotone warp of each axis, keeping the faces
    for i in range(d):
        a = rng.uniform(-0.35, 0.35)
        U[:, i] = X[:, i] + a * X[:, i] * (1 - X[:, i])
    # jiggle interior vertices
    if d > 1:
        h = 0.12 / max(n) / 2 ** len(w.get('refine') or [])
        for v in range(len(X)):
            for i in range(d):
                if 1e-9 < X[v, i] < 1 - 1e-9:
                    U[v, i] += rng.uniform(-h, h)
                else:
                    rng.random()
    unit = np.array(X)
    Y = np.array([[lo[i] + (hi[i] - lo[i]) * U[v, i] for i in range(d)] for v in range(len(X))])
    if d == 2 and w['shear']:
        Y[:, 0] += w['shear'] * (Y[:, 1] - lo[1])
    X[:, :] = Y
    return m, unit


class Handlers:
    """Boundary callbacks for the Python engine: user code, owned by the simulator."""
    def __init__(self, world):
        self._world = world


def _make_handler(world, fname, kind):
    def f(p, speciesName, facetIndex, dx_fraction=None, facet_normal=None):
        world.on_boundary(fname, kind, p, speciesName, facetIndex, dx_fraction, facet_normal)
    return f


def repo_functions(wd):
    """The boundary functions in the repository's user modules, by what they do."""
    u1, u2, u3 = [importlib.import_module('UserParticles_' + m).UserParticleBoundaryFunctions_C for m in ('1D', '2D_e', '3D')]
    i1, i2 = [u(wd.P.position_coordinates, wd.P.dx) for u in (u1, u2)]
    return {'reflect': [i1.default_bc_at_rmin, i2.bc_at_rmin_for_test_electrons],
            'absorb': [i1.default_bc, i1.default_bc_at_xmin, i1.default_bc_at_rmax, i1.bc_at_xmin_for_neutral_H, i1.bc_at_rmin_for_neutral_H,
                       i2.default_bc, i2.default_bc_at_rmin, u3.default_bc_at_xmin, u3.default_bc_at_ymin, u3.bc_at_xmin_for_neutral_H],
            'pass': [i1.default_bc_at_xmax, u3.default_bc, u3.default_bc_at_xmax, u3.default_bc_at_ymax]}


class World:
    def __init__(self, w, particles, run, traj=None, late_traj=False, light=False):
        D, P = _mods['D'], _mods['P']
        import dolfin as df
        self.w, self.run = w, run
        self.dim, self.d = w['dim'], DIM[w['dim']]
        self.coords = COORDS[w.get('over') or self.dim]      # particles may have more coordinates than the mesh
        self.engine = w['engine']
        self.cpp = self.engine == 'cpp'
        self.regions = {}
        mesh, unit = build_mesh(w)
        self.mesh = mesh
        self.geo = Geometry(mesh)
        self.unit = unit
        csname = '1D-spherical-radial' if self.dim == 'r' else 'Cartesian'
        self.mesh_M = D.Mesh_C(Mesh=mesh, coordinate_system=csname, compute_dictionaries=True,
                               compute_cpp_arrays=self.cpp, compute_tree=True)
        # boundary markers
        names = sorted(set(list(w['faces'].values()) + ([w['interior'][0]] if w['interior'] else [])))
        self.bdict = {nm: int(w['tags'][i]) for i, nm in enumerate(names)}
        self.bname = {v: k for k, v in self.bdict.items()}
        mf = df.MeshFunction('size_t', mesh, self.d - 1)
        mf.set_all(0)
        self.marker = {}
        irng = random.Random(w['warp'] + 1)
        for f in range(len(self.geo.facets)):
            uv = unit[self.geo.facets[f]]
            tag = None
            if self.geo.exterior[f]:
                for i in range(self.d):
                    if (np.abs(uv[:, i]) < 1e-12).all():
                        tag = self.bdict[w['faces']['lo%d' % i]]
                    elif (np.abs(uv[:, i] - 1) < 1e-12).all():
                        tag = self.bdict[w['faces']['hi%d' % i]]
                if tag is None:
                    raise HarnessError('exterior facet without face')
            elif w['interior'] and irng.random() < w['interior'][1]:
                tag = self.bdict[w['interior'][0]]
            if tag is not None:
                mf[f] = tag
                self.marker[f] = tag
        self.mesh_M.particle_boundary_marker = mf
        self.mesh_M.particle_boundary_dict = self.bdict
        # particle object
        pin = P.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = CS[w.get('over') or self.dim]
        pin.force_components = list(self.coords)
        pin.force_precision = np.float64
        pin.use_cpp_integrators = self.cpp
        pin.particle_species = tuple(P.ParticleSpecies_C(s['name'], s['charge'], s['mass'],
                                                         'charged' if s['charge'] else 'neutral') for s in w['species'])
        P.Particle_C.SEGMENT_LENGTH = w['L']
        P.Particle_C.UNIQUE_ID_COUNTER = w.get('uid0', 0)
        self.P = P.Particle_C(pin)
        self.species = [s['name'] for s in w['species']]
        self.charge = {s['name']: s['charge'] for s in w['species']}
        self.mass = {s['name']: s['mass'] for s in w['species']}
        self.P.initialize_particle_mesh(self.mesh_M)
        if self.cpp:
            # the mesh volumes are also used by sources and densities
            if not self.mesh_M.cell_volume_dict:
                self.mesh_M.compute_cell_volume_dict()
        if not w.get('uniform'):
            self.P.initialize_particle_integration()
        ctrl = _mods['T'].DTcontrol_C()
        ctrl.dt = w['dt']
        ctrl.timeloop_count = w.get('step0', 0)
        ctrl.time = w.get('t0', 0.0)
        ctrl.n_timesteps = (traj or {}).get('n', 1000)
        ctrl.MAX_FACET_CROSS_COUNT = 100000
        ctrl.title, ctrl.author = 'sim', 'sim'
        ctrl.write_trajectory_files = False
        if w.get('nofield') is not None:
            ctrl.apply_solved_electric_field = {s['name']: s['name'] not in w['nofield'] for s in w['species']}
        self.ctrl = ctrl
        self.field, self.fvals, self.fkind = self.make_field(w['field'])
        self.ext = None
        if w.get('ext'):
            self.ext, self.evals, self.ekind = self.make_field(w['ext'][:3])
            if w.get('noext') is not None:
                ctrl.apply_random_external_electric_field = {s['name']: s['name'] not in w['noext'] for s in w['species']}
        # boundary conditions
        self.calls = []
        self.second = None
        self.make_bcs()
        if traj is not None and not late_traj:
            self.make_traj(traj)
        self.load(particles)
        seams.seed(w['rand'])

    # -- pieces

    def make_field(self, spec):
        kind, seed, amp = spec
        if kind == 'none':
            return None, None, None
        D = _mods['D']
        F = D.Field_C(self.mesh_M, kind[:2], int(kind[2]), 'vector')
        return F, self.fill_field(F, kind, seed, amp), kind

    def set_field(self, kind, seed, amp):
        self.fvals = self.fill_field(self.field, kind, seed, amp)

    def fill_field(self, F, kind, seed, amp):
        """Random nodal values of -E, kept here as well for the reference interpolation."""
        V = F.function.function_space()
        rs = np.random.RandomState(seed)
        d, g = self.d, self.geo
        amp = amp * float(np.max(np.array(self.w['hi']) - np.array(self.w['lo']))) / self.w['dt'] ** 2 * 0.3
        vec = np.zeros(V.dim())
        n = len(g.X) if kind == 'CG1' else len(g.cells)
        vals = rs.uniform(-amp, amp, size=(n, d))
        if d > 1 and seed % 4 == 0:         # along some of the axes only
            vals[:, seed // 4 % d] = 0.0
        if seed % 7 == 0:                   # none in part of the mesh
            vals[rs.uniform(size=n) < 0.5] = 0.0
        for c in range(len(g.cells)):
            for i in range(d):
                dm = V.sub(i).dofmap().cell_dofs(c) if d > 1 else V.dofmap().cell_dofs(c)
                if kind == 'CG1':
                    for j, v in enumerate(g.cells[c]):
                        vec[dm[j]] = vals[v, i]
                else:
                    vec[dm[0]] = vals[c, i]
        F.function.vector().set_local(vec)
        F.function.vector().apply('insert')
        return vals

    def negE_at(self, c, x, vals=None, kind=None):
        if vals is None:
            vals, kind = self.fvals, self.fkind
        if kind == 'DG0':
            return vals[c]
        b = self.geo.bary(c, x)
        return b @ vals[self.geo.cells[c]]

    def kind_of(self, bname, species):
        """What the most specific handler for this boundary and species does."""
        if self.cpp:
            if self.dim == 'r':
                return 'reflect' if bname == 'rmin' else 'absorb'
            return 'reflect' if bname == 'rmin' and species == 'test_electrons' else 'absorb'
        return self.w['handlers'][self.handler_of(bname, species)]

    def handler_of(self, bname, species):
        h = self.w['handlers']
        for k in ('bc_at_%s_for_%s' % (bname, species), 'default_bc_at_' + bname, 'default_bc'):
            if k in h:
                return k
        raise HarnessError('no handler')

    def make_bcs(self):
        P = self.P
        if self.cpp:
            lib = {'r': 'upbfs_spherical_r_solib'}.get(self.dim, 'user_particle_boundary_functions_%s_solib' % CS[self.dim])
            m = importlib.import_module(lib)
            fns = m.UserParticleBoundaryFunctions(P.position_coordinates)
            P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(P.species_names, self.mesh_M, fns, print_flag=False)
        else:
            h = Handlers(self)
            for k, v in self.w['handlers'].items():
                setattr(h, k, _make_handler(self, k, v))
            self.repo_fns = repo_functions(self) if self.w.get('repo_bcs') else {}
            P.pmesh_bcs = _mods['P'].ParticleMeshBoundaryConditions_C(P.species_names, self.mesh_M, h)

    def on_boundary(self, fname, kind, p, species, facet, frac, normal):
        facet = int(facet)
        self.calls.append((fname, species, facet, int(p['unique_ID']), float(frac),
                           tuple(float(v) for v in np.ravel(normal)[:self.d]),
                           tuple(float(p[c + '0']) for c in self.coords)))
        fns = self.repo_fns.get(kind)
        if fns:
            fns[len(fname) % len(fns)](p, species, facet, dx_fraction=frac, facet_normal=normal)
        elif kind == 'absorb':
            p['bitflags'] = p['bitflags'] | DELETE
        elif kind == 'reflect':
            # as the repository's own reflecting boundary functions do: the move vector is p_P.dx
            dx = np.array(self.P.dx, dtype=float)
            nrm = np.asarray(normal, float)[:self.d]
            out = (1.0 - frac) * dx
            k = float(nrm @ out)
            un = float(sum(nrm[i] * p['u' + c] for i, c in enumerate(self.coords)))
            for i, c in enumerate(self.coords):
                p[c] -= 2.0 * k * nrm[i]
                p['u' + c] -= 2.0 * un * nrm[i]

    def make_traj(self, tr):
        """tr: {'max_points': n or None, 'extra': n, 'skip':..., 'fields': [...]}"""
        R = _mods['R']
        tin = R.TrajectoryInput_C()
        tin.maxpoints = tr.get('max_points')
        tin.max_points = tr.get('max_points')
        tin.extra_points = tr.get('extra', 1)
        ff, fi = [np.dtype(x) for x in tr.get('formats', ['f8', 'i4'])]
        f = ['step', 't'] + [c for c in self.coords] + ['u' + c for c in self.coords] + ['unique_ID']
        fmt = [int, ff] + [ff] * (2 * self.d) + [fi]
        e = ['E' + c for c in self.coords]
        if self.w.get('extcol'):
            e += ['E' + c + '_ext' for c in self.coords]
        tin.charged_dict = {'names': f + e, 'formats': fmt + [ff] * len(e)}
        tin.implicit_dict = {'names': f, 'formats': fmt}
        tin.neutral_dict = {'names': f, 'formats': fmt}
        self.traj_in = tin
        P = self.P
        self.P.traj_T = R.Trajectory_C(tin, self.ctrl, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)

    def load(self, particles):
        P = self.P
        per = {s: [] for s in self.species}
        g = self.geo
        self.created = {}
        PC = _mods['P'].Particle_C
        for q in particles:
            s = self.species[q['s'] % len(self.species)]
            c = int(q['c'] * len(g.cells))
            x = np.array(q['b']) @ g.X[g.cells[c]]
            uid = PC.UNIQUE_ID_COUNTER
            PC.UNIQUE_ID_COUNTER += 1
            bf = TRAJ if q['t'] else 0
            x = tuple(float(v) for v in x) + (0.0,) * (len(self.coords) - self.d)
            per[s].append(x + x + tuple(q['u']) + (0.0,) * (len(self.coords) - self.d) +
                          (q['w'], bf, -1, uid, 0))
            self.created[uid] = (s, q['w'])

        class User:
            pass
        for s in self.species:
            def mk(lst):
                def f(type='listed'):
                    return len(lst), lst
                return f
            setattr(User, s, staticmethod(mk(per[s])))
        P.user_particles_class = User
        P.initial_particles_dict = {'init_' + s: ({'species_name': s, 'initial_distribution_type': 'listed'},)
                                    for s in self.species}
        P.initialize_particles({s: False for s in self.species})
        P.compute_mesh_cell_indices()

    # -- observation through the public interface

    def items(self, sn, raw=False):
        """All stored particles of a species as dicts, read by full index (not by a loop)."""
        sap = self.P.sap_dict[sn]
        n = int(sap.get_number_of_items())
        out = []
        names = self.P.particle_dtype.names
        for i in range(n):
            (seg, off) = sap.get_segment_and_offset(i)
            r = seg[off]
            out.append({k: r[k].item() for k in names})
        return out

    def all_items(self):
        return {s: self.items(s) for s in self.species}

    def tick(self):
        self.ctrl.timeloop_count += 1
        self.ctrl.time += self.ctrl.dt
        self.run.sim_time += self.ctrl.dt

    def advance(self, charged=True, neutral=True, accel_only=False, legacy=False):
        if neutral and self.P.neutral_species:
            self.P.advance_neutral_particles(self.ctrl)
        if charged and self.P.charged_species:
            f = self.P.move_particles_in_electrostatic_field if legacy else self.P.advance_charged_particles_in_E_field
            kw = dict(neg_E_field=self.field)
            if self.ext is not None:
                kw['external_E_field'] = self.ext
            if accel_only:
                kw['accel_only'] = True
            if self.ext is not None:
                with seams.fixed_normal(self.w['ext'][3]) as d:
                    f(self.ctrl, **kw)
                    self.run.probes['external_field_draws'] += d.draws
            else:
                f(self.ctrl, **kw)

    def advance_uniform(self, E0):
        """The mover without a mesh: uniform field, no boundaries."""
        class V:
            x, y, z = E0
        self.ctrl.E0 = V
        for s in self.P.charged_species:
            if self.cpp:
                self.P.particle_solib.advance_charged_species_in_uniform_fields(self.P, s, self.ctrl)
            else:
                self.P.advance_charged_species_in_uniform_fields(s, self.ctrl)

    def other(self, parts):
        """Another simulation in the same process makes a step: nothing of it may show in this one."""
        PC = _mods['P'].Particle_C
        kept = PC.SEGMENT_LENGTH, PC.UNIQUE_ID_COUNTER, np.random.get_state()
        if self.second is None:
            w = dict(self.w, warp=self.w['warp'] + 1, dt=0.5 * self.w['dt'], uid0=0)
            w['field'] = [w['field'][0], w['field'][1] + 1, w['field'][2]]
            w['species'] = [dict(s, mass=2.0 * s['mass'], charge=-s['charge']) for s in w['species']]
            self.second = World(w, parts, self.run, traj={'n': 30, 'extra': 30} if not self.w.get('uniform') and len(self.coords) == self.d else None)
            self.run.probes['second_simulation'] += 1
        else:
            PC.UNIQUE_ID_COUNTER = self.second.counter
        o = self.second
        o.ctrl.timeloop_count += 1
        o.ctrl.time += o.ctrl.dt
        if self.w.get('uniform'):
            o.advance_uniform([1.0, 2.0, 3.0])
        elif len(o.coords) == o.d:
            o.advance()
        if o.P.traj_T is not None:
            o.P.record_trajectory_data(o.ctrl.timeloop_count, o.ctrl.time, neg_E_field=o.field)
        o.counter = PC.UNIQUE_ID_COUNTER
        PC.SEGMENT_LENGTH, PC.UNIQUE_ID_COUNTER = kept[:2]
        np.random.set_state(kept[2])

    # -- reference: one step of one particle

    def pos(self, p):
        return np.array([p[c] for c in self.coords])

    def vel(self, p):
        return np.array([p['u' + c] for c in self.coords])

    def step_ref(self, sn, p, dt=None, accel_only=False):
        """Expected result of advancing particle p (dict): dict with x, x0, u, deleted, crossings, events.
        events: list of (facet, kind, t_fraction_of_remaining, x_cross)."""
        dt = self.ctrl.dt if dt is None else dt
        g = self.geo
        x = self.pos(p)
        u = self.vel(p)
        E = np.zeros(self.d)
        solved = self.charge[sn] != 0.0 and self.field is not None and sn not in (self.w.get('nofield') or ())
        ext = self.charge[sn] != 0.0 and self.ext is not None and sn not in (self.w.get('noext') or ())
        if solved or ext:
            cells = g.find_cells(x, 1e-10)
            if len(cells) != 1 and 'DG0' in (solved and self.fkind, ext and self.ekind):
                raise Degenerate('field at a facet')
            if not cells:
                raise Degenerate('outside')
            if solved:
                E = E - self.negE_at(cells[0], x)
            if ext:
                E = E + self.w['ext'][3] * self.negE_at(cells[0], x, self.evals, self.ekind)
            u = u + self.charge[sn] / self.mass[sn] * dt * E
        if accel_only:
            return dict(x=x, x0=None, u=u, deleted=False, crossings=0, events=[], E=E, xd=None)
        a = np.array(x)
        b = x + u * dt
        return self.walk(sn, a, b, u, E)

    def walk(self, sn, a, b, u, E):
        g = self.geo
        last = -1
        ncross = 0
        events = []
        deleted = False
        frac0 = 0.0
        for _ in range(400):
            hits = g.hits(a, b, exclude=last)
            stop = None
            prev = 0.0
            # find the first marked facet
            for t, f in hits:
                ncross += 1
                if f in self.marker:
                    stop = (t, f)
                    break
            if stop is None:
                return dict(x=b, x0=a, u=u, deleted=deleted, crossings=ncross, events=events, E=E, path_end=b,
                            hits=hits)
            t, f = stop
            dx = b - a
            xc = a + t * dx
            sn_kind = self.kind_of(self.bname[self.marker[f]], sn)
            frac0 = frac0 + (1 - frac0) * t
            n = g.N[f]
            events.append(dict(facet=f, kind=sn_kind, bname=self.bname[self.marker[f]], at=xc, frac=frac0, n=n, u=np.array(u)))
            if sn_kind == 'absorb':
                deleted = True
                if g.exterior[f]:
                    return dict(x=b, x0=xc, u=u, deleted=True, crossings=ncross, events=events, E=E)
                a = xc
            elif sn_kind == 'reflect':
                rest = b - xc
                b = b - 2.0 * float(n @ rest) * n
                u = u - 2.0 * float(n @ u) * n
                a = xc
                if deleted and g.exterior[f]:
                    return dict(x=b, x0=xc, u=u, deleted=True, crossings=ncross, events=events, E=E)
            else:
                a = xc
            last = f
        raise Degenerate('too many reflections')


def crossings(wd, held, a):
    """About how many cells the particles will cross in the next step: bounds the work of a run."""
    ext = wd.geo.X.max(0) - wd.geo.X.min(0)
    h = ext / wd.mesh.num_cells() ** (1.0 / wd.d)
    n = 0.0
    for s in wd.species:
        for i in held[s]:
            n += sum((abs(i['u' + c]) + a * wd.ctrl.dt) * wd.ctrl.dt / h[k] for k, c in enumerate(wd.coords))
    return n
