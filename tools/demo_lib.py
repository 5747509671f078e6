"""A small particle world on lyrana/dt's public API, for demonstrations."""
import importlib, os, sys, tempfile, shutil, atexit
_tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, _tmp, True)
os.chdir(_tmp)
import dt_pybind11_bridge  # noqa: F401
import numpy as np
import dolfin as df
df.set_log_level(50)
import Dolfin_Module as D, Particle_Module as P, DT_Module as T, RecordedData_Module as R

CS = {'x': 'cartesian_x', 'xy': 'cartesian_xy', 'xyz': 'cartesian_xyz', 'r': 'spherical_r'}
COORDS = {'x': ['x'], 'xy': ['x', 'y'], 'xyz': ['x', 'y', 'z'], 'r': ['r']}


def absorb(p):
    p['bitflags'] |= 1


class World:
    """faces: {'lo0': name, 'hi0': name, ...}; handlers: {method name: function(world, p, sn, facet, fraction, normal)}"""
    def __init__(self, dim, n, lo, hi, species, faces=None, handlers=None, L=4, cpp=False, dt=0.1, field=None, interior=None):
        self.dim, self.coords = dim, COORDS[dim]
        d = len(self.coords)
        self.d = d
        if d == 1:
            mesh = df.IntervalMesh(n[0], lo[0], hi[0])
        elif d == 2:
            mesh = df.RectangleMesh(df.Point(*lo), df.Point(*hi), n[0], n[1])
        else:
            mesh = df.BoxMesh(df.Point(*lo), df.Point(*hi), *n)
        self.mesh = mesh
        self.mesh_M = D.Mesh_C(Mesh=mesh, coordinate_system='1D-spherical-radial' if dim == 'r' else 'Cartesian',
                               compute_dictionaries=True, compute_cpp_arrays=cpp, compute_tree=True)
        faces = faces or {}
        names = sorted(set(list(faces.values()) + ['wall'] + ([interior[2]] if interior else [])))
        self.bdict = {nm: i + 1 for i, nm in enumerate(names)}
        mf = df.MeshFunction('size_t', mesh, d - 1)
        mf.set_all(0)
        for f in df.facets(mesh):
            m = f.midpoint()
            m = [m.x(), m.y(), m.z()]
            if f.exterior():
                mf[f.index()] = self.bdict['wall']
                for i in range(d):
                    for k, v in (('lo', lo), ('hi', hi)):
                        if abs(m[i] - v[i]) < 1e-9 and k + str(i) in faces:
                            mf[f.index()] = self.bdict[faces[k + str(i)]]
            elif interior and abs(m[interior[0]] - interior[1]) < 1e-9:
                mf[f.index()] = self.bdict[interior[2]]
        self.mesh_M.particle_boundary_marker = mf
        self.mesh_M.particle_boundary_dict = self.bdict
        pin = P.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = CS[dim]
        pin.force_components = list(self.coords)
        pin.force_precision = np.float64
        pin.use_cpp_integrators = cpp
        pin.particle_species = tuple(P.ParticleSpecies_C(s, q, m, 'charged' if q else 'neutral') for s, q, m in species)
        P.Particle_C.SEGMENT_LENGTH = L
        P.Particle_C.UNIQUE_ID_COUNTER = 0
        self.P = P.Particle_C(pin)
        self.species = [s[0] for s in species]
        self.P.initialize_particle_mesh(self.mesh_M)
        if not self.mesh_M.cell_volume_dict:
            self.mesh_M.compute_cell_volume_dict()
        self.P.initialize_particle_integration()
        c = T.DTcontrol_C()
        c.dt, c.timeloop_count, c.time, c.n_timesteps, c.MAX_FACET_CROSS_COUNT = dt, 0, 0.0, 1000, 1000
        c.title, c.author, c.write_trajectory_files = 'demo', 'demo', False
        self.ctrl = c
        self.field = None
        if field is not None:
            self.field = D.Field_C(self.mesh_M, 'DG', 0, 'vector')
            v = self.field.function.vector()
            v.set_local(np.array([-field[i % d] for i in range(v.size())]))
            v.apply('insert')
        if cpp:
            lib = 'upbfs_spherical_r_solib' if dim == 'r' else 'user_particle_boundary_functions_%s_solib' % CS[dim]
            fns = importlib.import_module(lib).UserParticleBoundaryFunctions(self.P.position_coordinates)
            self.P.pmesh_bcs = self.P.particle_solib.ParticleMeshBoundaryConditions(self.P.species_names, self.mesh_M, fns, print_flag=False)
        else:
            hs = dict(handlers or {})
            hs.setdefault('default_bc', lambda w, p, sn, f, fr, nv: absorb(p))

            class H:
                pass
            h = H()
            for k, fn in hs.items():
                setattr(h, k, (lambda fn: lambda p, sn, f, dx_fraction=None, facet_normal=None: fn(self, p, sn, f, dx_fraction, facet_normal))(fn))
            self.P.pmesh_bcs = P.ParticleMeshBoundaryConditions_C(self.P.species_names, self.mesh_M, h, print_flag=False)

    def trajectories(self, extra=30, max_points=None):
        tin = R.TrajectoryInput_C()
        tin.maxpoints = tin.max_points = max_points
        tin.extra_points = extra
        f = ['step', 't'] + self.coords + ['u' + c for c in self.coords] + ['unique_ID']
        fmt = [int, np.float64] + [np.float64] * (2 * self.d) + [np.int32]
        tin.charged_dict = {'names': f + ['E' + c for c in self.coords], 'formats': fmt + [np.float64] * self.d}
        tin.implicit_dict = {'names': f, 'formats': fmt}
        tin.neutral_dict = {'names': f, 'formats': fmt}
        p = self.P
        p.traj_T = R.Trajectory_C(tin, self.ctrl, p.charged_species, p.neutral_species, p.species_index, p.mass, p.charge)

    def load(self, **lists):
        """lists: species = [(x, u, weight, traj), ...] (weight and traj optional)"""
        class User:
            pass
        uid = P.Particle_C.UNIQUE_ID_COUNTER
        for s in self.species:
            recs = []
            for q in lists.get(s, []):
                x, u = list(np.atleast_1d(q[0]).astype(float)), list(np.atleast_1d(q[1]).astype(float))
                w = q[2] if len(q) > 2 else 1.0
                recs.append(tuple(x + x + u) + (w, 2 if len(q) > 3 and q[3] else 0, -1, uid, 0))
                uid += 1
            setattr(User, s, staticmethod((lambda r: lambda type='listed': (len(r), r))(recs)))
        P.Particle_C.UNIQUE_ID_COUNTER = uid
        self.P.user_particles_class = User
        self.P.initial_particles_dict = {'i' + s: ({'species_name': s, 'initial_distribution_type': 'listed'},) for s in self.species}
        self.P.initialize_particles({s: False for s in self.species})
        self.P.compute_mesh_cell_indices()

    def items(self, sn):
        s = self.P.sap_dict[sn]
        out = []
        for i in range(int(s.get_number_of_items())):
            seg, o = s.get_segment_and_offset(i)
            out.append({k: seg[o][k].item() for k in seg.dtype.names})
        return out

    def ids(self, sn):
        return [p['unique_ID'] for p in self.items(sn)]

    def step(self, n=1):
        for _ in range(n):
            self.ctrl.timeloop_count += 1
            self.ctrl.time += self.ctrl.dt
            if self.P.charged_species:
                self.P.advance_charged_particles_in_E_field(self.ctrl, neg_E_field=self.field)
            if self.P.neutral_species:
                self.P.advance_neutral_particles(self.ctrl)


def fail(msg):
    print('BROKEN:', msg)
    sys.stdout.flush()
    sys.exit(1)


def expect(got, want, what):
    if isinstance(want, float) or (isinstance(want, (list, tuple, np.ndarray)) and len(want) and isinstance(want[0], float)):
        ok = np.allclose(got, want, rtol=1e-8, atol=1e-10)
    else:
        ok = got == want
    if not ok:
        fail('%s: got %r, want %r' % (what, got, want))
