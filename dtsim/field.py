"""C13: the potential and the field follow from the charge alone."""
import numpy as np
from . import loop, seams
from . import world as W
from .core import Violation
from .diag import same
from .world import World, gen_world, gen_particles, DIM

EXPR = ['1.0', 'x[0]', '2.0 + x[0]*x[0]']      # compiled before the runs fork


def generate(rng, index):
    dim = rng.choice(['x', 'r', 'xy', 'xy', 'xyz'])
    w = gen_world(rng, dims=(dim,), engines=('py', 'py', 'cpp') if dim in ('x', 'r', 'xy') else ('py',), charged=True, external=False,
                  field='DG0' if rng.random() < 0.7 else 'CG1')
    w['nofield'] = None
    w['n'] = [max(2, n) for n in w['n']]
    ops = []
    vocab = loop.swarm(rng, ['advance', 'inject', 'maxwell', 'mark']) + ['solve', 'solve', 'solve', 'resolve', 'nosource', 'source', 'overwrite', 'charge', 'coefficient']
    fac = rng.uniform(-2, 2)
    for _ in range(W.length(rng, 2, 10, 0.03)):
        o = rng.choice(vocab)
        f = None
        if o in ('solve', 'resolve', 'nosource') and rng.random() < 0.3:
            f = rng.choice([['solve_fails', 'before'], ['solve_fails', 'after'], ['project_fails', 'before']])
        if o == 'solve':
            ops.append([o, rng.choice(['particles', 'random']), rng.randint(0, 10 ** 6), rng.choice([None, None, 0.0, 1.0, fac, fac, rng.uniform(-2, 2)]), f])
        elif o == 'resolve':
            ops.append([o, rng.choice([None, 1.0, fac, fac, rng.uniform(-2, 2)]), f])
        elif o == 'nosource':
            ops.append([o, f])
        elif o == 'source':
            ops.append([o, rng.choice([None, 0, 1, 2.5, rng.uniform(-3, 3), EXPR[0], EXPR[1], EXPR[2]])])
        elif o == 'overwrite':
            ops.append([o, rng.uniform(-2, 2), rng.randint(0, 1)])
        elif o == 'charge':
            ops.append([o, rng.uniform(-2, 2)])
        elif o == 'coefficient':
            ops.append([o, rng.uniform(0.3, 3.0)])
        else:
            ops.append(loop.gen_op(rng, w, o))
    ops += [['advance'], ['solve', 'particles', 0, None, None]]
    return {'world': w, 'particles': gen_particles(rng, w, lo=0), 'ops': ops,
            'phi': [rng.choice([0.0, rng.uniform(-5, 5)]) for _ in range(2)], 'unset': rng.random() < 0.4,
            'own': dim == 'xyz' or rng.random() < 0.25, 'elliptic': rng.random() < 0.5, 'negE': rng.random() < 0.9}


def user_class():
    """A solver as a user writes it: other dimensions, a coefficient that may change."""
    import dolfin as df
    D = W.mods()['D']

    class UserSolve(D.PoissonSolve_C):
        def __init__(self, phi_F, marker, bcs, constant, negE, radial):
            D.PoissonSolve_C.__init__(self, phi_F)
            self.neg_electric_field = negE
            self.bcs = [df.DirichletBC(self.V, df.Constant(v), marker, i) for i, v in bcs]
            self.eps = df.Constant(EPS)
            self.a = self.eps * df.inner(df.grad(self.w), df.grad(self.v)) * df.dx
            if radial:
                r = df.SpatialCoordinate(self.V.mesh())
                self.a = self.eps * df.inner(df.grad(self.w), df.grad(self.v)) * r[0] ** 2 * df.dx
            self.pde_has_constant_coeffs = constant
            self.assemble_matrix()
            self.assemble_source_expression(0.0)
    return UserSolve


EPS = 8.854187817e-12


def scale(wd):
    """A potential that moves particles by about a cell per step."""
    return 0.05 * wd.geo.scale ** 2 / wd.ctrl.dt ** 2


def make_solver(wd, case, phi, negE, marker):
    """(solver, list of (facet tag, value)) for the world's mesh."""
    import importlib
    a, b = [v * scale(wd) for v in case['phi']]
    bcs = [(1, a), (2, b)]
    if case['own']:
        if case['unset']:
            bcs = bcs[1:]
        return user_class()(phi, marker, bcs, not case['elliptic'], negE, wd.dim == 'r'), bcs
    if wd.dim == 'x':
        m = importlib.import_module('UserMesh_y_Fields_FE_XYZ_Module')
        return m.UserPoissonSolve1D_C(phi, None, None, marker, {'xmin': (1, a), 'xmax': (2, b)}, neg_electric_field=negE), bcs
    if wd.dim == 'r':
        m = importlib.import_module('UserMesh_y_Fields_Spherical1D_Module')
        if case['unset']:
            bcs = bcs[1:]
        return m.UserPoissonSolve1DS_C(phi, None, None, marker, {'rmin': (1, 'unset' if case['unset'] else a), 'rmax': (2, b)}, neg_electric_field=negE), bcs
    m = importlib.import_module('UserMesh_y_Fields_FE2D_Module')
    return m.UserPoissonSolve2DCirc_C(phi, None, None, marker, {'rmin': (1, a), 'rmax': (2, b)}, neg_electric_field=negE), bcs


class Reference:
    """Linear elements assembled with numpy; values are kept per vertex."""
    def __init__(self, wd, phi, negE, bcs):
        g = wd.geo
        self.wd, self.g = wd, g
        nv, d = len(g.X), wd.d
        dm = phi.function_space.dofmap()
        self.dof = np.zeros(nv, dtype=int)
        for c in range(len(g.cells)):
            for j, v in enumerate(g.cells[c]):
                self.dof[v] = dm.cell_dofs(c)[j]
        # gradients of the shape functions in each cell
        self.G = np.array([np.concatenate([-g.Tinv[c].sum(0, keepdims=True), g.Tinv[c]]) for c in range(len(g.cells))])
        self.vol = np.array([abs(np.diff(np.sort(g.X[c][:, 0]) ** 3))[0] / 3.0 for c in g.cells]) if wd.dim == 'r' else g.vol
        self.K = np.zeros((nv, nv))
        for c, vs in enumerate(g.cells):
            self.K[np.ix_(vs, vs)] += self.vol[c] * self.G[c] @ self.G[c].T
        self.fixed = {}
        for t, v in bcs:
            i = t - 1
            for j in range(nv):
                if abs(wd.unit[j][0] - i) < 1e-12:
                    self.fixed[j] = v
        if negE is not None and negE.element_type == 'CG':
            # mass matrix of linear elements; the projection is in plain coordinates
            self.M = np.zeros((nv, nv))
            for c, vs in enumerate(g.cells):
                self.M[np.ix_(vs, vs)] += g.vol[c] * (np.ones((d + 1, d + 1)) + np.eye(d + 1)) / ((d + 1) * (d + 2))

    def source(self, value):
        """Vertex source vector of a density given as a constant or one of EXPR (quadrature over each cell)."""
        g, d = self.g, self.wd.d
        b = np.zeros(len(g.X))
        for c, vs in enumerate(g.cells):
            X = g.X[vs]
            for lam, wt in QUAD[d]:
                x = lam @ X
                if value in EXPR:
                    # the code's expression is interpolated at the vertices
                    f = lam @ np.array([[1.0, v[0], 2.0 + v[0] * v[0]][EXPR.index(value)] for v in X])
                else:
                    f = float(value or 0.0)
                b[vs] += wt * g.vol[c] * f * lam * (x[0] ** 2 if self.wd.dim == 'r' else 1.0)
        return b

    def solve(self, b, eps):
        K = eps * self.K
        free = [i for i in range(len(b)) if i not in self.fixed]
        u = np.zeros(len(b))
        for i, v in self.fixed.items():
            u[i] = v
        if free:
            r = b - K @ u
            u[free] = np.linalg.solve(K[np.ix_(free, free)], r[free])
        return u

    def negE(self, u, kind):
        g, d = self.g, self.wd.d
        gr = np.array([u[vs] @ self.G[c] for c, vs in enumerate(g.cells)])
        if kind == 'DG':
            return gr
        b = np.zeros((len(g.X), d))
        for c, vs in enumerate(g.cells):
            b[vs] += g.vol[c] * gr[c] / (d + 1)
        return np.linalg.solve(self.M, b)


def _quad():
    out = {}
    p, q = np.polynomial.legendre.leggauss(5)
    p, q = (p + 1) / 2, q / 2
    out[1] = [(np.array([1 - a, a]), b) for a, b in zip(p, q)]
    out[2] = [(np.array([1 - a, a * (1 - e), a * e]), 2 * a * b * f) for a, b in zip(p, q) for e, f in zip(p, q)]
    out[3] = [(np.array([1 - a, a * (1 - e), a * e * (1 - h), a * e * h]), 6 * a * a * e * b * f * k)
              for a, b in zip(p, q) for e, f in zip(p, q) for h, k in zip(p, q)]
    return out


QUAD = _quad()


class Fault(RuntimeError):
    pass


class fails:
    """The linear solver or the projection fails once (simulated PETSc error)."""
    def __init__(self, spec, run):
        self.spec, self.run, self.fired = spec, run, False

    def __enter__(self):
        import dolfin as df
        self.df, self.old = df, (df.solve, df.project)
        if self.spec is None:
            return self
        name, when = self.spec
        real = df.solve if name == 'solve_fails' else df.project

        def f(*a, **k):
            if self.fired:
                return real(*a, **k)
            self.fired = True
            if when == 'after':
                real(*a, **k)
            raise Fault('simulated failure')
        if name == 'solve_fails':
            df.solve = f
        else:
            df.project = f
        return self

    def __exit__(self, *a):
        self.df.solve, self.df.project = self.old
        if self.fired:
            self.run.fault(self.spec[0])
            self.run.nontrivial = True
        return False


def simulate(case, run):
    import dolfin as df
    D = W.mods()['D']
    wd = World(case['world'], [dict(q, t=False) for q in case['particles']], run)
    df.set_log_level(50)
    loop.setup(wd)
    run.probes['engine_' + wd.engine] += 1
    run.probes['dim_' + wd.dim] += 1
    P = wd.P
    marker = df.MeshFunction('size_t', wd.mesh, wd.d - 1)
    marker.set_all(0)
    for f in range(len(wd.geo.facets)):
        if wd.geo.exterior[f]:
            uv = wd.unit[wd.geo.facets[f]]
            for i in (0, 1):
                if (np.abs(uv[:, 0] - i) < 1e-12).all():
                    marker[f] = i + 1
    phi = D.Field_C(wd.mesh_M, 'CG', 1, 'scalar')
    charge = D.Field_C(wd.mesh_M, 'CG', 1, 'scalar')
    dens = {s: D.Field_C(wd.mesh_M, 'CG', 1, 'scalar') for s in wd.species}
    negE = wd.field if case['negE'] else None
    df.set_log_active(False)
    solver, bcs = make_solver(wd, case, phi, negE, marker)
    df.set_log_level(50)
    ref = Reference(wd, phi, negE, bcs)
    nv, S = len(wd.geo.X), scale(wd)
    cur = {'b': np.zeros(nv), 'charge': np.zeros(nv), 'eps': EPS, 'solved': None, 'A_eps': EPS}
    run.probes['own_solver' if case['own'] else 'repo_solver'] += 1

    def vertex(F):
        return F.function.vector().get_local()[ref.dof]

    def setvec(F, v):
        a = np.zeros(nv)
        a[ref.dof] = v
        F.function.vector().set_local(a)
        F.function.vector().apply('insert')

    def do(tag, fault, kw, b):
        before = loop.snapshot(wd)
        cv = charge.function.vector().get_local().tobytes()
        raised = False
        with fails(fault, run):
            try:
                solver.solve_for_phi(**kw)
            except Fault:
                raised = True
        if raised:
            solver.solve_for_phi(**kw)
            run.probes['repeated_after_failure'] += 1
        after = loop.snapshot(wd)
        keep = [0, 1, 2, 3, 5] + ([4] if negE is None else [])
        same([before[i] for i in keep], [after[i] for i in keep], tag)
        if cv != charge.function.vector().get_local().tobytes():
            raise Violation('charge-changed', '%s: solving for the potential changed the charge density it was given' % tag)
        cur['b'] = b
        cur['A_eps'] = cur['eps'] if case['elliptic'] else EPS
        judge(tag)

    def judge(tag):
        u = ref.solve(cur['b'], cur['A_eps'] if case['own'] else EPS)
        got = vertex(phi)
        sc = max(np.abs(u).max(), 1e-12)
        if not (np.abs(got - u) <= 1e-7 * sc).all():
            i = int(np.argmax(np.abs(got - u)))
            raise Violation('potential', '%s: potential at vertex %d is %r, the charge and the boundary values give %r' % (tag, i, float(got[i]), float(u[i])))
        for j, v in ref.fixed.items():
            if not abs(got[j] - v) <= 1e-12 * max(abs(v), sc):
                raise Violation('potential', '%s: boundary vertex %d is at %r instead of %r' % (tag, j, float(got[j]), v))
        run.probes['solves'] += 1
        if negE is None:
            return
        E = ref.negE(u, negE.element_type)
        Esc = max(np.abs(E).max(), sc / wd.geo.scale)
        V = negE.function.function_space()
        vec = negE.function.vector().get_local()
        alias = negE.function_values.get_local()
        if vec.tobytes() != alias.tobytes():
            raise Violation('field-values', '%s: the field object reports values that are not those of its function' % tag)
        for c in range(len(wd.geo.cells)):
            for i in range(wd.d):
                dm = V.sub(i).dofmap().cell_dofs(c) if wd.d > 1 else V.dofmap().cell_dofs(c)
                want = [E[c, i]] if negE.element_type == 'DG' else [E[v, i] for v in wd.geo.cells[c]]
                for k, wv in zip(dm, want):
                    if not abs(vec[k] - wv) <= 1e-6 * Esc:
                        raise Violation('field', '%s: -E component %d in cell %d is %r, the gradient of the potential is %r' % (tag, i, c, float(vec[k]), float(wv)))
        # the motion that follows uses this field
        wd.fvals = E

    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        run.op(op[0])
        o = op[0]
        if o == 'advance' and wd.field is not None:
            # a move of many times the size of the mesh is legal and takes for ever
            Em = np.abs(wd.field.function.vector().get_local()).max()
            if Em * wd.ctrl.dt ** 2 * max(abs(wd.charge[s] / wd.mass[s]) for s in wd.species) > 3 * wd.geo.scale:
                run.probes['field_too_strong'] += 1
                continue
        if loop.apply(wd, op):
            run.probes['moves'] += o == 'advance'
        elif o == 'solve':
            setvec(charge, np.zeros(nv))
            if op[1] == 'particles':
                for s in wd.species:
                    dens[s].set_values(0.0)
                    P.accumulate_number_density(s, dof_number_density_F=dens[s])
                P.accumulate_charge_density_from_particles(dens, charge)
                charge.multiply_values(1e-12 * S)
            else:
                setvec(charge, np.random.RandomState(op[2]).uniform(-1, 1, nv) * 1e-11 * S)
            cur['charge'] = vertex(charge)
            kw = dict(assembled_charge=charge)
            if op[3] is not None:
                kw['assembled_charge_factor'] = op[3]
            do(tag, op[4], kw, cur['charge'] * (1.0 if op[3] is None else op[3]))
        elif o == 'resolve':
            kw = dict(assembled_charge=charge)
            if op[1] is not None:
                kw['assembled_charge_factor'] = op[1]
            do(tag, op[2], kw, cur['charge'] * (1.0 if op[1] is None else op[1]))
        elif o == 'nosource':
            do(tag, op[1], {}, cur['b'])
        elif o == 'source':
            v = op[1] if isinstance(op[1], (str, int)) or op[1] is None else op[1] * 1e-11 * S
            solver.assemble_source_expression(v)
            cur['b'] = ref.source(v)
        elif o == 'overwrite' and negE is not None:
            # the user changes the field; the next solve must not be affected, and the change must be seen
            if op[2]:
                negE.set_values(op[1])
                want = np.full(negE.function_len, op[1])
            else:
                want = negE.function.vector().get_local() * op[1]
                negE.multiply_values(op[1])
            got = negE.function.vector().get_local()
            if not (np.abs(got - want) <= 1e-12 * max(np.abs(want).max(), 1e-300)).all():
                raise Violation('field-values', '%s: the field was set by its own method, its function still has other values' % tag)
        elif o == 'charge':
            charge.multiply_values(op[1])
            cur['charge'] = cur['charge'] * op[1]
        elif o == 'coefficient' and case['own'] and case['elliptic']:
            solver.eps.assign(EPS * op[1])
            cur['eps'] = EPS * op[1]
        run.state(wd.engine, wd.dim, case['own'], tuple(len(wd.items(s)) for s in wd.species), [int(x * 1e12) for x in cur['b'][:4]])
        run.event(o, [float(x) for x in vertex(phi)[:3]])


def prewarm():
    import dolfin as df
    df.set_log_active(False)
    D = W.mods()['D']
    import importlib
    for d, m in ((1, df.UnitIntervalMesh(2)), (2, df.UnitSquareMesh(2, 2)), (3, df.UnitCubeMesh(1, 1, 1))):
        mf = df.MeshFunction('size_t', m, d - 1)
        mf.set_all(0)
        df.DomainBoundary().mark(mf, 1)
        for radial in ((False, True) if d == 1 else (False,)):
            M = D.Mesh_C(Mesh=m, coordinate_system='1D-spherical-radial' if radial else 'Cartesian')
            for fam, deg in (('DG', 0), ('CG', 1)):
                phi, E = D.Field_C(M, 'CG', 1, 'scalar'), D.Field_C(M, fam, deg, 'vector')
                s = user_class()(phi, mf, [(1, 0.0)], False, E, radial)
                for x in EXPR:
                    s.assemble_source_expression(x)
                s.solve_for_phi()
                if d == 1 and radial:
                    importlib.import_module('UserMesh_y_Fields_Spherical1D_Module').UserPoissonSolve1DS_C(
                        phi, None, None, mf, {'rmin': (1, 'unset'), 'rmax': (1, 0.0)}, neg_electric_field=E).solve_for_phi()
                elif d == 1:
                    importlib.import_module('UserMesh_y_Fields_FE_XYZ_Module').UserPoissonSolve1D_C(
                        phi, None, None, mf, {'xmin': (1, 0.0), 'xmax': (1, 0.0)}, neg_electric_field=E).solve_for_phi()
                elif d == 2:
                    importlib.import_module('UserMesh_y_Fields_FE2D_Module').UserPoissonSolve2DCirc_C(
                        phi, None, None, mf, {'rmin': (1, 0.0), 'rmax': (1, 0.0)}, neg_electric_field=E).solve_for_phi()
    df.set_log_level(50)
