"""C16: the values of a field under the operations of Field_C."""
import numpy as np
from . import seams, sources
from . import world as W
from .core import Violation
from .deposit import Space, volume
from .world import World, gen_world, gen_particles

ELEMENTS = [['CG', 1, 'scalar'], ['CG', 1, 'scalar'], ['CG', 2, 'scalar'], ['DG', 0, 'scalar'], ['DG', 0, 'scalar'], ['DG', 1, 'scalar'],
            ['CG', 1, 'vector'], ['DG', 0, 'vector'], ['DG', 0, 'vector']]
OPS = ['set', 'set', 'mul', 'mul', 'rmul', 'rset', 'add', 'add', 'interp', 'interp', 'rinterp', 'delta', 'point', 'cell', 'divide', 'outside', 'copyvalues']


def generate(rng, index):
    w = gen_world(rng, engines=('py',), external=False)
    els = [rng.choice(ELEMENTS) for _ in range(rng.randint(1, 2))]
    els = [list(rng.choice(els)) for _ in range(rng.randint(2, 4))]
    vocab = [o for o in OPS if rng.random() < 0.75] or ['set', 'add']
    ops = []

    regs = [sources.gen_region(rng, w) for _ in range(2)]

    def reg():
        return rng.choice(regs) if rng.random() < 0.5 else None

    def val():
        return rng.choice([0.0, 1.0, -1.0, 2.0, rng.uniform(-3, 3), rng.uniform(-3, 3), 10 ** rng.uniform(-12, 12)])
    for _ in range(W.length(rng, 3, 16, 0.03)):
        o = rng.choice(vocab)
        i, j = rng.randrange(9), rng.randrange(9)
        if o == 'set':
            ops.append([o, i, val(), reg()])
        elif o == 'mul':
            ops.append([o, i, rng.choice([0.0, -1.0, 1.0, 2.0, rng.uniform(-2, 2)]), reg()])
        elif o in ('rmul', 'rset'):
            ops.append([o, i, 10 ** rng.uniform(-2, 2), reg(), rng.randint(0, 10 ** 6), rng.choice([None, None, 0.75, -1.5])])
        elif o == 'add':
            ops.append([o, i, j, rng.choice([None, None, 0.0, 1.0, -1.0, rng.uniform(-2, 2)])])
        elif o == 'interp':
            ops.append([o, i, rng.choice([None, None, 0, 1])])
        elif o == 'rinterp':
            ops.append([o, i, rng.randint(0, 10 ** 6), rng.choice([None, 0.75, -1.5])])
        elif o == 'outside':
            ops.append([o, i, rng.randint(0, 5)])
        else:
            ops.append([o, i])
    ops.append(['interp', 0, None])
    return {'world': w, 'particles': gen_particles(rng, w, lo=1), 'fields': els, 'ops': ops, 'start': rng.randint(0, 10 ** 9)}


class F:
    """A field of the code under test beside its model: the array v and the dofs of every cell."""
    def __init__(self, wd, el):
        D = W.mods()['D']
        self.el = el
        self.o = D.Field_C(wd.mesh_M, el[0], el[1], el[2])
        V = self.o.function_space
        self.n = V.dim()
        self.v = np.zeros(self.n)
        self.scale = 0.0
        self.cells = [[int(k) for k in V.dofmap().cell_dofs(c)] for c in range(len(wd.geo.cells))]
        self.nc = 1 if el[2] == 'scalar' else wd.d
        xd = V.tabulate_dof_coordinates().reshape((-1, wd.d))
        self.parts = []
        for k in range(self.nc):
            sp = Space.__new__(Space)
            sp.wd, sp.degree = wd, el[1]
            sp.dm = V.dofmap() if self.nc == 1 else V.sub(k).dofmap()
            sp.xd, sp.cache = xd, {}
            sp.exps = [e for e in np.ndindex(*([el[1] + 1] * wd.d)) if sum(e) <= el[1]]
            self.parts.append(sp)

    def set(self, v, scale=None):
        self.v = v
        self.scale = np.abs(v).max() if scale is None else scale

    def inside(self, cells):
        if cells is None:
            return np.arange(self.n)
        return np.array(sorted({k for c in cells for k in self.cells[c]}))

    def at(self, p):
        """The field at a stored particle, component by component."""
        out = []
        for sp in self.parts:
            dofs, b = sp.basis(p['cell_index'], self.pos(p))
            out.append(float(self.v[dofs] @ b))
        return out

    def pos(self, p):
        return self.parts[0].wd.pos(p)


def simulate(case, run):
    wd = World(case['world'], [dict(q, t=False) for q in case['particles']], run)
    P = wd.P
    if not wd.mesh_M.cell_volume_dict:
        wd.mesh_M.compute_cell_volume_dict()
    run.probes['dim_' + wd.dim] += 1
    fs = [F(wd, el) for el in case['fields']]
    rng = np.random.RandomState(case['start'] % 2 ** 32)
    for f in fs:
        if f.o.function.vector().get_local().any():
            raise Violation('value', 'a new field is not zero')
        x = rng.standard_normal(f.n)
        if f.el[2] == 'vector' and wd.d > 1 and rng.random_sample() < 0.4:      # a field along some of the axes only
            for i in range(wd.d):
                if rng.random_sample() < 0.5:
                    x[f.o.function_space.sub(i).dofmap().dofs()] = 0.0
        f.o.function.vector().set_local(x)
        f.o.function.vector().apply('insert')
        f.set(x.copy())
    names = {c: i for i, c in enumerate('xyz')}
    pool = []

    def points():
        out = []
        for s in wd.species:
            for p in wd.items(s):
                out.append((s, p))
        return out

    def records(ps):
        dt = [(c, np.float64) for c in wd.coords] + [('weight', np.float64), ('cell_index', np.int32)]
        a = np.zeros(len(ps), dtype=dt)
        for i, (_, p) in enumerate(ps):
            for k in a.dtype.names:
                a[i][k] = p[k]
        return a

    def check(tag):
        for i, f in enumerate(fs):
            for what, got in (('function', f.o.function.vector().get_local()), ('function_values', np.array(f.o.function_values[:]))):
                bad = np.nonzero(~(np.abs(got - f.v) <= 1e-11 * max(f.scale, 1e-300)))[0]
                if len(bad):
                    k = int(bad[0])
                    raise Violation('value', '%s: field %d (%s%d %s): value %d of its %s is %r, should be %r' %
                                    (tag, i, f.el[0], f.el[1], f.el[2], k, what, float(got[k]), float(f.v[k])))

    def adopt(f, dofs, sigma, old, tag, fixed, draws, mult, whole):
        """A random operation: take the values over after judging them."""
        got = f.o.function.vector().get_local()
        out = np.ones(f.n, bool)
        out[dofs] = False
        want = old[out] if mult else np.zeros(out.sum())
        if not np.array_equal(got[out], want):
            raise Violation('value', '%s: values outside of the region are %r, should be %r' % (tag, got[out][:5].tolist(), want[:5].tolist()))
        with np.errstate(all='ignore'):
            z = got[dofs] / sigma
            if mult:
                live = np.abs(old[dofs]) > 1e-250
                if (got[dofs][old[dofs] == 0] != 0).any():
                    raise Violation('value', '%s: a zero value times a random number is not zero' % tag)
                z = z[live] / old[dofs][live]
        if len(z):
            run.probes['random_values'] += 1
            if not np.isfinite(z).all() or np.abs(z).max() > 7.5:
                raise Violation('random', '%s: a value of %r standard deviations' % (tag, float(np.abs(z).max())))
            if fixed is not None and draws:
                if np.abs(z - fixed).max() > 1e-9:
                    raise Violation('random', '%s: every normal deviate is %r, a value is %r standard deviations' % (tag, fixed, float(z[np.abs(z - fixed).argmax()])))
            elif fixed is None:
                if (z == 0).any():
                    raise Violation('random', '%s: a value is zero' % tag)
                u = np.unique(np.round(z, 9))
                pool.extend(u.tolist())
                # a number of its own for each value (each cell, where the function draws one per cell)
                if len(u) < len(z) and (mult or whole or (f.el[0] == 'DG' and f.el[1] == 0 and f.nc == 1)) and len(np.unique(z)) < len(z):
                    raise Violation('random', '%s: %d values have %d random numbers' % (tag, len(z), len(np.unique(z))))
                if len({c for c, d in enumerate(f.cells) if set(d) & set(dofs.tolist())}) > 1 and len(dofs) > f.n // 2 + 1 and len(u) < 2 and len(z) > 2 and f.el[0] == 'DG':
                    raise Violation('random', '%s: all values are the same random number' % tag)
        f.set(got.copy())

    check('start')
    for k, op in enumerate(case['ops']):
        o, f = op[0], fs[op[1] % len(fs)]
        tag = 'op %d %s' % (k, o)
        run.op(o)
        if o in ('set', 'mul', 'rset', 'rmul') and op[3] is not None:
            reg, cells = sources.region(wd, op[3])
            run.probes['region'] += 1
            run.nontrivial = True
        else:
            reg, cells = None, None
        if o == 'set':
            f.o.set_values(op[2], **({} if reg is None else {'subdomain': reg}))
            v = np.zeros(f.n)
            v[f.inside(cells)] = op[2]
            f.set(v)
        elif o == 'mul':
            f.o.multiply_values(op[2], **({} if reg is None else {'subdomain': reg}))
            v = f.v.copy()
            v[f.inside(cells)] *= op[2]
            f.set(v, max(f.scale, np.abs(v).max()))
        elif o in ('rset', 'rmul'):
            old = f.o.function.vector().get_local()
            kw = {} if reg is None else {'subdomain': reg}

            def act():
                if o == 'rset':
                    f.o.set_gaussian_values(op[2], **kw)
                else:
                    f.o.multiply_values(op[2], gaussian=True, **kw)
            draws = 0
            seams.seed(op[4])
            if op[5] is not None:
                with seams.fixed_normal(op[5]) as fn:
                    act()
                draws = fn.draws
            else:
                act()
                # the same seed, the same values
                first = f.o.function.vector().get_local()
                f.o.function.vector().set_local(old)
                f.o.function.vector().apply('insert')
                seams.seed(op[4])
                act()
                if f.o.function.vector().get_local().tobytes() != first.tobytes():
                    raise Violation('random', '%s: the same seed gives other values' % tag)
            adopt(f, f.inside(cells), op[2], old, tag, op[5], draws, o == 'rmul', reg is None)
        elif o == 'add':
            g = fs[op[2] % len(fs)]
            if g.el != f.el:
                run.probes['skipped'] += 1
                continue
            if op[3] is None:
                f.o.multiply_add(g.o)
            else:
                f.o.multiply_add(g.o, op[3])
            m = 1.0 if op[3] is None else op[3]
            if g is f:
                run.probes['to_itself'] += 1
            f.set(f.v + m * g.v, max(f.scale, abs(m) * g.scale, f.scale + abs(m) * g.scale))
        elif o in ('interp', 'rinterp'):
            ps = points()
            if not ps:
                continue
            a = records(ps)
            out = np.zeros(len(ps), dtype=[('c%d' % i, np.float64) for i in range(f.nc)])
            out.view(np.float64)[:] = np.nan
            a0 = a.tobytes()
            if o == 'interp' and op[2] is not None:
                try:
                    with seams.alloc_fault(op[2], plain=True) as af:
                        f.o.interpolate_field_to_points(a, out)
                except MemoryError:
                    run.fault('allocation_fails')
                check(tag + ' after a failed allocation')
            want = [f.at(p) for _, p in ps]
            if o == 'interp':
                f.o.interpolate_field_to_points(a, out)
                for i in range(len(ps)):
                    for c in range(f.nc):
                        if not abs(out[i][c] - want[i][c]) <= 1e-8 * max(f.scale, 1e-300):
                            raise Violation('interpolation', '%s: component %d at point %d is %r, should be %r' % (tag, c, i, float(out[i][c]), want[i][c]))
            else:
                seams.seed(op[2])
                if op[3] is not None:
                    with seams.fixed_normal(op[3]) as fn:
                        f.o.interpolate_random_field_to_points(a, out)
                else:
                    f.o.interpolate_random_field_to_points(a, out)
                for i in range(len(ps)):
                    got, w = np.array([out[i][c] for c in range(f.nc)]), np.array(want[i])
                    nw = float(w @ w)
                    r = float(got @ w) / nw if nw > 0 else 0.0
                    if not np.isfinite(got).all() or np.abs(got - r * w).max() > 1e-7 * max(f.scale, 1e-300) * max(1.0, abs(r)):
                        raise Violation('interpolation', '%s: random field %r at point %d is no multiple of the field %r' % (tag, got.tolist(), i, w.tolist()))
                    if nw > (1e-6 * f.scale) ** 2:
                        if abs(r) > 7.5:
                            raise Violation('random', '%s: a random factor of %r' % (tag, r))
                        if op[3] is None:
                            if abs(r - 1.0) < 1e-12:
                                raise Violation('random', '%s: the field at point %d was not multiplied by a random number' % (tag, i))
                            pool.append(r)
                        elif fn.draws and abs(r - op[3]) > 1e-7:
                            raise Violation('random', '%s: every normal deviate is %r, the random factor is %r' % (tag, op[3], r))
            if a.tobytes() != a0:
                raise Violation('value', '%s: the points have changed' % tag)
        elif o == 'outside':
            # a point far outside the mesh among good ones: an error or not, the field stays
            ps = points()
            if not ps:
                continue
            a = records(ps)
            j = op[2] % len(ps)
            for c in wd.coords:
                a[j][c] = 1e3 * wd.geo.scale + 1e3
            out = np.zeros(len(ps), dtype=[('c%d' % i, np.float64) for i in range(f.nc)])
            try:
                f.o.interpolate_field_to_points(a, out)
            except RuntimeError:
                run.fault('point_outside')
        elif o in ('delta', 'point'):
            if f.el[2] != 'scalar':
                run.probes['skipped'] += 1
                continue
            ps = points()
            a = records(ps)
            v = f.v.copy()
            sc = f.scale
            for i, (_, p) in enumerate(ps):
                if o == 'delta':
                    f.o.interpolate_delta_function_to_dofs(a[i])
                else:
                    f.o.integrate_delta_function(a[i])
                dofs, b = f.parts[0].basis(p['cell_index'], wd.pos(p))
                v[dofs] += p['weight'] * b
                sc = max(sc, np.abs(v).max(), p['weight'])
            f.set(v, sc)
        elif o == 'cell':
            if f.el != ['DG', 0, 'scalar']:
                run.probes['skipped'] += 1
                continue
            ps = points()
            a = records(ps)
            v = f.v.copy()
            sc = f.scale
            for i, (_, p) in enumerate(ps):
                f.o.add_weight_to_cell(a[i])
                v[f.cells[p['cell_index']][0]] += p['weight']
                sc = max(sc, np.abs(v).max())
            f.set(v, sc)
        elif o == 'divide':
            if f.el != ['DG', 0, 'scalar']:
                run.probes['skipped'] += 1
                continue
            f.o.divide_by_cell_volumes()
            v = f.v.copy()
            sc = 0.0
            for c, (d,) in enumerate(f.cells):
                v[d] /= volume(wd, c)
                sc = max(sc, f.scale / volume(wd, c))
            f.set(v, sc)
        elif o == 'copyvalues':
            # user code writes the values directly, as the examples do
            x = rng.standard_normal(f.n)
            f.o.function_values[:] = x
            f.set(x)
        check(tag)
        run.state(wd.dim, tuple(map(tuple, case['fields'])), o, reg is not None)
        run.event(o, [float(g.v.sum()) for g in fs])
    z = np.array(pool)
    n = len(z)
    if n >= 100:
        run.probes['statistics'] += 1
        if abs(z.mean()) > 7.0 / np.sqrt(n):
            raise Violation('random', 'mean of %d normal deviates is %r' % (n, float(z.mean())))
        if abs((z * z).mean() - 1) > 8.0 * np.sqrt(2.0 / n):
            raise Violation('random', 'mean square of %d normal deviates is %r' % (n, float((z * z).mean())))
