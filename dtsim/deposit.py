"""C11: number and charge densities on the mesh."""
import numpy as np
from . import loop, seams
from . import world as W
from .core import Violation
from .diag import same
from .world import World, gen_world, gen_particles, DIM

ELEMENTS = [('CG', 1), ('CG', 1), ('CG', 2), ('DG', 1)]


def generate(rng, index):
    w = gen_world(rng)
    parts = gen_particles(rng, w, lo=rng.choice([0, 1, 1]))
    vocab = loop.swarm(rng, loop.STATE_OPS) + ['advance', 'density', 'density', 'charge']
    ops = []
    for _ in range(W.length(rng, 2, 9, 0.03)):
        o = rng.choice(vocab)
        if o == 'density':
            ops.append([o, rng.choice(['zero', 'zero', 'again']), rng.randint(0, 2), rng.randint(0, 3) if rng.random() < 0.25 else None])
        elif o == 'charge':
            ops.append([o, rng.random() < 0.5, rng.choice([None, rng.uniform(-2, 2)])])
        else:
            ops.append(loop.gen_op(rng, w, o))
    ops += [['advance'], ['density', 'zero', 0, None], ['charge', False, None]]
    W.add_other(rng, w, ops)
    return {'world': w, 'particles': parts, 'ops': ops, 'element': list(rng.choice(ELEMENTS))}


class Space:
    """Dofs of a Lagrange space and an evaluation of its basis that does not use dolfin's."""
    def __init__(self, wd, F, degree):
        self.wd, self.degree = wd, degree
        self.dm = F.function_space.dofmap()
        self.xd = F.function_space.tabulate_dof_coordinates().reshape((-1, wd.d))
        self.cache = {}
        d = wd.d
        self.exps = [e for e in np.ndindex(*([degree + 1] * d)) if sum(e) <= degree]

    def mono(self, b):
        return np.array([np.prod([b[i] ** e[i] for i in range(len(e))]) for e in self.exps])

    def basis(self, c, x):
        g = self.wd.geo
        if c not in self.cache:
            dofs = [int(i) for i in self.dm.cell_dofs(c)]
            V = np.array([self.mono(g.bary(c, self.xd[i])[1:]) for i in dofs])
            self.cache[c] = (dofs, np.linalg.inv(V))
        dofs, M = self.cache[c]
        return dofs, self.mono(g.bary(c, x)[1:]) @ M


def volume(wd, c):
    if wd.dim == 'r':
        x = np.sort(wd.geo.X[wd.geo.cells[c]][:, 0])
        return 4.0 / 3.0 * np.pi * float(x[1] ** 3 - x[0] ** 3)
    return float(wd.geo.vol[c])


class Fault(MemoryError):
    pass


def simulate(case, run):
    D = W.mods()['D']
    wd = World(case['world'], [dict(q, t=False) for q in case['particles']], run)
    loop.setup(wd)
    P = wd.P
    run.probes['engine_' + wd.engine] += 1
    run.probes['dim_' + wd.dim] += 1
    fam, deg = case['element']
    run.probes['element_%s%d' % (fam, deg)] += 1

    def field(fam, deg):
        return D.Field_C(wd.mesh_M, fam, deg, 'scalar')
    dof = {s: field(fam, deg) for s in wd.species}
    cell = {s: field('DG', 0) for s in wd.species}
    both = field(fam, deg)
    charge = field(fam, deg)
    sp = Space(wd, both, deg)
    s0 = Space(wd, cell[wd.species[0]], 0)
    nd = both.function_len
    ref = {s: np.zeros(nd) for s in wd.species}
    refc = {s: np.zeros(len(wd.geo.cells)) for s in wd.species}
    ref_both, ref_charge, sc_charge = np.zeros(nd), np.zeros(nd), np.zeros(nd)

    def expected(s):
        a, c = np.zeros(nd), np.zeros(len(wd.geo.cells))
        for p in wd.items(s):
            dofs, v = sp.basis(p['cell_index'], wd.pos(p))
            a[dofs] += p['weight'] * v
            (k,), _ = s0.basis(p['cell_index'], wd.pos(p))
            c[k] += p['weight'] / volume(wd, p['cell_index'])
        return a, c

    def cmp(F, want, scale, what, tag):
        got = F.function.vector().get_local()
        bad = np.nonzero(~(np.abs(got - want) <= 1e-10 * max(scale, 1e-300)))[0]
        if len(bad):
            i = int(bad[0])
            raise Violation('density', '%s: %s: value %d is %r, the particles give %r' % (tag, what, i, float(got[i]), float(want[i])))

    def total(s):
        return sum(p['weight'] for p in wd.items(s))

    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        run.op(op[0])
        if loop.apply(wd, op):
            pass
        elif op[0] == 'density':
            mode, which, fault = op[1:]
            before = loop.snapshot(wd)
            for s in wd.species:
                a, c = expected(s)
                tot = total(s)
                if fault is not None and wd.items(s):
                    # user code under the deposit fails at some particle; the user starts over
                    interrupt(P, s, dof[s], cell[s], fault, run)
                    mode = 'zero'
                if mode == 'zero':
                    dof[s].set_values(0.0)
                    ref[s] = np.zeros(nd)
                cell[s].set_values(0.0)
                if which == 0:
                    P.accumulate_number_density(s, dof[s], cell[s])
                elif which == 1:
                    P.accumulate_number_density(s, dof_number_density_F=dof[s])
                    P.accumulate_number_density(s, cell_number_density_F=cell[s])
                else:
                    # all species into one array as well
                    P.accumulate_number_density(s, dof_number_density_F=both, cell_number_density_F=cell[s])
                    ref_both = ref_both + a
                    cmp(both, ref_both, max(np.abs(ref_both).max(), tot), 'density of several species', tag)
                if which < 2:
                    ref[s] = ref[s] + a
                refc[s] = c
                cmp(dof[s], ref[s], max(np.abs(ref[s]).max(), tot), 'density of ' + s, tag)
                cmp(cell[s], c, np.abs(c).max(), 'cell density of ' + s, tag)
                # nothing is lost: the shape functions add up to one everywhere
                if mode == 'zero' and which < 2:
                    got = float(dof[s].function.vector().get_local().sum())
                    if not abs(got - tot) <= 1e-10 * tot:
                        raise Violation('conservation', '%s: density of %s adds up to %r, the particle weights to %r' % (tag, s, got, tot))
                    g2 = dict((j, v) for j, v in enumerate(cell[s].function.vector().get_local()))
                    got = sum(g2[s0.basis(i, wd.geo.X[wd.geo.cells[i]].mean(0))[0][0]] * volume(wd, i) for i in range(len(wd.geo.cells)))
                    if not abs(got - tot) <= 1e-10 * tot:
                        raise Violation('conservation', '%s: cell density times volume of %s adds up to %r, the weights to %r' % (tag, s, got, tot))
                if len(wd.items(s)) > wd.w['L']:
                    run.nontrivial = True
                    run.probes['several_segments'] += 1
                if not wd.items(s):
                    run.probes['species_empty'] += 1
            run.probes['deposits'] += 1
            same(before, loop.snapshot(wd), tag)
        elif op[0] == 'charge':
            before = loop.snapshot(wd)
            if not op[1]:
                charge.set_values(0.0)
                ref_charge, sc_charge = np.zeros(nd), np.zeros(nd)
            P.accumulate_charge_density_from_particles(dof, charge)
            for s in wd.species:
                ref_charge = ref_charge + wd.charge[s] * ref[s]
                sc_charge = sc_charge + np.abs(wd.charge[s] * ref[s])
            if op[2] is not None:
                charge.multiply_values(op[2])
                ref_charge, sc_charge = ref_charge * op[2], sc_charge * abs(op[2])
            cmp(charge, ref_charge, sc_charge.max(), 'charge density', tag)
            for s in wd.species:
                cmp(dof[s], ref[s], max(np.abs(ref[s]).max(), 1e-300), 'density of %s after the charge density was formed' % s, tag)
            same(before, loop.snapshot(wd), tag)
        counts = tuple(len(wd.items(s)) for s in wd.species)
        run.state(wd.engine, wd.dim, wd.w['L'], counts, fam, deg)
        run.event(op[0], counts, [float(v.sum()) for v in ref.values()])


def interrupt(P, s, dof, cell, k, run):
    """The deposit of particle k fails (out of memory); the exception reaches the user."""
    n = [k]
    real = dof.interpolate_delta_function_to_dofs

    def f(p):
        n[0] -= 1
        if n[0] < 0:
            raise Fault('simulated')
        return real(p)
    dof.interpolate_delta_function_to_dofs = f
    try:
        P.accumulate_number_density(s, dof, cell)
    except Fault:
        run.fault('deposit_fails')
        run.nontrivial = True
    finally:
        del dof.interpolate_delta_function_to_dofs
