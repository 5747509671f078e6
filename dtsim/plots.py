"""C17: plots of histories, trajectories and solutions.

The real matplotlib draws; the display is the simulator's.  What the user sees is what the figures
hold when they are shown; then the user closes the windows.  The display may fail.
"""
import numpy as np
from . import field, loop
from . import world as W
from .core import Violation
from .diag import same
from .world import World, gen_world, gen_particles

HISTS = ['count', 'KE', 'number']


class DisplayError(Exception):
    """What a display that is not there raises."""


def generate(rng, index):
    solve = rng.random() < 0.3
    if solve:
        dim = rng.choice(['x', 'r', 'xy', 'xy', 'xyz'])
        w = gen_world(rng, dims=(dim,), engines=('py', 'py', 'cpp') if dim != 'xyz' else ('py',), charged=True, external=False, field='DG0')
        w['nofield'] = None
        w['n'] = [max(2, n) for n in w['n']]
    else:
        w = gen_world(rng)
    parts = gen_particles(rng, w, hi=8, traj=rng.choice([0.15, 0.4, 0.8]), speed=10 ** rng.uniform(-1.2, 0.2))
    vocab = loop.swarm(rng, loop.STATE_OPS) + ['advance', 'record', 'record', 'hist', 'hist', 'plot_hist', 'plot_traj', 'plot_mesh'] + ['plot_solve'] * solve
    ops = []
    plots = 0
    for _ in range(W.length(rng, 3, 10, 0.03)):
        o = rng.choice(vocab)
        if o.startswith('plot'):
            if plots < 3:
                ops.append([o, rng.random() < 0.5, rng.randint(0, 12) if rng.random() < 0.3 else None])
            plots += 1
        elif o in ('record', 'hist'):
            ops += [[o]] * rng.choice([1, 1, 2])
        else:
            ops.append(loop.gen_op(rng, w, o, traj=0.3))
            if rng.random() < 0.5:
                ops += [['record'], ['hist']]
    ops += [['advance'], ['record'], ['hist'], [rng.choice(['plot_hist', 'plot_traj', 'plot_mesh']), rng.random() < 0.5, None]]
    n = sum(1 for o in ops if o[0] == 'hist') + rng.choice([0, 0, 1, 10])
    W.add_other(rng, w, ops)
    return {'world': w, 'particles': parts, 'ops': ops, 'traj': {'n': rng.choice([1, 3, 8, 20]), 'extra': rng.choice([0, 1, 3, 40])},
            'hists': [h for h in HISTS if rng.random() < 0.5] or ['KE'], 'steps': n, 'solve': solve, 'phi': [rng.uniform(-1, 1), rng.uniform(-1, 1)],
            'own': True, 'unset': False, 'elliptic': False}


class Display:
    """Shows what is in the open figures, until it fails."""
    def __init__(self):
        import matplotlib.pyplot as plt
        from matplotlib._pylab_helpers import Gcf
        from matplotlib.figure import Figure
        self.plt, self.Gcf, self.Figure = plt, Gcf, Figure
        self.fail = None
        self.fired = False
        self.curves, self.others, self.shows = [], [], 0

    def __enter__(self):
        self.old = self.plt.show, self.Figure.show
        self.plt.close('all')
        self.plt.show = lambda *a, **k: self.look(None)
        self.Figure.show = lambda fig, *a, **k: self.look(fig)
        return self

    def __exit__(self, *a):
        self.plt.show, self.Figure.show = self.old
        self.plt.close('all')

    def look(self, fig):
        self.shows += 1
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                self.fail = None
                self.fired = True
                raise DisplayError('simulated: cannot connect to the display')
        for f in [fig] if fig is not None else [m.canvas.figure for m in self.Gcf.get_all_fig_managers()]:
            for a in f.axes:
                sup = f._suptitle.get_text() if f._suptitle is not None else ''
                title = (sup + ' ' + a.get_title()).strip()
                for l in a.lines:
                    self.curves.append((title, a.get_xlabel(), a.get_ylabel(), np.array(l.get_xdata(orig=True), dtype=float).ravel(),
                                        np.array(l.get_ydata(orig=True), dtype=float).ravel()))
                if a.collections or a.lines or a.patches or a.images:
                    self.others.append((title, len(a.collections)))
            self.plt.close(f)            # the user closes the window

    def start(self, fail):
        self.curves, self.others, self.shows = [], [], 0
        self.fail, self.fired = fail, False

    def stop(self):
        self.fail = None
        self.plt.close('all')


def eq(a, b):
    return a.shape == b.shape and bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())


def match(tag, what, shown, want, exact=True):
    """want: (words of the title, xlabel or None, ylabel or None, x, y, may be absent)."""
    left = list(shown)
    for words, xl, yl, x, y, may in want:
        for i, (t, sx, sy, gx, gy) in enumerate(left):
            if all(v in t for v in words) and (xl is None or xl in sx) and (yl is None or sy == yl) and eq(gx, x) and eq(gy, y):
                del left[i]
                break
        else:
            if not may:
                near = [(t, sx, sy, gx[:30].tolist(), gy[:30].tolist()) for (t, sx, sy, gx, gy) in left if (yl is None or sy == yl) and all(v in t for v in words)]
                raise Violation('plot', '%s: %s %s against %s of %r points is not shown: x %r y %r; shown: %r' %
                                (tag, what, yl, xl, len(x), x[:8].tolist(), y[:8].tolist(), near[:1]))
    if exact and left:
        t, sx, sy, gx, gy = left[0]
        raise Violation('plot', '%s: shown is a curve %r %s against %s, of %d points, that was not recorded: x %r y %r' %
                        (tag, t, sy, sx, len(gx), gx[:8].tolist(), gy[:8].tolist()))


def expect_hist(H, rows):
    n = len(rows)
    t = np.array([r[1] for r in rows], dtype=float)
    out = [((), 'time', None, t, np.array([r[0] for r in rows], dtype=float), n == 0)]
    for h in H.scalar_histories + H.species_scalar_histories:
        out.append(((h,), 'time', h, t, np.array(H.data_array[h][:n], dtype=float), n == 0))
    return out


def expect_traj(wd, t_only):
    T = wd.P.traj_T
    out = []
    for s in wd.species:
        for i, u in enumerate(T.particle_unique_id_list[s]):
            n = int(T.trajectory_length[s][i])
            a = T.data_list[s][i]
            words = (s, str(int(u)))
            for c in a.dtype.names:
                if c in ('step', 't'):
                    continue
                out.append((words, 'time', c, np.array(a['t'][:n], dtype=float), np.array(a[c][:n], dtype=float), n == 0))
            if not t_only and 'x' in a.dtype.names:
                for c in ('y', 'ux'):
                    if c in a.dtype.names:
                        out.append((words, 'x', c, np.array(a['x'][:n], dtype=float), np.array(a[c][:n], dtype=float), n == 0))
    return out


def expect_mesh(wd, title):
    T = wd.P.traj_T
    out = []
    for s in wd.species:
        for i in range(len(T.particle_unique_id_list[s])):
            n = int(T.trajectory_length[s][i])
            a = T.data_list[s][i]
            if n > 1 and 'x' in a.dtype.names and 'y' in a.dtype.names:
                out.append(((title,), None, None, np.array(a['x'][:n], dtype=float), np.array(a['y'][:n], dtype=float), False))
    return out


def simulate(case, run):
    with Display() as d:
        _simulate(case, run, d)


def _simulate(case, run, d):
    wd = World(case['world'], case['particles'], run, traj=case['traj'])
    loop.setup(wd)
    P, ctrl, T = wd.P, wd.ctrl, wd.P.traj_T
    M = W.mods()
    run.probes['engine_' + wd.engine] += 1
    run.probes['dim_' + wd.dim] += 1
    P.history_function_dict['species_number'] = M['P'].Particle_C.get_species_number
    hin = M['R'].ParticleHistoryInput_C()
    hin.max_points = None
    hin.scalar_histories = list(case['hists'])
    n0, ctrl.n_timesteps = ctrl.n_timesteps, case['steps']
    H = P.histories = M['R'].ParticleHistory_C(hin, ctrl, P.history_function_dict, P.species_names)
    ctrl.n_timesteps = n0
    rows = []
    solver = phi = None
    if case['solve']:
        import dolfin as df
        marker = df.MeshFunction('size_t', wd.mesh, wd.d - 1)
        marker.set_all(0)
        for f in range(len(wd.geo.facets)):
            if wd.geo.exterior[f]:
                uv = wd.unit[wd.geo.facets[f]]
                for i in (0, 1):
                    if (np.abs(uv[:, 0] - i) < 1e-12).all():
                        marker[f] = i + 1
        phi = M['D'].Field_C(wd.mesh_M, 'CG', 1, 'scalar')
        df.set_log_active(False)
        solver, _ = field.make_solver(wd, case, phi, wd.field, marker)
        df.set_log_level(50)

    def state():
        v = loop.snapshot(wd), H.counter, H.data_array[:len(rows)].tobytes()
        return v

    def call(fn, fault, tag):
        """The plot as the user asks for it; again if the display failed."""
        before = state()
        d.start(fault)
        ok = True
        try:
            fn()
        except DisplayError:
            if not d.fired:
                raise
            ok = False
            run.fault('display_fails')
        d.stop()
        after = state()
        same(before[0], after[0], tag)
        if before[1:] != after[1:]:
            raise Violation('observer-effect', '%s changed the history' % tag)
        if not ok:
            call(fn, None, tag + ' (repeated)')

    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        run.op(op[0])
        if loop.apply(wd, op):
            pass
        elif op[0] == 'record':
            P.record_trajectory_data(ctrl.timeloop_count, ctrl.time, neg_E_field=wd.field)
        elif op[0] == 'hist':
            if len(rows) < H.npoints:
                P.record_history_data(ctrl.timeloop_count, ctrl.time)
                rows.append((int(H.data_array['step'][len(rows)]), float(H.data_array['t'][len(rows)])))
        elif op[0] == 'plot_hist':
            call(H.plot, op[2], tag)
            match(tag, 'the history', d.curves, expect_hist(H, rows))
            run.probes['history_partly_filled'] += len(rows) < H.npoints
            run.probes['history_plots'] += 1
            run.nontrivial = True
        elif op[0] == 'plot_traj':
            if sum(len(T.data_list[s]) for s in wd.species) <= 12:
                call(lambda: T.plot(plot_vs_t_only=True) if op[1] else T.plot(), op[2], tag)
                match(tag, 'the trajectory\'s', d.curves, expect_traj(wd, op[1]))
                run.probes['trajectory_plots'] += 1
                if any(len(T.data_list[s]) for s in wd.species):
                    run.nontrivial = True
        elif op[0] == 'plot_mesh':
            title = 'plot %d' % k
            call(lambda: T.plot_trajectories_on_mesh(wd.mesh, title), op[2], tag)
            match(tag, 'the trajectory\'s', d.curves, expect_mesh(wd, title), exact=False)
            if not any(title in t for t, _ in d.others):
                raise Violation('plot', '%s: the mesh is not shown' % tag)
            run.probes['mesh_plots'] += 1
        elif op[0] == 'plot_solve' and solver is not None:
            import dolfin as df
            df.set_log_level(50)
            solver.solve_for_phi(plot_flag=False)
            before = state()
            u = phi.function.vector().get_local()
            title = 'solution %d' % k
            call(lambda: solver.solve_for_phi(plot_flag=True, plot_title=title), op[2], tag)
            if state() != before or not (phi.function.vector().get_local() == u).all():
                raise Violation('observer-effect', '%s: the solution that is plotted is another one' % tag)
            if len([1 for t, _ in d.others if title in t]) != 2:
                raise Violation('plot', '%s: shown are %r, not the potential and the field' % (tag, d.others))
            if wd.d == 1:
                x = wd.mesh.coordinates()[:, 0]
                v = phi.function.compute_vertex_values(wd.mesh)
                o = np.argsort(x)
                for t, _, _, gx, gy in d.curves[:1]:
                    g = np.argsort(gx)
                    if not (len(gx) == len(x) and np.allclose(gx[g], x[o]) and np.allclose(gy[g], v[o], rtol=1e-12, atol=0)):
                        raise Violation('plot', '%s: shown is %r, the potential is %r' % (tag, gy[g].tolist(), v[o].tolist()))
            run.probes['solution_plots'] += 1
        run.state(wd.engine, wd.dim, len(rows), tuple(int(n) for s in wd.species for n in T.trajectory_length[s]))
        run.event(op[0], len(rows), d.shows, len(d.curves))
