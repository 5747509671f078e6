"""C14: the whole time loop (move, record, source, write, deposit, solve, history) run several times.

Lanes of one case: the bare loop; the same with everything observed, other segment lengths and
failing outputs; the bare loop again; the other engine.  The physical state after every step is compared.
"""
import numpy as np
from . import disk, field, loop, output, seams, sources, twins
from . import world as W
from .core import Violation
from .world import World, gen_world, gen_particles


def generate(rng, index):
    dim = rng.choice(['x', 'r', 'r', 'xy', 'xy', 'xyz'])
    both = dim != 'xyz'
    w = gen_world(rng, dims=(dim,), engines=('cpp',) if both else ('py',), field='DG0' if both or rng.random() < 0.5 else 'CG1',
                  charged=True if dim != 'xy' else None)
    if both:        # a world both engines can run: the boundary functions compiled into the repository
        w['handlers'] = twins.mirror(w)['handlers']
        w['engine'] = rng.choice(['py', 'cpp'])
    w['nofield'] = None
    if dim == 'xyz':
        w.pop('refine', None)
    if not any(s['charge'] for s in w['species']):
        w['species'][0]['charge'] = 1.0
    w['n'] = [max(2, n) for n in w['n']]
    n = W.length(rng, 2, 8, 0.02)
    srcs = [dict(sources.gen_params(rng, w), kind='maxwell') for _ in range(rng.choice([0, 1, 1, 2]))]
    for q in srcs:
        q['npc'] = min(q['npc'], 2)
        q['density'] = 10 ** rng.uniform(0, 2)
    obs = []
    for k in range(n):
        o = []
        for kind in ('diag', 'hist', 'badhist', 'record', 'snap', 'density', 'resolve', 'wtraj'):
            if rng.random() < 0.5:
                f = None
                if kind == 'snap' and rng.random() < 0.5:
                    f = rng.choice([['disk_full', rng.randint(1, 30), rng.choice([1, 5, 1000])], ['io_error', rng.randint(1, 30), 1],
                                    ['hdf5_call_fails', rng.randint(0, 8), 1], ['alloc', rng.choice([0, 1, 2])]])
                elif kind == 'wtraj' and rng.random() < 0.5:
                    f = rng.choice([['disk_full', rng.randint(1, 40), 1000], ['hdf5_call_fails', rng.randint(0, 20), 1]])
                elif kind == 'resolve' and rng.random() < 0.5:
                    f = rng.choice([['solve_fails', 'before'], ['solve_fails', 'after'], ['project_fails', 'before']])
                o.append([kind, f])
        rng.shuffle(o)
        obs.append(o)
    lanes = [{'engine': w['engine'], 'L': w['L']}]
    for _ in range(rng.choice([1, 1, 2])):
        lanes.append({'engine': w['engine'], 'L': rng.choice([w['L'], 1, 2, 3, 5, 100]), 'observed': True})
    if rng.random() < 0.5:
        lanes.append({'engine': w['engine'], 'L': w['L']})
    if both and not w.get('ext') and rng.random() < 0.6:
        lanes.append({'engine': 'cpp' if w['engine'] == 'py' else 'py', 'L': rng.choice([1, 2, 3, 5]), 'observed': rng.random() < 0.3})
    if w.get('ext'):
        for l in lanes:
            l['L'] = w['L']
    return {'world': w, 'particles': gen_particles(rng, w, lo=0, traj=rng.choice([0.0, 0.5])), 'ops': obs, 'sources': srcs, 'lanes': lanes,
            'phi': [rng.choice([0.0, rng.uniform(-5, 5)]) for _ in range(2)], 'unset': rng.random() < 0.4,
            'own': dim == 'xyz', 'elliptic': False, 'factor': rng.choice([None, 1.0, 0.5]), 'strength': 10 ** rng.uniform(-1.5, 0.3)}


def lane(case, spec, run):
    """One run of the loop; the state after every step."""
    w = dict(case['world'], engine=spec['engine'], L=spec['L'])
    seen = bool(spec.get('observed'))
    with disk.Disk(run) as d:
        return _lane(case, w, seen, run, d)


def _lane(case, w, seen, run, d):
    import dolfin as df
    M = W.mods()
    D, R = M['D'], M['R']
    n = len(case['ops'])
    wd = World(w, case['particles'], run, traj={'n': 4 * n, 'extra': 40} if seen else None)
    loop.setup(wd)
    P, ctrl = wd.P, wd.ctrl
    marker = df.MeshFunction('size_t', wd.mesh, wd.d - 1)
    marker.set_all(0)
    for f in range(len(wd.geo.facets)):
        if wd.geo.exterior[f]:
            uv = wd.unit[wd.geo.facets[f]]
            for i in (0, 1):
                if (np.abs(uv[:, 0] - i) < 1e-12).all():
                    marker[f] = i + 1
    phi = D.Field_C(wd.mesh_M, 'CG', 1, 'scalar')
    charge = D.Field_C(wd.mesh_M, 'CG', 1, 'scalar')
    dens = {s: D.Field_C(wd.mesh_M, 'CG', 1, 'scalar') for s in wd.species}
    cells = {s: D.Field_C(wd.mesh_M, 'DG', 0, 'scalar') for s in wd.species}
    df.set_log_active(False)
    solver, _ = field.make_solver(wd, case, phi, wd.field, marker)
    df.set_log_level(50)
    # charges such that the field moves particles by a fraction of the mesh per step
    unit = case['strength'] * 0.05 * wd.geo.scale ** 2 / ctrl.dt ** 2 * field.EPS / 100.0
    srcs = []
    for q in case['sources']:
        reg, _ = sources.region(wd, q['region'])
        par = {'species_name': wd.species[q['s'] % len(wd.species)], 'number_density': q['density'], 'thermal_speed': q['thermal'],
               'drift_velocity': tuple(q['drift']), 'velocity_coordinate_system': 'x_y_z', 'number_per_cell': q['npc'], 'timestep_interval': q['every']}
        srcs.append((par, P.create_maxwellian_particles, reg))
    P.particle_source_dict = {'s%d' % i: s for i, s in enumerate(srcs)}
    boom = [False]

    def user(p_P, s):
        if boom[0]:
            boom[0] = False
            raise ZeroDivisionError('simulated')
        return 1.0
    if seen:
        P.history_function_dict['species_user'] = user
        hin = R.ParticleHistoryInput_C()
        hin.max_points = None
        hin.scalar_histories = ['count', 'KE', 'user']
        n0, ctrl.n_timesteps = ctrl.n_timesteps, 4 * n
        P.histories = R.ParticleHistory_C(hin, ctrl, P.history_function_dict, P.species_names)
        ctrl.particle_output_file = 'run.h5part'
        ctrl.particle_output_attributes = ['unique_ID', 'weight', wd.coords[0]]
        P.check_particle_output_parameters(ctrl)
        P.initialize_particle_output_file(ctrl)
        run.probes['observed_lane'] += 1

    def deposit_and_solve(fault=None):
        charge.set_values(0.0)
        for s in wd.species:
            dens[s].set_values(0.0)
            cells[s].set_values(0.0)
            P.accumulate_number_density(s, dens[s], cells[s])
            charge.multiply_add(dens[s], multiplier=wd.charge[s] * unit)
        with field.fails(fault, run):
            try:
                solver.solve_for_phi(assembled_charge=charge, assembled_charge_factor=case['factor'])
                return
            except field.Fault:
                pass
        solver.solve_for_phi(assembled_charge=charge, assembled_charge_factor=case['factor'])

    def state():
        return ({s: wd.items(s) for s in wd.species}, phi.function.vector().get_local(), wd.field.function.vector().get_local(),
                {s: dens[s].function.vector().get_local() for s in wd.species}, {s: cells[s].function.vector().get_local() for s in wd.species})
    deposit_and_solve()
    out = [state()]
    ext = {} if wd.ext is None else {'external_E_field': wd.ext}
    for k, obs in enumerate(case['ops']):
        E = np.abs(wd.field.function.vector().get_local()).max() * max([abs(wd.charge[s] / wd.mass[s]) for s in wd.species])
        if E * ctrl.dt ** 2 > 3 * wd.geo.scale:
            run.probes['field_too_strong'] += 1
            break
        if W.crossings(wd, out[-1][0], E) > 4000:
            run.probes['paths_too_long'] += 1
            break
        wd.tick()
        if P.neutral_species:
            P.advance_neutral_particles(ctrl)
        if P.charged_species:
            P.advance_charged_particles_in_E_field(ctrl, neg_E_field=wd.field, **ext)
        look(wd, P, solver, seen, [o for o in obs if o[0] in ('record', 'diag')], run, d, boom, None, ext)
        P.add_more_particles(ctrl, neg_E_field=wd.field)
        look(wd, P, solver, seen, [o for o in obs if o[0] in ('snap', 'wtraj')], run, d, boom, None, ext)
        f = [o[1] for o in obs if o[0] == 'resolve']
        deposit_and_solve(f[0] if seen and f else None)
        look(wd, P, solver, seen, [o for o in obs if o[0] in ('hist', 'badhist', 'density', 'resolve')], run, d, boom, deposit_and_solve, ext)
        out.append(state())
        counts = tuple(len(out[-1][0][s]) for s in wd.species)
        run.state(wd.engine, wd.dim, w['L'], counts)
        if any(c > w['L'] for c in counts):
            run.nontrivial = True
    h = getattr(P, 'particle_output_handle', None)
    if h:
        disk.settle(h)
    return wd, out


def look(wd, P, solver, seen, obs, run, d, boom, again, ext):
    if not seen:
        return
    ctrl, T = wd.ctrl, P.traj_T
    for kind, f in obs:
        run.op(kind)
        if kind == 'record':
            P.record_trajectory_data(ctrl.timeloop_count, ctrl.time, neg_E_field=wd.field, **ext)
        elif kind == 'diag':
            P.get_total_particle_count()
            for s in wd.species:
                P.get_species_particle_count(s)
                P.get_species_number(s)
                P.get_species_KE(s)
        elif kind in ('hist', 'badhist'):
            if P.histories.counter < P.histories.npoints:
                boom[0] = kind == 'badhist'
                try:
                    P.record_history_data(ctrl.timeloop_count, ctrl.time)
                except ZeroDivisionError:
                    run.fault('user_function_raises')
                boom[0] = False
        elif kind == 'snap' and P.particle_output_handle:
            ok = output.write(wd, run, d, False, f)
            d.heal()
            for _ in range(output.RETRIES):
                if not ok:
                    ok = output.write(wd, run, d, False, None)
        elif kind == 'wtraj':
            if f is not None:
                d.arm(*f)
            try:
                T.write_trajectories_to_files()
            except (OSError, RuntimeError, SystemError):
                if f is None and not run.faults:
                    raise
            d.heal()
        elif kind == 'resolve':
            again()
        elif kind == 'density':
            F = W.mods()['D'].Field_C(wd.mesh_M, 'DG', 0, 'scalar')
            for s in wd.species:
                F.set_values(0.0)
                P.accumulate_number_density(s, cell_number_density_F=F)


def simulate(case, run):
    base = None
    for i, spec in enumerate(case['lanes']):
        wd, out = lane(case, spec, run)
        run.probes['lane_' + spec['engine']] += 1
        run.event(spec['engine'], spec['L'], [sum(len(v) for v in o[0].values()) for o in out], float(out[-1][1].sum()))
        if base is None:
            base = out
            run.probes['dim_' + wd.dim] += 1
            run.probes['steps'] += len(out) - 1
            continue
        same = spec['engine'] == case['lanes'][0]['engine']
        compare(wd, run, base, out, 'lane %d (%s engine, segments of %d%s)' % (i, spec['engine'], spec['L'], ', observed' if spec.get('observed') else ''), same)


def compare(wd, run, a, b, tag, exact):
    if exact and len(a) != len(b):
        raise Violation('run-differs', '%s: %d steps, the bare run made %d' % (tag, len(b), len(a)))
    for k, (x, y) in enumerate(zip(a, b)):
        where = '%s, step %d' % (tag, k)
        if exact:
            if x[0] != y[0]:
                for s in wd.species:
                    if len(x[0][s]) != len(y[0][s]):
                        raise Violation('run-differs', '%s: %d particles of %s, the bare run has %d' % (where, len(y[0][s]), s, len(x[0][s])))
                    for p, q in zip(x[0][s], y[0][s]):
                        if p != q:
                            raise Violation('run-differs', '%s: a particle of %s is %r, in the bare run %r' % (where, s, q, p))
            for n, u, v in (('potential', x[1], y[1]), ('field', x[2], y[2])) + tuple(('density of ' + s, x[3][s], y[3][s]) for s in wd.species) \
                    + tuple(('cell density of ' + s, x[4][s], y[4][s]) for s in wd.species):
                if u.tobytes() != v.tobytes():
                    raise Violation('run-differs', '%s: the %s differs from the bare run by %r' % (where, n, float(np.abs(u - v).max())))
        else:
            if not near(wd, x, y, where, run):
                return


def near(wd, x, y, where, run):
    """The other engine: equal to rounding as long as no path is decided by it."""
    S = wd.geo.scale
    for s in wd.species:
        p, q = {i['unique_ID']: i for i in x[0][s]}, {i['unique_ID']: i for i in y[0][s]}
        if set(p) != set(q) or any(p[u]['cell_index'] != q[u]['cell_index'] for u in p):
            # a particle at a wall or a facet to rounding may go either way
            for u in set(p) ^ set(q) | {u for u in set(p) & set(q) if p[u]['cell_index'] != q[u]['cell_index']}:
                i = p.get(u) or q.get(u)
                pos = np.array([i[c] for c in wd.coords])
                if u in p and u in q and min(np.abs(wd.geo.all_bary(pos)).min(1)) < 1e-6:
                    run.probes['on_a_facet'] += 1
                    return False
                raise Violation('engines-differ', '%s: particle %d of %s: one engine has %r, the other %r' % (where, u, s, p.get(u), q.get(u)))
        for u in p:
            for c in wd.coords:
                V = S / wd.ctrl.dt
                if abs(p[u][c] - q[u][c]) > 1e-6 * S or abs(p[u]['u' + c] - q[u]['u' + c]) > 1e-6 * V:
                    raise Violation('engines-differ', '%s: particle %d of %s: %r, the other engine has %r' % (where, u, s, q[u], p[u]))
    sc = max(np.abs(x[1]).max(), 1e-12)
    if np.abs(x[1] - y[1]).max() > 1e-5 * sc:
        raise Violation('engines-differ', '%s: potential differs by %r of %r' % (where, float(np.abs(x[1] - y[1]).max()), float(sc)))
    return True
