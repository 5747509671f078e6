"""Shared engine of the properties about particle motion (C02 - C05).

One run drives a world through a random schedule of advances, sources, field changes and
observers.  Before each advance the real state is read; the reference computes, for every
particle on its own, where it has to be; afterwards the real state is compared.  What is
compared depends on the property.
"""
import math
import numpy as np
import random
from . import world as W
from .core import Violation
from .geom import Degenerate
from . import traj as traj_model
from .world import World, gen_world, gen_particles, TRAJ, DELETE

OPS = ['advance', 'advance', 'advance', 'advance', 'advance', 'neutral', 'charged', 'legacy', 'accel', 'inject', 'inject',
       'read', 'density', 'setfield', 'maxwell', 'reverse', 'mark', 'replace', 'dt']


def generate(rng, index, **kw):
    w = gen_world(rng, **kw)
    parts = gen_particles(rng, w, traj=rng.choice([0.0, 0.0, 0.5]))
    swarm = [o for o in OPS if rng.random() < 0.75] or ['advance']
    ops = []
    for _ in range(W.length(rng, 2, 9)):
        o = rng.choice(swarm + ['advance'])
        if o == 'inject':
            ops.append(['inject', [dict(q, t=False) for q in gen_particles(rng, w, lo=1, hi=2 * w['L'] + 1)]])
        elif o == 'mark':
            ops.append(['mark', [rng.random() for _ in range(rng.choice([1, 1, 2, 5]))]])
        elif o == 'setfield':
            ops.append(['setfield', rng.randint(0, 10 ** 9), 10 ** rng.uniform(-0.7, 0.5)])
        elif o == 'maxwell':
            ops.append(['maxwell', rng.randint(0, 9), rng.randint(1, 3), rng.randint(0, 10 ** 6), rng.uniform(0.1, 1.0)])
        elif o == 'replace':
            ops.append([o, rng.randint(0, 10 ** 6), rng.choice([0.2, 0.5, 1.0])])
        elif o == 'dt':
            ops.append([o, rng.uniform(0.2, 1.0)])
        else:
            ops.append([o])
    if not any(o[0] == 'advance' for o in ops):
        ops.append(['advance'])
    # end with an advance, so that what the last operation left behind is exercised
    ops.append(['advance'])
    W.add_other(rng, w, ops)
    return {'world': w, 'particles': parts, 'ops': ops, 'traj': rng.random() < 0.5}


def generate_uniform(rng, index):
    """The mover for uniform fields: no mesh tracking, so it gets schedules of its own."""
    w = gen_world(rng, dims=('xyz',), engines=('py',), charged=True, interior=False, field='none', external=False)
    w['uniform'] = True
    w['engine'] = rng.choice(['py', 'cpp'])
    parts = gen_particles(rng, w)
    ops = []
    amp = max(h - l for l, h in zip(w['lo'], w['hi'])) / w['dt'] ** 2
    for _ in range(W.length(rng, 2, 9)):
        o = rng.choice(['uniform', 'uniform', 'uniform', 'inject', 'read', 'mark', 'reverse', 'dt'])
        if o == 'uniform':
            ops.append([o, [rng.uniform(-amp, amp) for _ in range(3)]])
        elif o == 'inject':
            ops.append([o, [dict(q, t=False) for q in gen_particles(rng, w, lo=1, hi=2 * w['L'] + 1)]])
        elif o == 'mark':
            if w['engine'] == 'py':     # the C++ version is documented not to delete
                ops.append([o, [rng.random() for _ in range(rng.choice([1, 1, 2, 5]))]])
        elif o == 'dt':
            ops.append([o, rng.uniform(0.2, 1.0)])
        else:
            ops.append([o])
    ops.append(['uniform', [rng.uniform(-amp, amp) for _ in range(3)]])
    W.add_other(rng, w, ops)
    return {'world': w, 'particles': parts, 'ops': ops, 'traj': False}


def generate_traj(rng, index):
    """Schedules for the trajectory property: more recording, arrays that fill up, late trajectories."""
    w = gen_world(rng)
    if rng.random() < 0.3:
        w['uid0'] = 500 - rng.randint(1, 30)
    parts = gen_particles(rng, w, traj=rng.choice([0.3, 0.6, 1.0]), speed=10 ** rng.uniform(-1.2, 0.3))
    swarm = [o for o in OPS if rng.random() < 0.6] or ['advance']
    ops = []
    style = rng.choice(['loop', 'loop', 'mix'])
    for _ in range(W.length(rng, 2, 9)):
        o = rng.choice(swarm + ['advance', 'advance', 'record', 'tickrec'])
        if o == 'inject':
            ops.append(['inject', gen_particles(rng, w, lo=1, hi=w['L'] + 2, traj=rng.choice([0.0, 0.5]))])
        elif o == 'mark':
            ops.append(['mark', [rng.random() for _ in range(rng.choice([1, 1, 2]))]])
        elif o == 'replace':
            ops.append([o, rng.randint(0, 10 ** 6), rng.choice([0.2, 0.5, 1.0])])
        elif o == 'setfield':
            ops.append(['setfield', rng.randint(0, 10 ** 9), 10 ** rng.uniform(-0.7, 0.5)])
        elif o == 'dt':
            ops.append([o, rng.uniform(0.2, 1.0)])
        elif o == 'maxwell':
            ops.append(['maxwell', rng.randint(0, 9), rng.randint(1, 2), rng.randint(0, 10 ** 6), rng.uniform(0.1, 1.0)])
        else:
            ops.append([o])
            if style == 'loop' and o in ('advance', 'neutral', 'charged', 'legacy', 'accel') and rng.random() < 0.9:
                ops.append(['record'])
    ops += [['advance'], ['record']]
    W.add_other(rng, w, ops)
    n = rng.choice([1, 2, 3, 5, 8, 20])
    return {'world': w, 'particles': parts, 'ops': ops,
            'traj': {'n': n, 'extra': rng.choice([0, 0, 1, 1, 3, 40]), 'max_points': rng.choice([None, None, None, 1, 3])}}


def inject(wd, qs):
    """A user's source function: appends particles through the storage interface."""
    g = wd.geo
    PC = W.mods()['P'].Particle_C
    for q in qs:
        s = wd.species[q['s'] % len(wd.species)]
        c = int(q['c'] * len(g.cells))
        x = np.array(q['b']) @ g.X[g.cells[c]]
        uid = PC.UNIQUE_ID_COUNTER
        PC.UNIQUE_ID_COUNTER += 1
        tr = q['t'] and wd.P.traj_T is not None
        rec = tuple(float(v) for v in x) * 2 + tuple(q['u']) + (q['w'], TRAJ if tr else 0, c, uid, 0)
        (_, full) = wd.P.sap_dict[s].push_back(rec)
        if tr:
            # as create_maxwellian_particles() does for a marked particle
            wd.P.traj_T.create_trajectory(s, full, 'charged' if wd.charge[s] else 'neutral', unique_id_int=uid)
            if wd.model is not None:
                wd.model.new(s, uid)
            wd.run.probes['late_trajectory'] += 1
        wd.created[uid] = (s, q['w'])


def maxwell(wd, op):
    s = wd.species[op[1] % len(wd.species)]
    D = W.mods()['D']
    reg = D.WholeMesh_C(wd.mesh_M)
    before = set(p['unique_ID'] for p in wd.items(s))
    size = max(h - l for l, h in zip(wd.w['lo'], wd.w['hi']))
    ncell = wd.mesh_M.mesh.num_cells()
    if ncell * op[2] > 120:     # the reference walk looks at every facet of the mesh
        op = list(op); op[2] = 1
        size = min(h - l for l, h in zip(wd.w['lo'], wd.w['hi']))
        if ncell > 200:
            return
    params = {'species_name': s, 'number_density': 1.0e3, 'thermal_speed': op[4] * size / wd.w['dt'],
              'drift_velocity': tuple(0.0 for _ in wd.coords), 'velocity_coordinate_system': 'x_y_z',
              'number_per_cell': op[2], 'timestep_interval': 1}
    if wd.dim == 'r':
        params['velocity_coordinate_system'] = 'r_theta_z'
    from . import seams
    seams.seed(op[3])
    wd.P.create_maxwellian_particles(wd.ctrl.timeloop_count, wd.ctrl.time, reg, params, wd.field)
    for p in wd.items(s):
        if p['unique_ID'] not in before:
            wd.created[p['unique_ID']] = (s, p['weight'])
            if wd.model is not None and p['bitflags'] & TRAJ:
                # the source marked it and recorded its first point
                wd.model.new(s, p['unique_ID'])
                wd.model.add(p['unique_ID'], wd.model.point(s, wd.ctrl.timeloop_count, wd.ctrl.time, wd.pos(p), wd.vel(p),
                                                            wd.model.field_at(s, wd.pos(p))))
                wd.run.probes['source_trajectory'] += 1


def simulate(case, run, aspects):
    traj = case.get('traj') or None
    if traj is True:
        traj = {'extra': 60}
    parts = case['particles']
    if traj is None:
        parts = [dict(q, t=False) for q in parts]
    wd = World(case['world'], parts, run, traj=traj)
    wd.marked = set()
    wd.model = traj_model.Model(wd) if 'traj' in aspects and traj is not None else None
    wd.ticked = False
    run.probes['engine_' + wd.engine] += 1
    run.probes['dim_' + wd.dim] += 1
    check_cells(wd, run, aspects, 'start')
    alive = {}
    gone = set()
    for uid, (s, wt) in wd.created.items():
        alive[uid] = (s, wt)
    check_conserved(wd, run, aspects, alive, set(), 'start')
    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        kind = op[0]
        if kind in ('accel', 'legacy') and wd.cpp:
            kind = 'charged'
        if kind in ('advance', 'neutral', 'charged', 'legacy', 'accel'):
            amp = 0.0 if wd.fvals is None else max(abs(wd.charge[s] / wd.mass[s]) for s in wd.species) * float(np.abs(wd.fvals).max())
            # the reference looks at every facet again after each marked one
            held = wd.all_items()
            share = len(wd.marker) / len(wd.geo.facets)
            n = (W.crossings(wd, held, amp) * share + sum(len(v) for v in held.values())) * len(wd.geo.facets)
            if n > 2e5:
                run.probes['paths_too_long'] += 1
                break
        run.op(kind)
        if kind == 'uniform':
            step(wd, run, aspects, kind, tag, alive, op[1])
        elif kind in ('advance', 'neutral', 'charged', 'legacy', 'accel'):
            step(wd, run, aspects, kind, tag, alive)
        elif kind == 'inject':
            inject(wd, op[1])
            alive.update({u: v for u, v in wd.created.items() if u not in alive and u not in wd.__dict__.setdefault('gone', set())})
        elif kind == 'maxwell':
            maxwell(wd, op)
            alive.update({u: v for u, v in wd.created.items() if u not in alive and u not in wd.__dict__.setdefault('gone', set())})
        elif kind == 'setfield':
            if wd.field is not None:
                wd.set_field(wd.w['field'][0], op[1], op[2])
        elif kind == 'reverse':
            # user code turning particles round through the storage interface
            for s in wd.species:
                sap = wd.P.sap_dict[s]
                for i in range(int(sap.get_number_of_items())):
                    seg, off = sap.get_segment_and_offset(i)
                    for c in wd.coords:
                        seg[off]['u' + c] = -seg[off]['u' + c]
        elif kind == 'other':
            wd.other(op[1])
        elif kind == 'dt':
            # the user changes the time step
            wd.ctrl.dt = wd.w['dt'] * op[1]
            run.probes['dt_changed'] += 1
        elif kind == 'replace':
            # user code putting particles elsewhere, then asking for their cells
            pr = random.Random(op[1])
            for s in wd.species:
                sap = wd.P.sap_dict[s]
                for i in range(int(sap.get_number_of_items())):
                    if pr.random() < op[2]:
                        b = np.array([0.1 + pr.random() for _ in range(wd.d + 1)])
                        x = (b / b.sum()) @ wd.geo.X[wd.geo.cells[pr.randrange(len(wd.geo.cells))]]
                        seg, off = sap.get_segment_and_offset(i)
                        for c, v in zip(wd.coords, x):
                            seg[off][c] = v
            wd.P.compute_mesh_cell_indices()
            run.probes['placed_again'] += 1
        elif kind == 'mark':
            # user code asking for particles to be removed
            tot = [(s, i) for s in wd.species for i in range(int(wd.P.sap_dict[s].get_number_of_items()))]
            for f in op[1]:
                if tot:
                    s, i = tot[int(f * len(tot))]
                    seg, off = wd.P.sap_dict[s].get_segment_and_offset(i)
                    seg[off]['bitflags'] = seg[off]['bitflags'] | DELETE
                    wd.marked.add(int(seg[off]['unique_ID']))
                    run.probes['marked'] += 1
        elif kind in ('record', 'tickrec'):
            if wd.P.traj_T is not None:
                if kind == 'tickrec' and not wd.ticked:
                    # the other order of a time loop: count the step, record, then move
                    wd.tick()
                    wd.ticked = True
                ext = wd.ext is not None and k % 2 == 0
                wd.P.record_trajectory_data(wd.ctrl.timeloop_count, wd.ctrl.time, neg_E_field=wd.field, external_E_field=wd.ext if ext else None)
                if wd.model is not None:
                    wd.model.record(wd.ctrl.timeloop_count, wd.ctrl.time, ext)
        elif kind == 'read':
            for s in wd.species:
                wd.P.get_species_particle_count(s)
                wd.P.get_species_number(s)
                wd.P.get_species_KE(s)
            wd.P.get_total_particle_count()
        elif kind == 'density':
            D = W.mods()['D']
            for s in wd.species:
                F = D.Field_C(wd.mesh_M, 'CG', 1, 'scalar')
                wd.P.accumulate_number_density(s, F)
        check_conserved(wd, run, aspects, alive, set(), tag)
        if wd.model is not None:
            wd.model.check(tag)
        if kind not in ('advance', 'neutral', 'charged', 'legacy') and not wd.w.get('uniform'):
            check_cells(wd, run, aspects, tag)
        counts = tuple(len(wd.items(s)) for s in wd.species)
        run.state(wd.engine, wd.dim, wd.w['L'], counts, tuple(c % wd.w['L'] for c in counts))
        run.event(kind, counts)


def moved_species(wd, kind):
    out = []
    for s in wd.species:
        ch = wd.charge[s] != 0.0
        if kind in ('advance', 'uniform') or (kind == 'neutral' and not ch) or (kind in ('charged', 'legacy', 'accel') and ch):
            out.append(s)
    return out


def step(wd, run, aspects, kind, tag, alive, E0=None):
    before = wd.all_items()
    movers = moved_species(wd, kind)
    if not wd.ticked:
        wd.tick()
    wd.ticked = False
    exp = {}
    unsure = set()
    for s in movers:
        for p in before[s]:
            if p['unique_ID'] in wd.marked:
                exp[p['unique_ID']] = dict(deleted=True, marked=True, crossings=0, events=[])
                continue
            if kind == 'uniform':
                u = wd.vel(p) + wd.charge[s] / wd.mass[s] * wd.ctrl.dt * np.array(E0)
                exp[p['unique_ID']] = dict(x=wd.pos(p) + u * wd.ctrl.dt, u=u, deleted=False, crossings=0, events=[])
                run.nontrivial = True
                continue
            try:
                exp[p['unique_ID']] = wd.step_ref(s, p, accel_only=(kind == 'accel'))
            except Degenerate:
                unsure.add(p['unique_ID'])
                run.probes['degenerate_path'] += 1
    wd.calls = []
    if kind == 'uniform':
        wd.advance_uniform(E0)
        run.probes['uniform'] += 1
    else:
        wd.advance(charged=kind != 'neutral', neutral=kind in ('advance', 'neutral'), accel_only=(kind == 'accel'),
                   legacy=(kind == 'legacy'))
    after = wd.all_items()
    calls = wd.calls
    wd.unsure = unsure
    gone = wd.__dict__.setdefault('gone', set())
    L = wd.w['L']
    for s in wd.species:
        # the ledger of who should be left
        seen = [p['unique_ID'] for p in after[s]]
        if s not in movers:
            if 'motion' in aspects and before[s] != after[s]:
                raise Violation('bystander', '%s: species %s was not advanced but its particles changed' % (tag, s))
        ndel = 0
        for p in before[s]:
            u = p['unique_ID']
            e = exp.get(u)
            if e is not None and e['deleted']:
                alive.pop(u, None)
                wd.marked.discard(u)
                gone.add(u)
                ndel += 1
            if u in unsure and u not in seen:
                alive.pop(u, None)
                gone.add(u)
        if ndel:
            run.nontrivial = True
            run.probes['absorbed'] += ndel
            if ndel == len(before[s]):
                run.probes['species_emptied'] += 1
            elif len(before[s]) > L:
                run.probes['deleted_across_segments'] += 1
            if (len(before[s]) - ndel) and (len(before[s]) - ndel) % L == 0:
                run.probes['survivors_exact_multiple'] += 1
    for u, e in exp.items():
        if e['crossings']:
            run.nontrivial = True
            run.probes['crossed'] += 1
        if e['crossings'] > 3:
            run.probes['crossed_many'] += 1
        nr = sum(1 for v in e['events'] if v['kind'] == 'reflect')
        if nr:
            run.probes['reflected'] += 1
            if nr > 1:
                run.probes['reflected_twice'] += 1
        if any(v['kind'] == 'pass' for v in e['events']):
            run.probes['transmitted'] += 1
        if any(v['kind'] == 'absorb' and not wd.geo.exterior[v['facet']] for v in e['events']):
            run.probes['absorbed_inside'] += 1
    if wd.model is not None:
        wd.model.advanced(before, after, exp, unsure, movers)
    if 'motion' in aspects or 'boundary' in aspects:
        check_motion(wd, run, aspects, before, after, exp, tag, kind)
    if 'boundary' in aspects and not wd.cpp:
        check_calls(wd, run, before, exp, unsure, calls, tag)
    if 'cell' in aspects:
        check_cells(wd, run, aspects, tag, exp, movers, kind)


def tolx(wd, e):
    return 2e-9 * wd.geo.scale * (1 + e['crossings'])


def check_motion(wd, run, aspects, before, after, exp, tag, kind):
    aft = {}
    for s in wd.species:
        for p in after[s]:
            aft[p['unique_ID']] = (s, p)
    for s in before:
        for p in before[s]:
            u = p['unique_ID']
            e = exp.get(u)
            if e is None:
                continue
            if 'boundary' in aspects:
                marked = len(e['events']) > 0
                if e['deleted'] and u in aft:
                    raise Violation('not-absorbed', '%s: particle %d of %s met an absorbing boundary or was marked, and is still there'
                                    % (tag, u, s))
                if not e['deleted'] and u not in aft:
                    raise Violation('wrongly-removed', '%s: particle %d of %s met no absorbing boundary and was removed' % (tag, u, s))
            if 'motion' in aspects and u not in aft and not e['deleted'] and not e['events']:
                raise Violation('vanished', '%s: particle %d of %s should move to %r, and is gone' % (tag, u, s, e['x'].tolist()))
            if u not in aft or e['deleted']:
                continue
            q = aft[u][1]
            x, v = wd.pos(q), wd.vel(q)
            if 'motion' in aspects or e['events']:
                tx = tolx(wd, e)
                if not (np.abs(x - e['x']) <= tx).all():
                    raise Violation('position', '%s: particle %d of %s is at %r, should be at %r (%d crossings)' %
                                    (tag, u, s, x.tolist(), e['x'].tolist(), e['crossings']))
                tv = 2e-9 * (np.abs(e['u']).max() + np.abs(wd.vel(p)).max() + 1e-12) * (1 + e['crossings'])
                if not (np.abs(v - e['u']) <= tv).all():
                    raise Violation('velocity', '%s: particle %d of %s has velocity %r, should be %r' %
                                    (tag, u, s, v.tolist(), e['u'].tolist()))
            if 'motion' in aspects and kind not in ('accel', 'uniform') and not e['crossings']:
                x0 = np.array([q[c + '0'] for c in wd.coords])
                if not (np.abs(x0 - wd.pos(p)) <= tolx(wd, e)).all():
                    raise Violation('start', '%s: particle %d of %s has start position %r, moved from %r' %
                                    (tag, u, s, x0.tolist(), wd.pos(p).tolist()))
            run.event('p', u, [float('%.9g' % t) for t in x])


def check_calls(wd, run, before, exp, unsure, calls, tag):
    per = {}
    for c in calls:
        per.setdefault(c[3], []).append(c)
    spec = {}
    for s in before:
        for p in before[s]:
            spec[p['unique_ID']] = s
    for u, cs in per.items():
        if u in unsure:
            continue
        if u not in exp:
            raise Violation('handler-call', '%s: boundary handler called for particle %d, which was not moving' % (tag, u))
    for u, e in exp.items():
        cs = per.get(u, [])
        if e.get('marked'):
            continue
        ev = e['events']
        # what happens to a particle after it was absorbed is nobody's business
        for k, v in enumerate(ev):
            if v['kind'] == 'absorb':
                ev = ev[:k + 1]
                cs = cs[:k + 1]
                break
        want = [(wd.handler_of(v['bname'], spec[u]), spec[u], v['facet']) for v in ev]
        got = [c[:3] for c in cs]
        if got != want:
            raise Violation('handler-call', '%s: particle %d of %s: boundary handlers called %r, should be %r' %
                            (tag, u, spec[u], got, want))
        for c, v in zip(cs, ev):
            tx = tolx(wd, e)
            if not (np.abs(np.array(c[6]) - v['at']) <= tx).all():
                raise Violation('crossing-point', '%s: particle %d of %s crosses facet %d at %r, handler saw %r' %
                                (tag, u, spec[u], v['facet'], v['at'].tolist(), c[6]))
            n = np.array(c[5])
            if abs(abs(float(n @ v['n'])) - 1) > 1e-8 or abs(float(n @ n) - 1) > 1e-8:
                raise Violation('normal', '%s: handler got normal %r for facet %d, whose normal is %r' %
                                (tag, c[5], v['facet'], v['n'].tolist()))
            if float(n @ v['u']) < -1e-9 * float(np.linalg.norm(v['u'])):
                raise Violation('normal', '%s: handler got normal %r for facet %d, the particle goes through it along %r' %
                                (tag, c[5], v['facet'], v['u'].tolist()))
            if not (-1e-12 <= c[4] <= 1 + 1e-12):
                raise Violation('fraction', '%s: handler got move fraction %r' % (tag, c[4]))


def check_conserved(wd, run, aspects, alive, unsure, tag):
    if 'conserve' not in aspects:
        return
    tot = 0
    for s in wd.species:
        its = wd.items(s)
        ids = [p['unique_ID'] for p in its]
        want = {u for u, (sp, _) in alive.items() if sp == s}
        if len(ids) != len(set(ids)):
            dup = sorted(u for u in set(ids) if ids.count(u) > 1)
            raise Violation('duplicated', '%s: species %s holds particle(s) %r more than once' % (tag, s, dup[:5]))
        lost = want - set(ids)
        extra = set(ids) - want
        if lost:
            raise Violation('lost', '%s: species %s lost particle(s) %r, which no boundary absorbed' % (tag, s, sorted(lost)[:5]))
        if extra:
            raise Violation('extra', '%s: species %s holds particle(s) %r, which are not there any more or never were' %
                            (tag, s, sorted(extra)[:5]))
        for p in its:
            if p['weight'] != alive[p['unique_ID']][1]:
                raise Violation('weight', '%s: particle %d of %s has weight %r, was created with %r' %
                                (tag, p['unique_ID'], s, p['weight'], alive[p['unique_ID']][1]))
            if p['bitflags'] & DELETE and p['unique_ID'] not in wd.marked:
                raise Violation('flag', '%s: stored particle %d of %s carries the delete flag' % (tag, p['unique_ID'], s))
        n = wd.P.get_species_particle_count(s)
        if n != len(want):
            raise Violation('count', '%s: species %s is reported to have %r particles, has %d' % (tag, s, n, len(want)))
        tot += len(want)
        # the segment loop, as every diagnostic sees the particles
        sap = wd.P.sap_dict[s]
        (npSeg, seg) = sap.init_out_loop()
        loop = []
        while isinstance(seg, np.ndarray):
            loop += [int(v) for v in seg['unique_ID'][0:npSeg]]
            (npSeg, seg) = sap.get_next_segment('out')
        if sorted(loop) != sorted(ids):
            raise Violation('loop', '%s: a loop over species %s sees %r, stored are %r' % (tag, s, loop[:12], ids[:12]))
    t = wd.P.get_total_particle_count()
    if t != tot:
        raise Violation('count', '%s: %r particles reported in all, there are %d' % (tag, t, tot))


def check_cells(wd, run, aspects, tag, exp=None, movers=None, kind=None):
    if 'cell' not in aspects:
        return
    nc = len(wd.geo.cells)
    for s in wd.species:
        for p in wd.items(s):
            c = p['cell_index']
            x = wd.pos(p)
            if not (0 <= c < nc):
                raise Violation('no-cell', '%s: particle %d of %s at %r has cell index %d' % (tag, p['unique_ID'], s, x.tolist(), c))
            if not wd.geo.contains(c, x):
                raise Violation('wrong-cell', '%s: particle %d of %s at %r is not in cell %d (it is in %r)' %
                                (tag, p['unique_ID'], s, x.tolist(), c, wd.geo.find_cells(x, 1e-10)))
            if exp is not None and s in movers:
                e = exp.get(p['unique_ID'])
                if e is not None and p['crossings'] != e['crossings']:
                    raise Violation('crossings', '%s: particle %d of %s is recorded as crossing %d facets, its path crosses %d' %
                                    (tag, p['unique_ID'], s, p['crossings'], e['crossings']))
