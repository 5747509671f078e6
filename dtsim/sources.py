"""C12: particle sources and initial distributions."""
import math
import numpy as np
from . import loop, seams
from . import world as W
from .core import Violation
from .world import World, gen_world, gen_particles, DIM

UNIF = 1000     # particles in one cell from which the spread over the cell is judged


def gen_region(rng, w):
    d = DIM[w['dim']]
    k = rng.choice(['whole', 'box', 'box', 'user'] + (['sphere'] if d == 1 else []))
    a = [sorted([rng.uniform(-0.1, 1.1), rng.uniform(-0.1, 1.1)]) for _ in range(d)]
    return [k, [x[0] for x in a], [x[1] for x in a]]


def gen_params(rng, w, big=False):
    d = DIM[w.get('over') or w['dim']]
    size = max(h - l for l, h in zip(w['lo'], w['hi']))
    v = size / w['dt'] * 10 ** rng.uniform(-1.5, -0.3)
    return {'s': rng.randrange(3), 'region': gen_region(rng, w), 'density': 10 ** rng.uniform(-2, 12),
            'thermal': rng.choice([0.0, v, v]), 'drift': [rng.choice([0.0, rng.gauss(0, v)]) for _ in range(d)],
            'npc': UNIF if big else rng.choice([1, 1, 2, 3, 5]), 'every': 1 if big else rng.choice([1, 1, 2, 3, 5])}


def generate(rng, index):
    big = rng.random() < 0.05
    over = not big and rng.random() < 0.08
    w = gen_world(rng, dims=('x', 'xy'), engines=('py',)) if over else gen_world(rng)
    if rng.random() < 0.25:
        w['uid0'] = rng.randint(470, 500)
    if big:
        w['n'] = {1: [rng.randint(1, 2)], 2: [1, rng.randint(1, 3)], 3: [1, 1, 1]}[len(w['n'])]
        w.pop('refine', None)
        w['L'] = rng.choice([5, 7, 50])
        m = min(h - l for l, h in zip(w['lo'], w['hi']))
        w['hi'] = [min(h, l + 2.5 * m) for l, h in zip(w['lo'], w['hi'])]    # else most points drawn miss the cell
        if len(w['n']) == 2 and rng.random() < 0.6:     # slender cells
            w['diag'] = rng.choice(['crossed', 'crossed', 'right'])
            w['hi'][0] = w['lo'][0] + (w['hi'][0] - w['lo'][0]) * 10 ** rng.uniform(0, 0.7)
    if over:        # particles with more coordinates than the mesh: sources make them, the movers of these worlds are not for them
        w['over'] = rng.choice(['xy', 'xyz'] if w['dim'] == 'x' else ['xyz'])
        w['field'][0] = 'none'
        w['ext'] = None
    parts = gen_particles(rng, w, lo=0, traj=rng.choice([0.0, 0.3]))
    srcs = [dict(gen_params(rng, w, big and i == 0), kind=rng.choice(['maxwell', 'maxwell', 'maxwell', 'user']))
            for i in range(rng.choice([1, 1, 2, 3]))]
    init = [dict(gen_params(rng, w), kind=rng.choice(['maxwell', 'maxwell', 'user', 'listed', 'unknown']))
            for i in range(rng.choice([0, 1, 2]))]
    vocab = loop.swarm(rng, loop.STATE_OPS) + ['advance', 'tick', 'add', 'add', 'initial']
    ops = [['initial', None]] if init and rng.random() < 0.7 else []
    for _ in range(rng.randint(2, 5) if big else W.length(rng, 2, 10, 0.03)):
        o = rng.choice(vocab)
        if o in ('add', 'initial'):
            f = None
            if over:
                ops.append(['tick', rng.choice([1, 1, 2])])
            if rng.random() < 0.3:
                f = rng.choice([['alloc', rng.choice([0, 0, 1, 2, 5])], ['user', 0]])
            ops.append([o, f])
        elif o == 'tick':
            ops.append([o, rng.choice([1, 1, 2, 7])])
        else:
            ops.append(loop.gen_op(rng, w, o, traj=0.3))
    if over:
        ops = [o for o in ops if o[0] in ('add', 'initial', 'tick')]
    if big:
        ops = [o for o in ops if o[0] != 'add'][:3] + [['tick', 1]]
    ops += [['tick', 1] if over else ['advance'], ['add', None]]
    if len(w['n']) == 3 and w.get('refine'):        # many cells: few particles in each
        for q in srcs + init:
            q['npc'] = min(q['npc'], 2)
        w['L'] = max(w['L'], 7)
        ops = ops[-5:]
    W.add_other(rng, w, ops)
    return {'world': w, 'particles': parts, 'ops': ops, 'sources': srcs, 'init': init,
            'traj': None if over else rng.choice([None, {'n': 20, 'extra': 40}]), 'normal': rng.choice([None, rng.uniform(-2, 2)])}


class Boom(Exception):
    pass


def region(wd, spec):
    """The region object of the code under test and the cells it has to consist of (one object per description)."""
    if str(spec) not in wd.regions:
        wd.regions[str(spec)] = make_region(wd, spec)
    return wd.regions[str(spec)]


def make_region(wd, spec):
    D = W.mods()['D']
    kind, a, b = spec
    lo, hi = wd.geo.X.min(0), wd.geo.X.max(0)
    pa, pb = lo + np.array(a) * (hi - lo), lo + np.array(b) * (hi - lo)
    mid = wd.geo.X[wd.geo.cells].mean(1)
    if kind == 'sphere':
        c, r = float((pa + pb)[0] / 2), float((pb - pa)[0] / 2)
    inside = ((mid >= pa) & (mid <= pb)).all(1)
    near = (np.minimum(abs(mid - pa), abs(mid - pb)) < 1e-8 * wd.geo.scale).any(1) | (np.minimum(abs(mid - pa), abs(mid - pb)) < 1e-8).any(1)
    if kind == 'whole' or near.any() or not inside.any():
        return D.WholeMesh_C(wd.mesh_M), list(range(len(mid)))
    if kind == 'box':
        one = wd.d == 1
        r = D.RectangularRegion_C(wd.mesh_M, float(pa[0]) if one else tuple(pa.tolist()), float(pb[0]) if one else tuple(pb.tolist()))
    elif kind == 'sphere':
        r = D.SphericalRegion_C(wd.mesh_M, c, r)
    else:
        class UserRegion(D.CellSet_C):
            def inside(self, x):
                return all(pa[i] <= x[i] <= pb[i] for i in range(wd.d))
        r = UserRegion(wd.mesh_M)
    return r, [int(i) for i in np.nonzero(inside)[0]]


def volume(wd, c):
    if wd.dim == 'r':
        x = np.sort(wd.geo.X[wd.geo.cells[c]][:, 0])
        # the code's particle weights leave out the full solid angle
        return float(x[1] ** 3 - x[0] ** 3) / 3.0
    return float(wd.geo.vol[c])


def simulate(case, run):
    traj = case['traj']
    wd = World(case['world'], case['particles'] if traj else [dict(q, t=False) for q in case['particles']], run, traj=traj)
    loop.setup(wd)
    P = wd.P
    PC = W.mods()['P'].Particle_C
    run.probes['engine_' + wd.engine] += 1
    run.probes['dim_' + wd.dim] += 1
    pad = (0.0,) * (len(wd.coords) - wd.d)
    run.probes['more_coordinates'] += len(pad) > 0
    st = {'calls': [], 'boom': False}

    def user(step, time, reg, params, neg_E_field=None, external_E_field=None):
        st['calls'].append((step, time, params['#'], neg_E_field is wd.field))
        if st['boom']:
            st['boom'] = False
            raise Boom()
        # the user's own source: one particle at the middle of the first cell
        c = int(reg.cell_index[0])
        x = wd.geo.X[wd.geo.cells[c]].mean(0)
        uid = PC.UNIQUE_ID_COUNTER
        PC.UNIQUE_ID_COUNTER += 1
        P.sap_dict[params['species_name']].push_back(
            (tuple(float(v) for v in x) + pad) * 2 + tuple(0.0 for _ in wd.coords) + (1.5, 0, c, uid, 0))

    def make(q, i, initial):
        reg, cells = region(wd, q['region'])
        s = wd.species[q['s'] % len(wd.species)]
        par = {'species_name': s, 'number_density': q['density'], 'thermal_speed': q['thermal'], 'drift_velocity': tuple(q['drift']),
               'velocity_coordinate_system': 'r_theta_z' if wd.dim == 'r' else 'x_y_z', 'number_per_cell': q['npc'], '#': i}
        if initial:
            par['initial_distribution_type'] = {'listed': 'listed', 'unknown': 'from_a_file'}.get(q['kind'], 'function_over_region')
        else:
            par['timestep_interval'] = q['every']
        return dict(q, s=s, par=par, reg=reg, cells=cells, f=user if q['kind'] == 'user' else P.create_maxwellian_particles)
    srcs = [make(q, i, False) for i, q in enumerate(case['sources'])]
    init = []
    for i, q in enumerate(case['init']):
        q = make(q, 100 + i, True)
        # the list of a species is the user's: it is used once
        if q['kind'] != 'listed' or not any(o['kind'] == 'listed' and o['s'] == q['s'] for o in init):
            init.append(q)
    P.particle_source_dict = {'source%d' % i: (q['par'], q['f'], q['reg']) for i, q in enumerate(srcs)}
    lists = {}
    P.initial_particles_dict = {'init%d' % i: ((q['par'],) if q['kind'] == 'listed' else (q['par'], q['f'], q['reg'])) for i, q in enumerate(init)}
    # what the user lists for a species; made anew (new numbers) for each call below
    for s in wd.species:
        setattr(P.user_particles_class, s, staticmethod(lambda type='listed', s=s: (len(lists[s]), lists[s])))
    parchk = [(q['par'], dict(q['par'])) for q in srcs + init]
    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        run.op(op[0])
        if op[0] == 'tick':
            for _ in range(op[1]):
                wd.tick()
        elif loop.apply(wd, op):
            pass
        else:
            initial = op[0] == 'initial'
            due = init if initial else [q for q in srcs if wd.ctrl.timeloop_count % q['every'] == 0]
            due = list(due)
            for s in wd.species:
                c = len(wd.geo.cells) // 2
                x = wd.geo.X[wd.geo.cells[c]].mean(0)
                lists[s] = []
                if initial and any(q['kind'] == 'listed' and q['s'] == s for q in due):
                    for j in range(2):
                        lists[s].append((tuple(float(v) for v in x) + pad) * 2 + tuple(0.1 for _ in wd.coords) + (2.5 + j, 0, c, PC.UNIQUE_ID_COUNTER, 0))
                        PC.UNIQUE_ID_COUNTER += 1
            bad = [i for i, q in enumerate(due) if initial and q['kind'] == 'unknown']
            before = loop.snapshot(wd)
            st['calls'], st['boom'] = [], bool(op[1] and op[1][0] == 'user')
            whole = None
            fixed = seams.fixed_normal(case['normal']) if case['normal'] is not None else None
            if fixed:
                fixed.__enter__()
            try:
                with seams.alloc_fault(op[1][1] if op[1] and op[1][0] == 'alloc' else None):
                    if initial:
                        P.initialize_particles({s: False for s in wd.species}, neg_E_field=wd.field)
                    else:
                        P.add_more_particles(wd.ctrl, neg_E_field=wd.field)
                whole = True
            except MemoryError as e:
                if 'simulated' not in str(e):
                    raise
                run.fault('allocation_fails')
            except Boom:
                run.fault('user_function_raises')
            except RuntimeError as e:
                if not bad:
                    raise
                run.probes['refused'] += 1
                due = due[:bad[0]]
                whole = True
            finally:
                if fixed:
                    fixed.__exit__()
            st['boom'] = False
            if not whole and wd.P.traj_T is not None:
                # a particle marked for a trajectory that could not be made: the user unmarks it
                T = wd.P.traj_T
                for s in wd.species:
                    sap = wd.P.sap_dict[s]
                    for i in range(int(sap.get_number_of_items())):
                        seg, off = sap.get_segment_and_offset(i)
                        if seg[off]['bitflags'] & W.TRAJ and i not in T.particle_index_list[s]:
                            seg[off]['bitflags'] = 0
                            run.probes['trajectory_not_made'] += 1
            if bad and len(due) > bad[0] and whole:
                raise Violation('not-refused', '%s: an unknown kind of initial distribution was accepted' % tag)
            if not whole:
                run.nontrivial = True
            after = loop.snapshot(wd)
            check(wd, run, case, due, before, after, whole, tag, lists, initial)
            # calls of the user's functions
            want = [(0 if initial else wd.ctrl.timeloop_count, 0.0 if initial else wd.ctrl.time, q['par']['#'], True) for q in due if q['kind'] == 'user']
            if st['calls'] != (want if whole else want[:len(st['calls'])]):
                raise Violation('calls', '%s: user source calls %r, should be %r' % (tag, st['calls'], want))
            for p, c in parchk:
                if p != c:
                    raise Violation('parameters', '%s: the user\'s source parameters changed: %r to %r' % (tag, c, p))
        counts = tuple(len(wd.items(s)) for s in wd.species)
        run.state(wd.engine, wd.dim, wd.w['L'], counts)
        run.event(op[0], counts)


def check(wd, run, case, due, before, after, whole, tag, lists, initial):
    for i, n in ((2, 'time'), (3, 'step'), (4, 'field')):
        if before[i] != after[i]:
            raise Violation('side-effect', '%s changed the %s' % (tag, n))
    uids = []
    for s in wd.species:
        old, now = before[0][s], after[0][s]
        if now[:len(old)] != old:
            raise Violation('existing', '%s: particles of %s that were there before have changed' % (tag, s))
        new = now[len(old):]
        uids += [p['unique_ID'] for p in new]
        i = 0
        for q in due:
            if q['s'] != s:
                continue
            if q['kind'] == 'user':
                n = 1
            elif q['kind'] == 'listed':
                n = len(lists[s])
            else:
                n = q['npc'] * len(q['cells'])
            got = new[i:i + n]
            i += n
            if len(got) < n and whole:
                raise Violation('count', '%s: %d new particles of %s, the sources due make at least %d' % (tag, len(new), s, i))
            if q['kind'] == 'listed':
                for p, l in zip(got, lists[s]):
                    if tuple(p[a] for a in wd.P.particle_dtype.names) != l:
                        raise Violation('listed', '%s: stored %r, listed %r' % (tag, p, l))
                continue
            if q['kind'] == 'user' or not got:
                continue
            run.probes['maxwellian'] += 1
            judge(wd, run, case, q, got, len(got) == n, tag)
        if i < len(new):
            raise Violation('count', '%s: %d new particles of %s, the sources due make %d' % (tag, len(new), s, i))
        if len(new) > wd.w['L']:
            run.nontrivial = True
            run.probes['several_segments'] += 1
    all_ids = [p['unique_ID'] for s in wd.species for p in after[0][s]]
    if len(set(all_ids)) != len(all_ids):
        raise Violation('identity', '%s: particle numbers are used twice' % tag)
    if uids and max(all_ids) >= after[5]:
        raise Violation('identity', '%s: the next particle number is %d, number %d is in use' % (tag, after[5], max(all_ids)))
    # trajectories: those that were there are as they were; new ones belong to new particles
    if before[1] is not None:
        b = {(t[0], t[1]): t for t in before[1]}
        for t in after[1]:
            o = b.pop((t[0], t[1]), None)
            if o is not None and o != t:
                raise Violation('existing', '%s: the trajectory of particle %d has changed' % (tag, t[1]))
            if o is None and t[1] not in uids and not initial:
                raise Violation('existing', '%s: a trajectory of particle %d has appeared' % (tag, t[1]))
        if b:
            raise Violation('existing', '%s: trajectories %r have gone' % (tag, sorted(b)))


def judge(wd, run, case, q, got, complete, tag):
    g, c = wd.geo, wd.coords
    per = {}
    z = []
    for p in got:
        x, ci = wd.pos(p), p['cell_index']
        if x[wd.d:].any():
            raise Violation('record', '%s: a new particle lies at %r, the mesh has %d coordinates' % (tag, x.tolist(), wd.d))
        x = x[:wd.d]
        if ci not in q['cells']:
            raise Violation('region', '%s: a particle was made in cell %d, the region is %r' % (tag, ci, q['cells']))
        per.setdefault(ci, []).append(x)
        if not g.contains(ci, x, 1e-8):
            raise Violation('cell', '%s: a particle made at %r is not in its cell %d' % (tag, x.tolist(), ci))
        want = volume(wd, ci) * q['density'] / q['npc']
        if not abs(p['weight'] - want) <= 1e-11 * want:
            raise Violation('weight', '%s: weight %r in cell %d, density times volume per particle is %r' % (tag, p['weight'], ci, want))
        if any(p[a + '0'] != p[a] for a in c) or p['crossings'] != 0:
            raise Violation('record', '%s: start position or crossings of a new particle: %r' % (tag, p))
        if p['bitflags'] & ~W.TRAJ or (p['bitflags'] and p['unique_ID'] != 500):
            raise Violation('record', '%s: flags of a new particle: %r' % (tag, p))
        for i, a in enumerate(c):
            dv = p['u' + a] - q['drift'][i]
            if case['normal'] is not None or q['thermal'] == 0.0:
                want = q['thermal'] * (case['normal'] or 0.0)
                if not abs(dv - want) <= 1e-9 * (abs(q['thermal']) + abs(q['drift'][i])):
                    raise Violation('velocity', '%s: velocity %r, drift %r, thermal speed %r, all deviates %r' %
                                    (tag, p['u' + a], q['drift'][i], q['thermal'], case['normal']))
            else:
                z.append(dv / q['thermal'])
    if complete:
        for ci in q['cells']:
            if len(per.get(ci, ())) != q['npc']:
                raise Violation('per-cell', '%s: %d particles in cell %d, asked for %d' % (tag, len(per.get(ci, ())), ci, q['npc']))
    if z:
        z = np.array(z)
        if abs(z).max() > 8.5:
            raise Violation('velocity', '%s: a thermal velocity of %r thermal speeds' % (tag, abs(z).max()))
        if len(np.unique(np.round(z, 12))) < len(z) and abs(np.array(q['drift'])).max() < 1e3 * q['thermal']:
            raise Violation('velocity', '%s: velocity components are not drawn independently' % tag)
        n = len(z)
        if n >= 30 and abs(z.mean()) > 7 / math.sqrt(n):
            raise Violation('velocity', '%s: mean thermal velocity of %d components is %r thermal speeds' % (tag, n, z.mean()))
        if n >= 100 and abs((z * z).mean() - 1) > 7 * math.sqrt(2.0 / n) + 7.0 / n:
            raise Violation('velocity', '%s: mean square thermal velocity of %d components is %r' % (tag, n, (z * z).mean()))
    if q['npc'] >= UNIF and complete:
        run.probes['spread_over_cell'] += 1
        d = wd.d
        for ci in q['cells']:
            B = np.array([g.bary(ci, x) for x in per[ci][1:]])
            n = len(B)
            # the chance that none of n uniform points comes this close to a vertex is below 1e-10
            t = 1 - (1 - 1e-10 ** (1.0 / n)) ** (1.0 / d)
            if (B.max(0) < t).any():
                raise Violation('spread', '%s: %d particles spread over cell %d come no closer to its vertices than %r' % (tag, n, ci, B.max(0).tolist()))
            if wd.dim != 'r':
                sd = math.sqrt(d / ((d + 1.0) ** 2 * (d + 2)) / n)
                if (abs(B.mean(0) - 1.0 / (d + 1)) > 7 * sd).any():
                    raise Violation('spread', '%s: the mean position of %d particles in cell %d is off its centre: %r' % (tag, n, ci, B.mean(0).tolist()))
