"""Lock-step twins: one schedule, the Python and the C++ engine, the same observable history."""
import numpy as np
from . import motion, seams
from . import world as W
from .core import Violation
from .geom import Degenerate
from .world import World, gen_world, gen_particles, TRAJ, DELETE

OPS = ['advance', 'advance', 'advance', 'neutral', 'charged', 'inject', 'inject', 'setfield', 'reverse', 'mark', 'record', 'maxwell', 'dt']


def generate(rng, index):
    w = gen_world(rng, engines=('cpp',))
    parts = gen_particles(rng, w, traj=rng.choice([0.0, 0.5, 1.0]))
    swarm = [o for o in OPS if rng.random() < 0.75]
    ops = []
    for _ in range(W.length(rng, 2, 8, 0.03)):
        o = rng.choice(swarm + ['advance', 'record'])
        if o == 'inject':
            ops.append([o, gen_particles(rng, w, lo=1, hi=2 * w['L'] + 1, traj=rng.choice([0.0, 0.4]))])
        elif o == 'mark':
            ops.append([o, [rng.random() for _ in range(rng.choice([1, 1, 2, 5]))]])
        elif o == 'setfield':
            ops.append([o, rng.randint(0, 10 ** 9), 10 ** rng.uniform(-0.7, 0.5)])
        elif o == 'dt':
            ops.append([o, rng.uniform(0.2, 1.0)])
        elif o == 'maxwell':
            ops.append([o, rng.randint(0, 9), rng.randint(1, 3), rng.randint(0, 10 ** 6), rng.uniform(0.1, 1.0)])
        else:
            ops.append([o])
    ops += [['advance'], ['record']]
    return {'world': w, 'particles': parts, 'ops': ops, 'traj': {'n': rng.choice([2, 20]), 'extra': rng.choice([0, 1, 20])}}


def mirror(w):
    """The boundary functions compiled into the C++ modules, as handlers of the Python engine."""
    p = dict(w, engine='py')
    h = {'default_bc': 'absorb'}
    for b in set(list(w['faces'].values()) + ([w['interior'][0]] if w['interior'] else [])):
        if b == 'rmin':
            if w['dim'] == 'r':
                h['default_bc_at_rmin'] = 'reflect'
            else:
                h['bc_at_rmin_for_test_electrons'] = 'reflect'
    p['handlers'] = h
    return p


def simulate(case, run):
    PC = W.mods()['P'].Particle_C
    tw = []
    for w in (mirror(case['world']), case['world']):
        wd = World(w, case['particles'], run, traj=case['traj'])
        wd.marked, wd.model, wd.uid = set(), None, PC.UNIQUE_ID_COUNTER
        wd.notraj = set()
        tw.append(wd)
    run.probes['dim_' + tw[0].dim] += 1
    loose = set()
    compare(tw, run, loose, 'start')
    for k, op in enumerate(case['ops']):
        kind = op[0]
        run.op(kind)
        tag = 'op %d %s' % (k, kind)
        if kind in ('advance', 'neutral', 'charged'):
            before = tw[0].all_items()
            for s in motion.moved_species(tw[0], kind):
                for p in before[s]:
                    u = p['unique_ID']
                    if u in loose:
                        continue
                    if p['bitflags'] & DELETE:
                        # on the way to its removal: whether it still makes a last move, and records it, is free
                        tw[0].notraj.add(u)
                        continue
                    try:
                        e = tw[0].step_ref(s, p)
                    except Degenerate:
                        loose.add(u)
                        run.probes['degenerate_path'] += 1
                        continue
                    if e['crossings']:
                        run.nontrivial = True
                        run.probes['crossed'] += 1
                    if e['deleted']:
                        run.probes['absorbed'] += 1
                        run.nontrivial = True
                        if any(v['kind'] == 'absorb' and not tw[0].geo.exterior[v['facet']] for v in e['events']):
                            # what follows an absorption inside the mesh is nobody's business
                            loose.add(u)
                    if any(v['kind'] == 'reflect' for v in e['events']):
                        run.probes['reflected'] += 1
                    if p['bitflags'] & TRAJ and e['crossings']:
                        run.probes['trajectory_moved'] += 1
        for wd in tw:
            PC.UNIQUE_ID_COUNTER = wd.uid
            apply(wd, kind, op)
            wd.uid = PC.UNIQUE_ID_COUNTER
        compare(tw, run, loose, tag)


def apply(wd, kind, op):
    P = wd.P
    if kind in ('advance', 'neutral', 'charged'):
        wd.tick()
        wd.advance(charged=kind != 'neutral', neutral=kind != 'charged')
    elif kind == 'inject':
        motion.inject(wd, op[1])
    elif kind == 'maxwell':
        motion.maxwell(wd, op)
    elif kind == 'dt':
        wd.ctrl.dt = wd.w['dt'] * op[1]
    elif kind == 'setfield':
        wd.set_field(wd.w['field'][0], op[1], op[2])
    elif kind == 'record':
        P.record_trajectory_data(wd.ctrl.timeloop_count, wd.ctrl.time, neg_E_field=wd.field)
    elif kind in ('reverse', 'mark'):
        tot = sorted((wd_uid, s) for s in wd.species for wd_uid in [p['unique_ID'] for p in wd.items(s)])
        pick = set(tot) if kind == 'reverse' else {tot[int(f * len(tot))] for f in op[1] if tot}
        for s in wd.species:
            sap = P.sap_dict[s]
            for i in range(int(sap.get_number_of_items())):
                seg, off = sap.get_segment_and_offset(i)
                if (int(seg[off]['unique_ID']), s) in pick:
                    if kind == 'reverse':
                        for c in wd.coords:
                            seg[off]['u' + c] = -seg[off]['u' + c]
                    else:
                        seg[off]['bitflags'] = seg[off]['bitflags'] | DELETE


def compare(tw, run, loose, tag):
    a, b = tw
    scale = a.geo.scale
    for s in a.species:
        ia = {p['unique_ID']: p for p in a.items(s)}
        ib = {p['unique_ID']: p for p in b.items(s)}
        for u in sorted((set(ia) ^ set(ib)) - loose):
            raise Violation('engines-disagree', '%s: particle %d of %s exists with the %s engine only' %
                            (tag, u, s, 'Python' if u in ia else 'C++'))
        v = max([1e-30] + [abs(p['u' + c]) for p in ia.values() for c in a.coords])
        for u in sorted(set(ia) & set(ib)):
            if u in loose:
                continue
            p, q = ia[u], ib[u]
            for n in p:
                if n in ('weight', 'unique_ID', 'cell_index', 'crossings', 'bitflags'):
                    ok = p[n] == q[n]
                elif n.startswith('u'):
                    ok = abs(p[n] - q[n]) <= 1e-8 * v
                else:
                    ok = abs(p[n] - q[n]) <= 1e-8 * scale
                if not ok:
                    raise Violation('engines-disagree', '%s: particle %d of %s: %s is %r with the Python engine and %r with the C++ engine' %
                                    (tag, u, s, n, p[n], q[n]))
        ta, tb = traj(a, s), traj(b, s)
        for u in sorted(set(ta) | set(tb)):
            if u in loose or u in a.notraj:
                continue
            if (u in ta) != (u in tb) or len(ta[u]) != len(tb[u]):
                raise Violation('engines-disagree', '%s: trajectory of particle %d of %s: %r points with the Python engine, %r with the C++ engine' %
                                (tag, u, s, len(ta.get(u, ())), len(tb.get(u, ()))))
            for k, (x, y) in enumerate(zip(ta[u], tb[u])):
                for n in x.dtype.names:
                    sc = max(1e-30, max(abs(float(r[n])) for r in ta[u] + tb[u]), v if n.startswith('u') and n != 'unique_ID' else 0)
                    if n in a.coords:
                        sc = scale
                    if n.startswith('E') and a.fvals is not None:
                        sc = max(sc, float(np.abs(a.fvals).max()))
                    if not abs(float(x[n]) - float(y[n])) <= 1e-8 * sc:
                        raise Violation('engines-disagree', '%s: trajectory of particle %d of %s, point %d: %s is %r with the Python engine '
                                        'and %r with the C++ engine' % (tag, u, s, k, n, float(x[n]), float(y[n])))
    counts = tuple(int(a.P.get_species_particle_count(s)) for s in a.species)
    run.state(a.dim, a.w['L'], counts, tuple(c % a.w['L'] for c in counts), tuple(sorted(len(t) for s in a.species for t in traj(a, s).values())))
    run.event(tag, counts, [('%.9g' % p[c]) for s in a.species for p in a.items(s) for c in a.coords])


def traj(wd, s):
    T = wd.P.traj_T
    out = {}
    for i, u in enumerate(T.particle_unique_id_list[s]):
        n = int(T.trajectory_length[s][i])
        out[int(u)] = [T.data_list[s][i][k].copy() for k in range(n)]
    return out
