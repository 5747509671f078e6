"""C10: trajectory files on a simulated disk."""
import numpy as np
from . import disk, loop
from . import world as W
from .core import Violation
from .diag import same
from .world import World, gen_world, gen_particles


def generate(rng, index):
    w = gen_world(rng)
    parts = gen_particles(rng, w, traj=rng.choice([0.0, 0.4, 1.0]), speed=10 ** rng.uniform(-1.2, 0.2))
    vocab = loop.swarm(rng, loop.STATE_OPS) + ['advance', 'record', 'record', 'wtraj']
    ops = []
    for _ in range(W.length(rng, 3, 10, 0.04)):
        o = rng.choice(vocab)
        if o == 'wtraj':
            f = None
            r = rng.random()
            if r < 0.4:
                f = [rng.choice(['disk_full', 'io_error']), rng.randint(1, 60), rng.choice([1, 2, 1000])]
            elif r < 0.75:
                f = ['hdf5_call_fails', rng.choice([0, 1, 2, 5, 10, 30]), 1]
            elif r < 0.85:
                f = ['open_fails', rng.choice([0, 0, 1, 2])]
            ops.append([o, f])
        else:
            ops.append(loop.gen_op(rng, w, o, traj=0.4))
    ops += [['advance'], ['record'], ['wtraj', None]]
    W.add_other(rng, w, ops)
    return {'world': w, 'particles': parts, 'ops': ops,
            'traj': {'n': rng.choice([1, 3, 8, 20]), 'extra': rng.choice([0, 1, 3, 40]),
                     'formats': [rng.choice(['f8', 'f8', 'f4']), rng.choice(['i4', 'i8'])]}}


def simulate(case, run):
    with disk.Disk(run) as d:
        _simulate(case, run, d)


def _simulate(case, run, d):
    wd = World(case['world'], case['particles'], run, traj=case['traj'])
    loop.setup(wd)
    P, ctrl = wd.P, wd.ctrl
    T = P.traj_T
    run.probes['engine_' + wd.engine] += 1
    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        run.op(op[0])
        if loop.apply(wd, op):
            pass
        elif op[0] == 'record':
            P.record_trajectory_data(ctrl.timeloop_count, ctrl.time, neg_E_field=wd.field)
        elif op[0] == 'wtraj':
            before = loop.snapshot(wd)
            fault = op[1]
            if fault is not None and fault[0] == 'open_fails':
                d.open_fails = fault[1]
            elif fault is not None:
                d.arm(*fault)
            ok = True
            n0 = len(run.shape)
            try:
                T.write_trajectories_to_files()
            except (OSError, RuntimeError, SystemError):
                if len(run.shape) == n0:
                    raise
                ok = False
                run.nontrivial = True
            d.heal()
            d.open_fails = None
            if not ok:
                # the run lost its disk and got it back: a handle HDF5 could not close stays with the old file
                T.write_trajectories_to_files()
                run.probes['retried'] += 1
            same(before, loop.snapshot(wd), tag)
            check(wd, run, d, tag)
        n = [int(x) for s in wd.species for x in T.trajectory_length[s]]
        run.state(wd.engine, wd.dim, wd.w['L'], tuple(sorted(n)))
        run.event(op[0], n, [len(d.files[f].b) for f in sorted(d.files)])


def check(wd, run, d, tag):
    T = wd.P.traj_T
    names = set()
    for s in wd.species:
        for i, u in enumerate(T.particle_unique_id_list[s]):
            name = 'traj-%s-uid%d.h5part' % (s, u)
            names.add(name)
            if name not in d.files:
                raise Violation('no-file', '%s: there is no file for the trajectory of particle %d of %s' % (tag, u, s))
            try:
                f = disk.read_file(d.contents(name))
            except Exception as e:
                raise Violation('unreadable', '%s: %s cannot be read back: %s' % (tag, name, str(e)[:120]))
            k = wd.P.species_index[s]
            want = {'Title:': wd.ctrl.title, 'Author:': wd.ctrl.author, 'particle_type_%d' % k: s, 'mass_%d' % k: wd.mass[s], 'charge_%d' % k: wd.charge[s]}
            for a, v in want.items():
                if f['attrs'].get(a) != v:
                    raise Violation('header', '%s: %s: header %s is %r, should be %r' % (tag, name, a, f['attrs'].get(a), v))
            data, n = T.data_list[s][i], int(T.trajectory_length[s][i])
            if set(f['groups']) != {'Step#%d' % j for j in range(n)}:
                raise Violation('points', '%s: %s holds %d points, %d were recorded' % (tag, name, len(f['groups']), n))
            for j in range(n):
                g = f['groups']['Step#%d' % j]
                if g['attrs'].get('TimeValue') != float(data['t'][j]):
                    raise Violation('points', '%s: %s: point %d has time %r, recorded is %r' % (tag, name, j, g['attrs'].get('TimeValue'), float(data['t'][j])))
                if set(g['data']) != set(data.dtype.names):
                    raise Violation('points', '%s: %s: point %d has attributes %r, recorded are %r' % (tag, name, j, sorted(g['data']), data.dtype.names))
                for a in data.dtype.names:
                    x, y = g['data'][a], data[a][j]
                    if np.ndim(x) > 1 or np.size(x) != 1 or not (x.item() == y.item() or (x.item() != x.item() and y.item() != y.item())):
                        raise Violation('points', '%s: %s: point %d: %s is %r, recorded is %r' % (tag, name, j, a, x, y))
            if n > 1:
                run.nontrivial = True
            run.probes['files'] += 1
            if not n:
                run.probes['empty_trajectory'] += 1
            if s in wd.P.neutral_species:
                run.probes['neutral'] += 1
    extra = set(d.files) - names
    if extra:
        raise Violation('extra-file', '%s: files %r belong to no trajectory' % (tag, sorted(extra)[:3]))
