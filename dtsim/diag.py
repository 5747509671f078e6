"""C08: diagnostics and histories."""
import math
import numpy as np
from . import loop
from . import world as W
from .core import Violation
from .world import World, gen_world, gen_particles

HISTS = ['count', 'KE', 'number', 'px']


def generate(rng, index):
    w = gen_world(rng)
    parts = gen_particles(rng, w, lo=rng.choice([0, 1, 1]), traj=rng.choice([0.0, 0.3]))
    ops = []
    vocab = loop.swarm(rng, loop.STATE_OPS) + ['advance', 'hist', 'hist', 'diag', 'diag', 'badhist', 'record']
    for _ in range(W.length(rng, 3, 12, 0.04)):
        ops.append(loop.gen_op(rng, w, rng.choice(vocab), traj=rng.choice([0, 0.4])))
        if rng.random() < 0.4:
            ops.append(['hist'])
    ops += [['advance'], ['diag'], ['hist']]
    n = sum(1 for o in ops if o[0] == 'hist') + rng.choice([0, 0, 1, 30])
    hists = [h for h in HISTS if rng.random() < 0.6] or ['count']
    W.add_other(rng, w, ops)
    return {'world': w, 'particles': parts, 'ops': ops, 'traj': rng.choice([None, {'n': 20, 'extra': 40}]),
            'hists': hists, 'steps': n, 'max_points': rng.choice([None, None, rng.randint(1, n + 2)])}


def simulate(case, run):
    traj = case['traj']
    wd = World(case['world'], case['particles'] if traj else [dict(q, t=False) for q in case['particles']], run, traj=traj)
    loop.setup(wd)
    P, R = wd.P, W.mods()['R']
    run.probes['engine_' + wd.engine] += 1
    fail = {'on': None, 'n': 0}

    def px(p_P, sn):
        # a user's own history function, made of the public storage interface
        tot = 0.0
        (n, seg) = p_P.sap_dict[sn].init_out_loop()
        while isinstance(seg, np.ndarray):
            tot += float(np.sum(seg['weight'][0:n] * seg['u' + wd.coords[0]][0:n]))
            (n, seg) = p_P.sap_dict[sn].get_next_segment('out')
            if fail['on'] == sn:
                fail['n'] += 1
                raise ZeroDivisionError('simulated failure of a user function')
        if fail['on'] == sn:
            fail['n'] += 1
            raise ZeroDivisionError('simulated failure of a user function')
        return tot
    PC = W.mods()['P'].Particle_C
    P.history_function_dict['species_number'] = PC.get_species_number
    P.history_function_dict['species_px'] = px
    hin = R.ParticleHistoryInput_C()
    hin.max_points = case['max_points']
    hin.scalar_histories = list(case['hists'])
    wd.ctrl.n_timesteps = case['steps']
    P.histories = R.ParticleHistory_C(hin, wd.ctrl, P.history_function_dict, P.species_names)
    H = P.histories
    if case['max_points'] is not None:
        run.probes['max_points'] += 1
        # a loop of n steps that records the start and then every skip-th step
        k = 1 + sum(1 for i in range(1, case['steps'] + 1) if i % H.skip == 0)
        if k > H.npoints or H.skip < 1:
            raise Violation('history-size', '%d steps, at most %d points: skip %r needs %d rows, there are %r' %
                            (case['steps'], case['max_points'], H.skip, k, H.npoints))
    rows = []
    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        run.op(op[0])
        if loop.apply(wd, op):
            pass
        elif op[0] == 'record':
            if P.traj_T is not None:
                P.record_trajectory_data(wd.ctrl.timeloop_count, wd.ctrl.time, neg_E_field=wd.field)
        elif op[0] == 'badhist':
            if 'px' not in case['hists'] or H.counter >= H.npoints:
                continue
            before = loop.snapshot(wd)
            fail['on'] = wd.species[-1]
            try:
                P.record_history_data(wd.ctrl.timeloop_count, wd.ctrl.time)
            except ZeroDivisionError:
                run.fault('user_function_raises')
            fail['on'] = None
            same(before, loop.snapshot(wd), tag)
        elif op[0] == 'diag':
            before = loop.snapshot(wd)
            check_diag(wd, run, tag)
            same(before, loop.snapshot(wd), tag)
        elif op[0] == 'hist':
            if len(rows) >= H.npoints:
                run.probes['history_full'] += 1
                continue
            before = loop.snapshot(wd)
            P.record_history_data(wd.ctrl.timeloop_count, wd.ctrl.time)
            same(before, loop.snapshot(wd), tag)
            rows.append(expect(wd, case['hists']))
            run.probes['history_rows'] += 1
        check_history(H, rows, tag)
        counts = tuple(len(wd.items(s)) for s in wd.species)
        L = wd.w['L']
        if any(c > L or c == 0 for c in counts):
            run.nontrivial = True
        if any(c == 0 for c in counts):
            run.probes['species_empty'] += 1
        if any(c > L for c in counts):
            run.probes['several_segments'] += 1
        run.state(wd.engine, wd.dim, L, counts, len(rows))
        run.event(op[0], counts, rows[-1:] and sorted(rows[-1].items()))


def same(a, b, tag):
    for x, y, n in zip(a, b, ('particles', 'trajectories', 'time', 'step', 'field', 'next particle number')):
        # NaN compares unequal to itself; nothing stored is NaN on a healthy tree
        if x != y:
            raise Violation('observer-effect', '%s changed the %s' % (tag, n))


def sums(wd, s):
    its = wd.items(s)
    n = math.fsum(p['weight'] for p in its)
    ke = 0.5 * wd.mass[s] * math.fsum(p['weight'] * p['u' + c] ** 2 for p in its for c in wd.coords)
    px = math.fsum(p['weight'] * p['u' + wd.coords[0]] for p in its)
    sc = math.fsum(abs(p['weight'] * p['u' + wd.coords[0]]) for p in its)
    return dict(count=len(its), number=n, KE=ke, px=px, pxs=sc)


def check_diag(wd, run, tag):
    tot = 0
    for s in wd.species:
        e = sums(wd, s)
        for name, got in (('count', wd.P.get_species_particle_count(s)), ('number', wd.P.get_species_number(s)),
                          ('KE', wd.P.get_species_KE(s))):
            if not abs(float(got) - e[name]) <= 1e-11 * abs(e[name]):
                raise Violation('diagnostic', '%s: %s of species %s is reported as %r, its particles give %r' % (tag, name, s, got, e[name]))
        tot += e['count']
    if wd.P.get_total_particle_count() != tot:
        raise Violation('diagnostic', '%s: total particle count %r, there are %d' % (tag, wd.P.get_total_particle_count(), tot))


def expect(wd, hists):
    row = {'step': wd.ctrl.timeloop_count, 't': wd.ctrl.time}
    per = {s: sums(wd, s) for s in wd.species}
    for h in hists:
        for s in wd.species:
            v = per[s][h]
            row[s + '_' + h] = v
            row[s + '_ppp_' + h] = v / max(per[s]['number'], 1)
        row[h] = math.fsum(per[s][h] for s in wd.species)
        row['#' + h] = math.fsum(per[s]['pxs'] if h == 'px' else per[s][h] for s in wd.species)
    return row


def check_history(H, rows, tag):
    if H.counter != len(rows):
        raise Violation('history', '%s: %d rows recorded, counter says %r' % (tag, len(rows), H.counter))
    for i, r in enumerate(rows):
        for n, v in r.items():
            if n.startswith('#'):
                continue
            # sums that may cancel are compared on the scale of their terms
            sc = max([abs(v)] + [r[m] for m in r if m.startswith('#') and n.endswith(m[1:])])
            got = float(H.data_array[n][i])
            if not abs(got - v) <= 3e-7 * sc:
                raise Violation('history', '%s: row %d of the history: %s is %r, was %r when it was recorded' % (tag, i, n, got, v))
