"""The user's main loop: particles advance, sources add, user code edits, diagnostics and writers look.

Shared by the properties about what surrounds the motion (C08 and up): generation of the
schedule of state-changing operations, and their application to a world.
"""
import numpy as np
from . import motion, seams
from . import world as W
from .world import gen_particles, DELETE

STATE_OPS = ['advance', 'advance', 'advance', 'advance', 'neutral', 'charged', 'inject', 'inject', 'setfield', 'maxwell', 'reverse', 'mark', 'dt']


def gen_op(rng, w, o, traj=0.0):
    if o == 'inject':
        return [o, gen_particles(rng, w, lo=1, hi=2 * w['L'] + 1, traj=traj)]
    if o == 'mark':
        return [o, [rng.random() for _ in range(rng.choice([1, 1, 2, 5]))]]
    if o == 'setfield':
        return [o, rng.randint(0, 10 ** 9), 10 ** rng.uniform(-0.7, 0.5)]
    if o == 'maxwell':
        return [o, rng.randint(0, 9), rng.randint(1, 3), rng.randint(0, 10 ** 6), rng.uniform(0.1, 1.0)]
    if o == 'dt':
        return [o, rng.uniform(0.2, 1.0)]
    return [o]


def swarm(rng, ops, p=0.75):
    return [o for o in ops if rng.random() < p]


def setup(wd):
    wd.marked = set()
    wd.model = None


def apply(wd, op):
    """One state-changing operation."""
    kind = op[0]
    if kind in ('advance', 'neutral', 'charged', 'legacy', 'accel'):
        if wd.cpp and kind in ('legacy', 'accel'):
            kind = 'charged'
        wd.tick()
        wd.advance(charged=kind != 'neutral', neutral=kind in ('advance', 'neutral'), legacy=kind == 'legacy', accel_only=kind == 'accel')
    elif kind == 'inject':
        motion.inject(wd, op[1])
    elif kind == 'maxwell':
        motion.maxwell(wd, op)
    elif kind == 'setfield':
        if wd.field is not None:
            wd.set_field(wd.w['field'][0], op[1], op[2])
    elif kind == 'other':
        wd.other(op[1])
    elif kind == 'dt':
        wd.ctrl.dt = wd.w['dt'] * op[1]
    elif kind == 'reverse':
        for s in wd.species:
            sap = wd.P.sap_dict[s]
            for i in range(int(sap.get_number_of_items())):
                seg, off = sap.get_segment_and_offset(i)
                for c in wd.coords:
                    seg[off]['u' + c] = -seg[off]['u' + c]
    elif kind == 'mark':
        tot = [(s, i) for s in wd.species for i in range(int(wd.P.sap_dict[s].get_number_of_items()))]
        for f in op[1]:
            if tot:
                s, i = tot[int(f * len(tot))]
                seg, off = wd.P.sap_dict[s].get_segment_and_offset(i)
                seg[off]['bitflags'] = seg[off]['bitflags'] | DELETE
                wd.marked.add(int(seg[off]['unique_ID']))
    else:
        return False
    return True


def trajectories(wd):
    T = wd.P.traj_T
    if T is None:
        return None
    return [(s, int(T.particle_unique_id_list[s][i]), int(T.particle_index_list[s][i]),
             [T.data_list[s][i][k].tobytes() for k in range(int(T.trajectory_length[s][i]))])
            for s in wd.species for i in range(len(T.particle_index_list[s]))]


def snapshot(wd):
    """Everything a look at the simulation must not change."""
    return (wd.all_items(), trajectories(wd), wd.ctrl.time, wd.ctrl.timeloop_count,
            None if wd.field is None else wd.field.function.vector().get_local().tobytes(), W.mods()['P'].Particle_C.UNIQUE_ID_COUNTER)
