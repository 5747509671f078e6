"""Reference model of trajectories: what every marked particle's record has to contain.

The model is told of each operation after the real code has performed it, predicts the points
that must have been added, and compares them with the arrays of Trajectory_C.  Where the
reference cannot be sure (a path through a vertex, what follows an absorption inside the mesh,
a particle marked by user code), the points added are taken over from the code, but everything
recorded before must be unchanged and the particle must still be the same one.
"""
import numpy as np
from .core import Violation

ADOPT = object()


class Model:
    def __init__(self, wd):
        self.wd = wd
        T = wd.P.traj_T
        self.T = T
        self.cap = T.npoints
        self.t = {}         # uid -> dict(s, i, pts, live)
        self.last_step = None
        for s in wd.species:
            for i, u in enumerate(T.particle_unique_id_list[s]):
                self.t[int(u)] = dict(s=s, i=i, pts=[], live=True)

    def new(self, s, uid):
        T = self.T
        self.t[uid] = dict(s=s, i=len(T.data_list[s]) - 1, pts=[], live=True)

    def add(self, uid, pt):
        r = self.t[uid]
        if r['live'] and len(r['pts']) < self.cap:
            r['pts'].append(pt)
        elif r['live']:
            r['full'] = True
            self.wd.run.probes['trajectory_full'] += 1

    def point(self, s, step, t, x, u, E, X=None):
        return dict(step=step, t=t, x=np.array(x, float), u=np.array(u, float), E=E, X=X)

    # -- events

    def record(self, step, time, ext=False):
        """record_trajectory_data() was called."""
        wd = self.wd
        if step == self.last_step:
            wd.run.probes['second_record'] += 1
            return
        self.last_step = step
        for s in wd.species:
            here = {p['unique_ID']: p for p in wd.items(s)}
            for uid, r in self.t.items():
                if r['s'] != s or not r['live']:
                    continue
                p = here.get(uid)
                if p is None:
                    raise Violation('trajectory-lost', 'particle %d of %s has a live trajectory but is not stored' % (uid, s))
                E = self.field_at(s, wd.pos(p))
                X = self.field_at(s, wd.pos(p), True) if ext else np.zeros(wd.d)
                self.add(uid, self.point(s, step, time, wd.pos(p), wd.vel(p), E, X))

    def field_at(self, s, x, ext=False):
        wd = self.wd
        if wd.charge[s] == 0.0:
            return None
        if ext:
            cells = wd.geo.find_cells(x, 1e-10)
            if len(cells) != 1:
                return None
            return wd.negE_at(cells[0], x, wd.evals, wd.ekind)
        if wd.field is None:
            return np.zeros(wd.d)
        cells = wd.geo.find_cells(x, 1e-10)
        if len(cells) != 1 and wd.fkind == 'DG0' or not cells:
            return None
        return -wd.negE_at(cells[0], x)

    def advanced(self, before, after, exp, unsure, movers):
        wd = self.wd
        step, time, dt = wd.ctrl.timeloop_count, wd.ctrl.time, wd.ctrl.dt
        there = {p['unique_ID'] for s in after for p in after[s]}
        for s in movers:
            for p in before[s]:
                uid = p['unique_ID']
                r = self.t.get(uid)
                if r is None or not r['live']:
                    continue
                e = exp.get(uid)
                if uid in unsure or e is None:
                    self.adopt(uid, uid in there)
                    continue
                if e.get('marked'):
                    self.adopt(uid, False)
                    wd.run.probes['trajectory_of_marked'] += 1
                    continue
                vague = False
                ext = wd.ext is not None
                X = None if ext else np.zeros(wd.d)
                if ext and s not in (wd.w.get('noext') or ()) and wd.charge[s]:
                    X = self.field_at(s, wd.pos(p), True)
                    X = None if X is None else X * wd.w['ext'][3]
                for v in e['events']:
                    self.add(uid, self.point(s, step, (time - dt) + v['frac'] * dt, v['at'], v['u'],
                                             e['E'] if wd.charge[s] and not ext else None, X))
                    wd.run.probes['trajectory_crossing'] += 1
                    if v['kind'] == 'absorb' and not wd.geo.exterior[v['facet']]:
                        vague = True
                        break
                if vague:
                    self.adopt(uid, False)
                elif e['deleted']:
                    st, tm = step, time
                    if step == self.last_step:
                        st, tm = step + 1, time + dt
                        wd.run.probes['removed_after_record'] += 1
                    self.add(uid, self.point(s, st, tm, e['x'], e['u'], np.zeros(wd.d) if wd.charge[s] else None))
                    r['live'] = False
                    wd.run.probes['trajectory_ended'] += 1
                    wd.run.nontrivial = True

    def adopt(self, uid, live):
        r = self.t[uid]
        n = int(self.T.trajectory_length[r['s']][r['i']])
        k = len(r['pts'])
        if n < k and n < self.cap:
            raise Violation('trajectory-short', 'trajectory of particle %d of %s has %d points, had %d' % (uid, r['s'], n, k))
        while len(r['pts']) < n:
            r['pts'].append(self.read(r, len(r['pts'])))
        r['live'] = live
        self.wd.run.probes['trajectory_adopted'] += 1

    def read(self, r, k):
        row = self.T.data_list[r['s']][r['i']][k]
        wd = self.wd
        E = np.array([float(row['E' + c]) for c in wd.coords]) if wd.charge[r['s']] else None
        X = None
        if wd.charge[r['s']] and wd.w.get('extcol'):
            X = np.array([float(row['E' + c + '_ext']) for c in wd.coords])
        return dict(step=int(row['step']), t=float(row['t']), x=np.array([float(row[c]) for c in wd.coords]),
                    u=np.array([float(row['u' + c]) for c in wd.coords]), E=E, X=X, uid=int(row['unique_ID']))

    # -- judgement

    def check(self, tag):
        wd, T = self.wd, self.T
        where = {}
        for s in wd.species:
            n = sum(1 for r in self.t.values() if r['s'] == s)
            if len(T.data_list[s]) != n or len(T.particle_index_list[s]) != n:
                raise Violation('trajectory-count', '%s: species %s has %d trajectories, %d particles were marked' %
                                (tag, s, len(T.data_list[s]), n))
        for uid, r in self.t.items():
            s, i = r['s'], r['i']
            who = '%s: trajectory of particle %d of %s' % (tag, uid, s)
            n = int(T.trajectory_length[s][i])
            if n != len(r['pts']):
                raise Violation('trajectory-length', '%s has %d points, should have %d%s' %
                                (who, n, len(r['pts']), '' if r['live'] else ' (the particle is gone)'))
            idx = T.particle_index_list[s][i]
            if r['live']:
                sap = wd.P.sap_dict[s]
                if not (0 <= idx < sap.get_number_of_items()):
                    raise Violation('trajectory-index', '%s points at index %d of %d' % (who, idx, sap.get_number_of_items()))
                seg, off = sap.get_segment_and_offset(int(idx))
                if int(seg[off]['unique_ID']) != uid:
                    raise Violation('trajectory-index', '%s follows particle %d' % (who, int(seg[off]['unique_ID'])))
            elif idx != T.NO_PINDEX:
                raise Violation('trajectory-index', '%s still points at index %d although the particle is gone' % (who, idx))
            usc = max([float(np.abs(q['u']).max()) for q in r['pts']] + [1e-30])
            for k in range(n):
                q, p = r['pts'][k], self.read(r, k)
                if p['uid'] != uid:
                    raise Violation('trajectory-mixed', '%s: point %d is of particle %d' % (who, k, p['uid']))
                if p['step'] != q['step'] or not abs(p['t'] - q['t']) <= 1e-9 * (abs(q['t']) + wd.ctrl.dt):
                    raise Violation('trajectory-time', '%s: point %d is of step %d, time %r, should be of step %d, time %r' %
                                    (who, k, p['step'], p['t'], q['step'], q['t']))
                if not (np.abs(p['x'] - q['x']) <= 1e-8 * wd.geo.scale).all():
                    raise Violation('trajectory-position', '%s: point %d (step %d) at %r, should be at %r' %
                                    (who, k, p['step'], p['x'].tolist(), q['x'].tolist()))
                if not (np.abs(p['u'] - q['u']) <= 1e-8 * usc).all():
                    raise Violation('trajectory-velocity', '%s: point %d (step %d) has velocity %r, should be %r' %
                                    (who, k, p['step'], p['u'].tolist(), q['u'].tolist()))
                if q['E'] is not None and p['E'] is not None:
                    m = max(float(np.abs(q['E']).max()), float(np.abs(wd.fvals).max()) if wd.fvals is not None else 0.0)
                    if not (np.abs(p['E'] - q['E']) <= 1e-8 * m).all():
                        raise Violation('trajectory-field', '%s: point %d (step %d) has field %r, should be %r' %
                                        (who, k, p['step'], p['E'].tolist(), q['E'].tolist()))
                if q['X'] is not None and p['X'] is not None:
                    m = max(float(np.abs(q['X']).max()), float(np.abs(wd.evals).max()) if wd.ext is not None else 0.0)
                    if not (np.abs(p['X'] - q['X']) <= 1e-8 * m).all():
                        raise Violation('trajectory-field', '%s: point %d (step %d) has external field %r, should be %r' %
                                        (who, k, p['step'], p['X'].tolist(), q['X'].tolist()))
                    wd.run.probes['external_recorded'] += 1
        wd.run.event('traj', sorted((u, len(r['pts']), r['live']) for u, r in self.t.items()))
        wd.run.state('traj', tuple(sorted((min(len(r['pts']), 4), r['live'], r.get('full', False)) for r in self.t.values())))
