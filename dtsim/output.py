"""C09: particle snapshot files on a simulated disk."""
import numpy as np
from . import disk, loop, seams
from . import world as W
from .core import Violation
from .diag import same
from .world import World, gen_world, gen_particles, COORDS

RETRIES = 4       # HDF5 itself needs a second flush to get over one that failed


def attributes(rng, w):
    c = COORDS[w['dim']]
    a = c + ['u' + x for x in c] + [x + '0' for x in c] + ['weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings', 'species_index']
    out = [x for x in a if rng.random() < rng.choice([0.3, 0.8])] or ['unique_ID']
    rng.shuffle(out)
    return out


def generate(rng, index):
    w = gen_world(rng)
    parts = gen_particles(rng, w, lo=rng.choice([0, 1, 1]))
    ops = [['open', 0, attributes(rng, w)]] if rng.random() < 0.9 else []
    vocab = loop.swarm(rng, loop.STATE_OPS) + ['advance', 'tick', 'write', 'write', 'write', 'open']
    nfile = 1
    n = W.length(rng, 3, 12, 0.04)
    calm = n > 12 and rng.random() < 0.6        # a long history on a good disk
    if calm:
        vocab = ['advance', 'tick', 'write', 'write']
    for _ in range(n):
        o = rng.choice(vocab)
        if o == 'open':
            if rng.random() < 0.35:
                ops.append([o, nfile if rng.random() < 0.7 else 0, attributes(rng, w)])
                nfile += 1
        elif o == 'tick' and rng.random() < 0.25:
            ops.append(['restart', rng.randint(1, 6)])
        elif o == 'write':
            f = None
            r = 1.0 if calm else rng.random()
            if r < 0.45:
                f = [rng.choice(['disk_full', 'io_error']), rng.randint(1, 30), rng.choice([1, 1, 2, 5, 1000])]
            elif r < 0.6:
                f = ['hdf5_call_fails', rng.choice([0, 0, 1, 2, 3, 5, 8]), 1]
            elif r < 0.7:
                f = ['alloc', rng.choice([0, 0, 1, 2, 5])]
            ops.append([o, f, f is None and not calm and rng.random() < 0.2, rng.randint(1, 12) if rng.random() < 0.4 else None, rng.random() < 0.7])
        else:
            ops.append(loop.gen_op(rng, w, o))
    ops += [['advance'], ['write', None, rng.random() < 0.5, None, True]]
    return {'world': w, 'particles': parts, 'ops': ops}


def simulate(case, run):
    with disk.Disk(run) as d:
        _simulate(case, run, d)


def _simulate(case, run, d):
    wd = World(case['world'], [dict(q, t=False) for q in case['particles']], run)
    loop.setup(wd)
    P, ctrl = wd.P, wd.ctrl
    run.probes['engine_' + wd.engine] += 1
    run.probes['dim_' + wd.dim] += 1
    files = {}          # name -> list of expected snapshots
    cur = None
    tried = False       # a write failed at this step and was not repeated
    for k, op in enumerate(case['ops']):
        tag = 'op %d %s' % (k, op[0])
        run.op(op[0])
        if op[0] == 'tick':
            wd.tick()
        elif op[0] == 'restart':
            # the user's loop counts from a lower step again
            ctrl.timeloop_count = max(0, ctrl.timeloop_count - op[1])
            run.probes['counter_restarted'] += 1
        elif loop.apply(wd, op):
            pass
        elif op[0] == 'open':
            cur = 'snap%d.h5part' % op[1]
            ctrl.particle_output_file = cur
            ctrl.particle_output_attributes = list(op[2])
            P.check_particle_output_parameters(ctrl)
            old = getattr(P, 'particle_output_handle', None)
            if old:
                disk.settle(old)
            before = loop.snapshot(wd)
            P.initialize_particle_output_file(ctrl)
            same(before, loop.snapshot(wd), tag)
            files[cur] = []
            last = None
            tried = False
            check_file(wd, d, cur, files[cur], tag)
        elif op[0] == 'write':
            if cur is None or not P.particle_output_handle:
                continue
            fault, close, crash, retry = op[1], op[2], op[3], op[4]
            step = ctrl.timeloop_count
            want = expected(wd, ctrl)
            before = loop.snapshot(wd)
            if crash is not None:
                d.copy_at = d.writes + crash
            ok = write(wd, run, d, close, fault)
            d.copy_at = None
            for name, b in d.copies:
                # the process dies in the middle of the call: what was complete before has to be there
                run.fault('crash_in_write')
                run.nontrivial = True
                check_bytes(wd, b, files[name], tag + ', crash inside the call', more=True)
            d.copies = []
            d.heal()
            n = 0
            if not ok:
                run.nontrivial = True
                tried = True
            while not ok and retry:
                n += 1
                if n > RETRIES:
                    raise Violation('no-progress', '%s: the snapshot can still not be written %d attempts after the disk accepts writes again' % (tag, n - 1))
                ok = write(wd, run, d, close, None)
            if n:
                run.probes['retried'] += 1
            same(before, loop.snapshot(wd), tag)
            if ok:
                op_again = last == step
                if not op_again:
                    files[cur].append(want)
                    last = step
                else:
                    run.probes['second_call'] += 1
                if tried and op_again:
                    # the counter, started again, came back to the step of the last good snapshot, after another step's
                    # call had failed: there was nothing to write
                    continue
                tried = False
                # the process dies now: everything reported as written is on the disk
                check_file(wd, d, cur, files[cur], tag)
                run.fault('crash_after_write')
                if close and P.particle_output_handle:
                    raise Violation('not-closed', '%s: asked to close the file, it is still open' % tag)
                if close:
                    run.probes['closed'] += 1
        counts = tuple(len(wd.items(s)) for s in wd.species)
        run.probes['snapshots'] = max(run.probes['snapshots'], max([0] + [len(v) for v in files.values()]))
        if any(c > wd.w['L'] for c in counts):
            run.nontrivial = True
        run.state(wd.engine, wd.dim, wd.w['L'], counts, tuple(len(v) for v in files.values()), tried)
        run.event(op[0], counts, [len(d.files[f].b) for f in sorted(d.files)])
    h = getattr(P, 'particle_output_handle', None)
    if h:
        disk.settle(h)
    for f in files:
        if f != cur or not tried:
            check_file(wd, d, f, files[f], 'after the end')


def write(wd, run, d, close, fault):
    """True if the call returned normally; a failure the simulator did not cause is raised."""
    disk_fault = fault is not None and fault[0] != 'alloc'
    if disk_fault:
        d.arm(*fault)
    else:
        d.fired = 0
    with seams.alloc_fault(fault[1] if fault is not None and not disk_fault else None, plain=True) as a:
        try:
            wd.P.write_particles_to_file(wd.ctrl, close_flag=close)
            return True
        except MemoryError as e:
            if 'simulated' not in str(e):
                raise
            run.fault('allocation_fails')
            return False
        except (OSError, RuntimeError, SystemError):
            # HDF5 reports once more, on the next flush, that one failed
            if not run.faults['disk_full'] + run.faults['io_error'] + run.faults['hdf5_call_fails']:
                raise
            return False


def expected(wd, ctrl):
    rows = []
    for s in wd.species:
        for p in wd.items(s):
            rows.append(tuple(wd.P.species_index[s] if a == 'species_index' else p[a] for a in ctrl.particle_output_attributes))
    return {'time': ctrl.time, 'attrs': list(ctrl.particle_output_attributes), 'rows': sorted(rows)}


def check_file(wd, d, name, snaps, tag):
    check_bytes(wd, d.contents(name), snaps, tag)


def check_bytes(wd, b, snaps, tag, more=False):
    try:
        f = disk.read_file(b)
    except Exception as e:
        raise Violation('unreadable', '%s: the file cannot be read back: %s' % (tag, str(e)[:150]))
    a = f['attrs']
    want = {'Title:': wd.ctrl.title, 'Author:': wd.ctrl.author, 'NumParticleTypes:': len(wd.species)}
    for s in wd.species:
        i = wd.P.species_index[s]
        want.update({'particle_type_%d' % i: s, 'mass_%d' % i: wd.mass[s], 'charge_%d' % i: wd.charge[s]})
    for n, v in want.items():
        if n not in a or a[n] != v:
            raise Violation('header', '%s: header %s is %r, should be %r' % (tag, n, a.get(n), v))
    for i, s in enumerate(snaps):
        g = f['groups'].get('Step#%d' % i)
        if g is None:
            raise Violation('snapshot-lost', '%s: snapshot %d of %d is not in the file, which has %r' % (tag, i, len(snaps), sorted(f['groups'])))
        if g['attrs'].get('TimeValue') != s['time']:
            raise Violation('snapshot', '%s: snapshot %d has time %r, was written at %r' % (tag, i, g['attrs'].get('TimeValue'), s['time']))
        if sorted(g['data']) != sorted(s['attrs']):
            raise Violation('snapshot', '%s: snapshot %d has attributes %r, should have %r' % (tag, i, sorted(g['data']), sorted(s['attrs'])))
        cols = [g['data'][n] for n in s['attrs']]
        if any(c.shape != (len(s['rows']),) for c in cols):
            raise Violation('snapshot', '%s: snapshot %d has %r values per attribute, there were %d particles' %
                            (tag, i, [c.shape for c in cols], len(s['rows'])))
        rows = sorted(zip(*[c.tolist() for c in cols]))
        if rows != s['rows']:
            bad = [(x, y) for x, y in zip(rows, s['rows']) if x != y][0]
            raise Violation('snapshot', '%s: snapshot %d holds a particle %r, should be %r (%r)' % (tag, i, bad[0], bad[1], s['attrs']))
    extra = [n for n in f['groups'] if n not in {'Step#%d' % i for i in range(len(snaps))}]
    # a call that failed, or in which the process died, may leave one unfinished group at the end
    if [n for n in extra if n != 'Step#%d' % len(snaps)]:
        raise Violation('snapshot-extra', '%s: the file holds %r, %d snapshots were written' % (tag, sorted(f['groups']), len(snaps)))
