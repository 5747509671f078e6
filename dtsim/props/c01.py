"""C01: particle storage behaves as one sequence, in both storage engines.

System under test: SegmentedArrayPair_C (Python) and SegmentedArrayPair_<coord> (C++), real.
Oracle: a Python list, compared operation by operation and in full at the end.
Schedule: pushes, reads, read loops (complete, abandoned), rewrite passes with deletions,
in any order.  Faults: allocation failure in the middle of an append (both engines), passes
abandoned part-way by the reader.
"""
import numpy as np
from .. import core, seams
from ..core import Violation

LEVEL = 'exploration'
RUNS = {'quick': 6000, 'thorough': 120000}
TIME_UNIT = 'storage operations'
RULE = ('a case is a random segment length (1-9), engine, item layout and schedule of storage operations '
        '(swarm-weighted); non-trivial when more than one segment was in use and at least one rewrite pass or '
        'read loop ran; distinct by the sequence of operation kinds and fired faults')
STATE_MEASURE = ('hash of (engine, segment length, items in use, segments allocated in the "in" and "out" halves, '
                 'fill of the last segment) after each operation')
REAL = ['SegmentedArrayPair_Module.SegmentedArrayPair_C', 'cpp/SegmentedArrayPair.h (4 item layouts)']
STUBS = ['numpy.empty wrapped: poisons new storage, fails on demand', "numpy's memory handler (NEP 49): the storage C++ gets is poisoned and refused on demand"]
ASSUMPTIONS = ['a rewrite pass is driven as the particle movers drive it: every "in" item visited once, survivors '
               'written consecutively, then the number of items set',
               'an allocation is refused in an append, not in the middle of a rewrite pass']
PROBES = ['exact_multiple', 'emptied', 'reuse_segment', 'push_after_partial_loop', 'push_after_shrink',
          'alloc_fail_push', 'empty_pass', 'grow_after_shrink']

COORDS = {'cartesian_x': ['x'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z'], 'spherical_r': ['r']}


def fields(cs):
    c = COORDS[cs]
    f = c + [k + '0' for k in c] + ['u' + k for k in c] + ['weight']
    return f, ['bitflags', 'cell_index', 'unique_ID', 'crossings']


def dtype(cs):
    f, i = fields(cs)
    return np.dtype({'names': f + i, 'formats': [np.float64] * len(f) + [np.int32] * len(i)})


def prepare():
    import SegmentedArrayPair_Module  # noqa: F401
    import numpy_types_solib, segmented_array_pair_solib  # noqa: F401


def generate(rng, index):
    eng = rng.choice(['py', 'cpp'])
    L = rng.choice([1, 2, 3, 4, 5, 7, 9])
    w = {k: rng.choice([0, 1, 1, 3]) for k in
         ('push', 'pushn', 'get', 'set', 'read', 'partial', 'pass', 'passall', 'passnone', 'stat', 'fault', 'emptypass')}
    w['push'] = max(w['push'], 1)
    w['pass'] = max(w['pass'], 1)
    kinds = [k for k in sorted(w) for _ in range(w[k])]
    ops = []
    for _ in range(rng.randint(80, 160) if rng.random() < 0.04 else rng.randint(4, 30)):
        k = rng.choice(kinds)
        if k == 'push':
            ops.append(['push', rng.choice(['tuple', 'array', 'list'])])
        elif k == 'pushn':
            # bias towards exact fills
            ops.append(['pushn', rng.choice([L, L - 1, L + 1, 2 * L, rng.randint(1, 3 * L)]),
                        rng.choice(['tuple', 'array', 'list'])])
        elif k == 'get':
            ops.append(['get', rng.random()])
        elif k == 'set':
            ops.append(['set', rng.random(), rng.randint(0, 10 ** 6)])
        elif k == 'partial':
            ops.append(['partial', rng.randint(1, 4)])
        elif k in ('pass', 'passall', 'passnone'):
            if k == 'pass':
                keep = rng.choice([['mod', rng.randint(2, 4), rng.randint(0, 1)], ['first', rng.randint(0, 3 * L)],
                                   ['last', rng.randint(0, 3 * L)], ['mult', rng.randint(0, 2)]])
            else:
                keep = ['all'] if k == 'passall' else ['none']
            ops.append(['pass', keep])
        elif k == 'fault':
            ops.append(['fault', rng.randint(0, 1), rng.randint(1, 2 * L + 1)])
        else:
            ops.append([k])
    return {'engine': eng, 'L': L, 'cs': rng.choice(sorted(COORDS)), 'ops': ops}


class Store:
    """Uniform access to the two engines through their public interface."""
    def __init__(self, eng, L, cs):
        self.eng, self.L, self.cs = eng, L, cs
        self.dt = dtype(cs)
        if eng == 'py':
            import SegmentedArrayPair_Module as m
            self.s = m.SegmentedArrayPair_C(L, self.dt)
        else:
            import segmented_array_pair_solib as m
            self.s = getattr(m, 'SegmentedArrayPair_' + cs)(L)
        self.nf = len(self.dt.names)

    def item(self, uid):
        f, i = fields(self.cs)
        return tuple([uid + 0.25 * (j + 1) for j in range(len(f))] + [uid % 2 * 2, uid % 97, uid, uid % 5])

    def push(self, it, how):
        if how == 'array':
            a = np.zeros(1, dtype=self.dt)
            a[0] = it
            return tuple(self.s.push_back(a))
        if how == 'list' and self.eng == 'cpp':
            return tuple(self.s.push_back(list(it)))
        return tuple(self.s.push_back(it))

    def tup(self, rec):
        return tuple(rec[n].item() if hasattr(rec[n], 'item') else rec[n] for n in self.dt.names)

    def get(self, i):
        out = []
        (seg, off) = self.s.get_segment_and_offset(i)
        out.append(self.tup(seg[off]))
        it = self.s.get_item(i)
        out.append(self.tup(it))
        if self.eng == 'cpp':
            out.append(tuple(self.s.get_as_tuple(i)))
            out.append(tuple(self.s.get_as_list(i)))
        else:
            out.append(self.tup(self.s[i]))
        return out

    def set(self, i, it):
        (seg, off) = self.s.get_segment_and_offset(i)
        seg[off] = it

    def read(self, limit=None):
        out = []
        n, seg = self.s.init_out_loop()
        k = 0
        while isinstance(seg, np.ndarray):
            for j in range(n):
                out.append(self.tup(seg[j]))
            k += 1
            if limit is not None and k >= limit:
                break
            n, seg = self.s.get_next_segment('out')
        return out, (n if limit is None else None)

    def next_out(self):
        r = self.s.get_next_out_segment()
        return r[0] if isinstance(r, tuple) else r


def ask(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg)


def keep_fn(k, n, L):
    if k[0] == 'all':
        return lambda i: True
    if k[0] == 'none':
        return lambda i: False
    if k[0] == 'mod':
        return lambda i: (i % k[1] == 0) != bool(k[2])
    if k[0] == 'first':
        return lambda i: i < k[1]
    if k[0] == 'last':
        return lambda i: i >= n - k[1]
    if k[0] == 'mult':     # keep an exact number of whole segments
        return lambda i: i < k[1] * L
    raise core.HarnessError(str(k))


def execute(case, run):
    L = case['L']
    st = Store(case['engine'], L, case['cs'])
    model = []
    uid = [1000]
    partial = False
    shrunk = False
    maxseen = 0

    def snapshot(tag):
        got, tail = st.read()
        ask(len(got) == len(model), 'count', '%s: reading all items gives %d, should be %d' % (tag, len(got), len(model)))
        for i, (g, m) in enumerate(zip(got, model)):
            ask(g == m, 'content', '%s: item %d reads %r, should be %r' % (tag, i, g[-4:], m[-4:]))

    def stat(tag):
        n = st.s.get_number_of_items()
        ask(n == len(model), 'count', '%s: get_number_of_items() = %d, should be %d' % (tag, n, len(model)))
        ns = tuple(st.s.get_number_of_segments())
        cap = tuple(st.s.get_capacity())
        ask(cap == (ns[0] * L, ns[1] * L), 'capacity', '%s: capacity %r with %r segments of %d' % (tag, cap, ns, L))
        ask(cap[1] >= n, 'capacity', '%s: capacity %d for %d items' % (tag, cap[1], n))
        mb = tuple(st.s.get_number_of_mbytes())
        want = tuple(x * L * st.dt.itemsize / 1e6 for x in ns)
        ask(all(abs(a - b) < 1e-12 for a, b in zip(mb, want)), 'capacity', '%s: mbytes %r, should be %r' % (tag, mb, want))
        run.state(case['engine'], L, len(model), ns, len(model) % L)
        run.event('stat', n, ns)

    def do_push(how, tag):
        it = st.item(uid[0])
        uid[0] += 1
        r = st.push(it, how)
        model.append(it)
        want = ((len(model) - 1) % L, len(model) - 1)
        ask(tuple(int(x) for x in r) == want, 'index', '%s: append returned %r, should be %r' % (tag, r, want))
        if len(model) > L:
            run.nontrivial = True

    for k, op in enumerate(case['ops']):
        tag = 'op %d %r' % (k, op)
        run.op(op[0])
        kind = op[0]
        run.sim_time += 1
        if kind in ('push', 'pushn'):
            if partial:
                run.probes['push_after_partial_loop'] += 1
                partial = False
            if shrunk:
                run.probes['push_after_shrink'] += 1
            n = 1 if kind == 'push' else op[1]
            for _ in range(n):
                do_push(op[-1], tag)
            if len(model) > maxseen:
                if shrunk:
                    run.probes['grow_after_shrink'] += 1
                maxseen = len(model)
            elif shrunk:
                run.probes['reuse_segment'] += 1
        elif kind == 'fault':
            if case['engine'] == 'py':
                fault = seams.alloc_fault(op[1])
            else:
                fault = seams.native_alloc_fault(op[1], L * st.dt.itemsize)
            with fault as fa:
                for _ in range(op[2]):
                    it = st.item(uid[0])
                    uid[0] += 1
                    try:
                        st.push(it, 'tuple')
                    except MemoryError:
                        break
                    model.append(it)
            if fa.fired:
                run.fault('alloc')
                run.probes['alloc_fail_push'] += 1
                stat(tag)
                snapshot(tag)
        elif kind == 'get':
            if model:
                i = int(op[1] * len(model))
                for g in st.get(i):
                    ask(g == model[i], 'content', '%s: item %d reads %r, should be %r' % (tag, i, g[-4:], model[i][-4:]))
        elif kind == 'set':
            if model:
                i = int(op[1] * len(model))
                it = st.item(op[2])
                st.set(i, it)
                model[i] = it
        elif kind == 'read':
            snapshot(tag)
        elif kind == 'partial':
            got, _ = st.read(limit=op[1])
            want = model[:op[1] * L]
            ask(got == want, 'content', '%s: the first %d segments read %d items, should be %d' % (tag, op[1], len(got), len(want)))
            partial = True
        elif kind == 'emptypass':
            if not model:
                r = st.s.init_inout_loop()
                ask(r[0] == 0 and r[1] is None and r[2] is None, 'empty', '%s: a pass over no items returned %r' % (tag, r))
                run.probes['empty_pass'] += 1
        elif kind == 'pass':
            n_in = len(model)
            keep = keep_fn(op[1], n_in, L)
            new = []
            n, sin, sout = st.s.init_inout_loop()
            if n_in == 0:
                ask(n == 0 and sin is None, 'empty', '%s: a pass over no items returned n=%r' % (tag, n))
                run.probes['empty_pass'] += 1
                stat(tag)
                continue
            ip = 0
            ii = 0
            while isinstance(sin, np.ndarray):
                for j in range(n):
                    ask(ii < n_in, 'count', '%s: the pass visits more than %d items' % (tag, n_in))
                    g = st.tup(sin[j])
                    ask(g == model[ii], 'content', '%s: the pass reads item %d as %r, should be %r' % (tag, ii, g[-4:], model[ii][-4:]))
                    if ip == L:
                        sout = st.next_out()
                        ip = 0
                    if keep(ii):
                        it = st.item(g[-2] + 1000000 if g[-2] < 1000000 else g[-2])
                        sout[ip] = it
                        fi, fo = st.s.get_full_indices(j, ip)
                        ask((fi, fo) == (ii, len(new)), 'index', '%s: full indices %r, should be %r' % (tag, (fi, fo), (ii, len(new))))
                        ask(st.s.get_full_index(j, 'in') == ii and st.s.get_full_index(ip, 'out') == len(new), 'index',
                            '%s: full index of item %d is wrong' % (tag, ii))
                        c = st.s.get_current_out_segment()
                        ask(st.tup(c[ip]) == it, 'content', '%s: the current "out" segment does not show item %d' % (tag, len(new)))
                        new.append(it)
                        ip += 1
                    ii += 1
                n, sin = st.s.get_next_segment('in')
            ask(ii == n_in, 'count', '%s: the pass visits %d items of %d' % (tag, ii, n_in))
            st.s.set_number_of_items('out', len(new))
            if len(new) < n_in:
                shrunk = True
            model[:] = new
            if not new:
                run.probes['emptied'] += 1
            elif len(new) % L == 0:
                run.probes['exact_multiple'] += 1
        stat(tag)
    snapshot('end')
    for i in range(len(model)):
        for g in st.get(i):
            ask(g == model[i], 'content', 'end: item %d reads %r, should be %r' % (i, g[-4:], model[i][-4:]))
    run.event('end', [m[-2] for m in model])
