"""C15: meshes, however obtained, their tables and the queries on them, against the coordinates."""
import math, os, random
import numpy as np
from . import seams
from . import world as W
from .core import Violation
from .geom import Geometry
from .world import gen_world, build_mesh

SOURCES = ['object', 'object', 'copy', 'copy', 'file', 'user', 'user', 'sph', 'circ', 'sphfile', 'circfile', 'marks']


def gen_flags(rng):
    return [rng.random() < 0.75, rng.random() < 0.5, rng.random() < 0.75]


def gen_make(rng, kind):
    tags = rng.sample([1, 2, 3, 4, 5, 8, 9], 6)
    f = gen_flags(rng)
    fault = None
    if kind in ('file', 'sphfile', 'circfile', 'marks') and rng.random() < 0.35:
        fault = rng.choice([['truncated', rng.random(), rng.randrange(3)], ['missing', 0.0, rng.randrange(3)], ['empty', 0.0, rng.randrange(3)]])
    elif kind == 'user' and rng.random() < 0.1:
        fault = ['plot_file_fails']
    elif rng.random() < 0.12:
        fault = ['alloc', rng.randint(0, 6)]
    if kind in ('object', 'copy', 'file', 'marks'):
        w = gen_world(rng, interior=False, external=False)
        w = {k: w[k] for k in ('dim', 'n', 'lo', 'hi', 'diag', 'warp', 'shear', 'refine') if k in w}
        return {'op': 'make', 'kind': kind, 'w': w, 'of': rng.choice([None, rng.randrange(9)]), 'flags': f, 'fault': fault, 'seed': rng.randint(0, 10 ** 9)}
    if kind == 'user':
        d = rng.randint(1, 3)
        lo = [rng.uniform(-2, 2) for _ in range(d)]
        return {'op': 'make', 'kind': kind, 'n': [rng.randint(1, 6 if d == 1 else 4 if d == 2 else 2) for _ in range(d)],
                'lo': lo, 'hi': [l + 10 ** rng.uniform(-1.5, 1) for l in lo], 'diag': rng.choice([None, 'left', 'right', 'crossed', 'left/right']),
                'pmarks': rng.random() < 0.7, 'fmarks': d == 1 and rng.random() < 0.7, 'tags': tags, 'flags': f, 'fault': fault}
    rmin = rng.choice([0.0, rng.uniform(0.05, 3)]) if kind.startswith('sph') else rng.uniform(0.05, 3)
    return {'op': 'make', 'kind': kind, 'rmin': rmin, 'rmax': rmin + 10 ** rng.uniform(-1, 1), 'nr': rng.randint(1, 6), 'nt': rng.randint(2, 5),
            'stretch': rng.choice([1.0, 1.3, 1.7, 0.8]), 'tmax': rng.choice([math.pi / 2, math.pi / 2, rng.uniform(0.3, 1.5)]),
            'diag': rng.choice(['left', 'right', 'crossed', 'left/right']), 'pmarks': rng.random() < 0.8, 'fmarks': rng.random() < 0.8, 'tags': tags,
            'flags': f, 'fault': fault}


def generate(rng, index):
    src = [s for s in SOURCES if rng.random() < 0.7] or ['object']
    ops = []
    for i in range(rng.randint(2, 9)):
        r = rng.random()
        if i == 0 or r < 0.4:
            ops.append(gen_make(rng, rng.choice(src)))
        elif r < 0.55:
            ops.append({'op': 'deform', 'k': rng.randrange(9), 'seed': rng.randint(0, 10 ** 9)})
        elif r < 0.7:
            ops.append({'op': 'tables', 'k': rng.randrange(9), 'fault': rng.choice([None, rng.randint(0, 40)]),
                        'which': rng.choice([None, rng.randrange(7)])})
        else:
            ops.append({'op': 'query', 'k': rng.randrange(9), 'seed': rng.randint(0, 10 ** 9), 'n': rng.randint(1, 12)})
    ops.append({'op': 'query', 'k': rng.randrange(9), 'seed': rng.randint(0, 10 ** 9), 'n': 12})
    return {'ops': ops}


class M:
    """A mesh object of the code under test beside what is known about it."""
    def __init__(self, o, name, coords, sph, flags):
        self.o, self.name, self.sph = o, name, sph
        self.X = np.array(coords, dtype=float)      # where its vertices have to be
        self.cells = np.array(o.mesh.cells(), dtype=int)
        self.facets = None
        self.dicts, self.cpp, self.tree = flags
        self.fresh = True                           # tables belong to the present coordinates
        self.tree_fresh = True
        self.fmark = self.pmark = None              # facet vertices -> mark
        self.domain = None                          # volume of the whole, when known beforehand

    def geometry(self):
        return Geometry(self.o.mesh)


def shell(a, b):
    return 4.0 / 3.0 * math.pi * abs(b ** 3 - a ** 3)


def vol(m, g, c):
    if m.sph:
        x = m.X[m.cells[c]][:, 0]
        return shell(x[0], x[1])
    return float(g.vol[c])


def check_tables(m, tag, which=None):
    o, g = m.o, m.geometry()
    nc, d = len(m.cells), g.d
    bad = lambda kind, msg: (_ for _ in ()).throw(Violation(kind, '%s: mesh %s: %s' % (tag, m.name, msg)))
    scale = float(np.abs(m.X).max()) or 1.0
    got = np.array(o.mesh.coordinates())
    if got.shape != m.X.shape or np.abs(got - m.X).max() > 1e-13 * scale:
        bad('vertices', 'its vertices are not where they have to be (off by %r)' % (float(np.abs(got - m.X).max()) if got.shape == m.X.shape else 'shape',))
    if o.mesh.cells().shape != m.cells.shape or (np.array(o.mesh.cells(), dtype=int) != m.cells).any():
        bad('cells', 'its cells have changed')
    if o.gdim != d or o.tdim != d:
        bad('dimension', 'gdim %r, tdim %r of a %d-dimensional mesh' % (o.gdim, o.tdim, d))
    for nm, want, fn in (('field', m.fmark, 'field_boundary_marker'), ('particle', m.pmark, 'particle_boundary_marker')):
        if want is not None:
            mf = getattr(o, fn, None)
            if mf is None:
                bad('marks', 'the %s boundary marks are missing' % nm)
            a = mf.array()
            if len(a) != len(g.facets):
                bad('marks', 'there are %d %s boundary marks for %d facets' % (len(a), nm, len(g.facets)))
            for f in range(len(g.facets)):
                w = want(f, g)
                if int(a[f]) != w:
                    bad('marks', '%s mark of facet %s is %d, should be %d' % (nm, m.X[g.facets[f]].tolist(), int(a[f]), w))
    if m.fresh and m.dicts:
        if sorted(o.cell_dict) != list(range(nc)) or any(o.cell_dict[c].index() != c for c in range(nc)):
            bad('cell_dict', 'cell_dict does not give every cell')
        for nm, t in (('cell_vertices_dict', o.cell_vertices_dict), ('facet indices', o.cell_entity_indices_dict['facet']),
                      ('cell_facet_normals_dict', o.cell_facet_normals_dict), ('cell_neighbors_dict', o.cell_neighbors_dict),
                      ('cell_volume_dict', o.cell_volume_dict)):
            if sorted(t) != list(range(nc)):
                bad('table', '%s does not have every cell' % nm)
        total = 0.0
        for c in range(nc):
            if list(map(int, o.cell_vertices_dict[c])) != m.cells[c].tolist():
                bad('table', 'vertices of cell %d are given as %s, they are %s' % (c, list(o.cell_vertices_dict[c]), m.cells[c].tolist()))
            fs = list(o.cell_entity_indices_dict['facet'][c])
            mine = [f for f in range(len(g.facets)) if c in g.facet_cells[f]]
            if sorted(fs) != sorted(mine):
                bad('table', 'facets of cell %d are given as %s, they are %s' % (c, fs, mine))
            v = float(o.cell_volume_dict[c])
            w = vol(m, g, c)
            total += v
            if not abs(v - w) <= 1e-10 * (w + (shell(0, scale) if m.sph else 0) * 1e-3):
                bad('volume', 'volume of cell %d is %r, should be %r' % (c, v, w))
            check_around(m, g, c, fs, o.cell_neighbors_dict[c], o.cell_facet_normals_dict[c], d, bad, 'Python')
        if m.domain is not None and not abs(total - m.domain) <= 1e-9 * m.domain:
            bad('volume', 'the cells have a volume of %r together, the mesh has %r' % (total, m.domain))
        nv = len(m.X)
        if sorted(o.vertex_cells_dict) != list(range(nv)):
            bad('table', 'vertex_cells_dict does not have every vertex')
        for v in range(nv):
            mine = [c for c in range(nc) if v in m.cells[c]]
            if sorted(map(int, o.vertex_cells_dict[v])) != mine:
                bad('table', 'cells at vertex %d are given as %s, they are %s' % (v, list(o.vertex_cells_dict[v]), mine))
    if m.fresh and m.cpp:
        # dolfin numbers the facets of a cell by the opposite vertex (in 1-D a facet is the vertex)
        o.mesh.init(d, d - 1)
        conn = o.mesh.topology()(d, d - 1)
        for c in range(nc):
            nb = list(o.mea_object.get_cell_neighbors(c))
            nn = np.array(o.mea_object.get_cell_facet_normals(c), dtype=float).reshape(-1, 3)
            if np.abs(nn[:, d:]).max(initial=0.0) > 1e-13:
                bad('normal', 'C++: normals of cell %d have components outside of the %d-dimensional mesh: %s' % (c, d, nn.tolist()))
            check_around(m, g, c, [int(f) for f in conn(c)], nb, nn[:, :d], d, bad, 'C++')


def check_around(m, g, c, fs, nb, normals, d, bad, eng):
    if len(nb) != d + 1 or len(normals) != d + 1:
        bad('table', '%s: cell %d has %d neighbours and %d normals' % (eng, c, len(nb), len(normals)))
    mid = m.X[m.cells[c]].mean(0)
    for i, f in enumerate(fs):
        other = [x for x in g.facet_cells[f] if x != c]
        want = other[0] if other else -1
        if int(nb[i]) != want:
            bad('neighbour', '%s: behind facet %d of cell %d is cell %d, given is %d' % (eng, i, c, want, int(nb[i])))
        n = np.array(normals[i], dtype=float).reshape(-1)
        w = g.N[f] * (1.0 if g.N[f] @ (m.X[g.facets[f][0]] - mid) > 0 else -1.0)
        if n.shape != w.shape or not np.abs(n - w).max() <= 1e-9:
            bad('normal', '%s: outward normal of facet %d of cell %d is %s, given is %s' % (eng, i, c, w.tolist(), n.tolist()))


def query(m, op, run, tag, D):
    g = m.geometry()
    rng = random.Random(op['seed'])
    nc, d = len(m.cells), g.d
    names = {1: ['r'] if m.sph else ['x'], 2: ['x', 'y'], 3: ['x', 'y', 'z']}[d]
    lo, hi = m.X.min(0), m.X.max(0)
    for i in range(op['n']):
        c = rng.randrange(nc)
        b = np.array([rng.random() + 0.01 for _ in range(d + 1)])
        b /= b.sum()
        x = b @ m.X[m.cells[c]]
        as_record = rng.random() < 0.5
        p = tuple(float(v) for v in x)
        if as_record:
            r = np.zeros(1, dtype=[(k, np.float64) for k in names] + [('weight', np.float64)])
            for k, v in zip(names, p):
                r[0][k] = v
            pt = r[0]
        else:
            pt = p
        if m.tree and m.tree_fresh:
            k = m.o.compute_cell_index(pt)
            run.probes['cell_found'] += 1
            if not (0 <= int(k) < nc and g.contains(int(k), x, 1e-9)):
                raise Violation('cell_index', '%s: mesh %s: the point %s is in cell %d, compute_cell_index() says %r' % (tag, m.name, p, c, int(k)))
            if rng.random() < 0.3:      # a point outside of the mesh
                y = x.copy()
                a = rng.randrange(d)
                s = float((hi - lo)[a])
                y[a] = hi[a] + s * 10 ** rng.uniform(-3, 1) if rng.random() < 0.5 else lo[a] - s * 10 ** rng.uniform(-3, 1)
                run.fault('point_outside')
                try:
                    k = m.o.compute_cell_index(tuple(float(v) for v in y))
                except (SystemExit, Exception) as e:
                    k = D.Mesh_C.NO_CELL
                if int(k) != D.Mesh_C.NO_CELL:
                    raise Violation('cell_index', '%s: mesh %s: the point %s lies outside, compute_cell_index() says %r' % (tag, m.name, y.tolist(), int(k)))
        if m.dicts and m.fresh:
            for q in {c, rng.randrange(nc), rng.randrange(nc)}:
                bb = g.bary(q, x).min()
                if abs(bb) < 1e-7:
                    continue
                run.probes['inside_asked'] += 1
                if bool(m.o.is_inside_cell(pt, q)) != (bb > 0):
                    raise Violation('inside', '%s: mesh %s: is_inside_cell() says %r for the point %s and cell %d' % (tag, m.name, not bb > 0, p, q))
            # the facet a path leaves the cell through
            size = float(np.abs(m.X[m.cells[c]] - x).max())
            dr = np.array([rng.gauss(0, 1) for _ in range(d)]) * size * 10 ** rng.uniform(-1.5, 1.5)
            if d > 1 and rng.random() < 0.2:
                dr[rng.randrange(d)] = 0.0
            if rng.random() < 0.05:
                dr[:] = 0.0
            fs = list(m.o.cell_entity_indices_dict['facet'][c])
            db = g.bary(c, x + dr) - b
            ts = []
            for j in range(d + 1):
                if db[j] < 0:
                    ts.append((b[j] / -db[j], j))
            ts.sort()
            out = [t for t in ts if t[0] < 1.0]
            if any(abs(t[0] - 1.0) < 1e-6 for t in ts) or (len(out) > 1 and out[1][0] - out[0][0] < 1e-6):
                run.probes['degenerate_path'] += 1
                continue
            x0 = x.copy()
            res = m.o.find_facet(x0 if rng.random() < 0.5 else tuple(float(v) for v in x0), dr, c)
            run.probes['facet_found' if out else 'stays_in_cell'] += 1
            if (x0 != x).any():
                raise Violation('find_facet', '%s: find_facet() changed the position it was given' % tag)
            if not out:
                if res[0] != D.Mesh_C.NO_FACET or not abs(float(res[1]) - 1.0) < 1e-12:
                    raise Violation('find_facet', '%s: mesh %s: the path %s + %s stays in cell %d, find_facet() says %r' % (tag, m.name, p, dr.tolist(), c, res))
                continue
            t, j = out[0]
            # vertex j is opposite to the facet that is left
            want = [i for i, f in enumerate(fs) if m.cells[c][j] not in g.facets[f]][0]
            n = np.array(res[2], dtype=float).reshape(-1)
            f = fs[want]
            w = g.N[f] * (1.0 if g.N[f] @ dr > 0 else -1.0)
            if int(res[0]) != want or not abs(float(res[1]) - t) <= 1e-7 or n.shape != w.shape or np.abs(n - w).max() > 1e-9:
                raise Violation('find_facet', '%s: mesh %s: the path %s + %s leaves cell %d at %r of its length through facet %d with normal %s, '
                                'find_facet() says %r' % (tag, m.name, p, dr.tolist(), c, t, want, w.tolist(), res))
    run.nontrivial = True


def by_place(pred, tags):
    def f(i, g):
        if not g.exterior[i]:
            return 0
        for k, p in enumerate(pred):
            if all(p(x) for x in g.X[g.facets[i]]):
                return tags[k]
        return 0
    return f


def by_list(want):
    """marks known per set of facet vertices"""
    return lambda i, g: want.get(tuple(sorted(int(v) for v in g.facets[i])), 0)


def simulate(case, run):
    import dolfin as df
    D = W.mods()['D']
    ms = []
    files = [0]

    def adopt(o, name, coords, sph, flags, **kw):
        m = M(o, name, coords, sph, flags)
        for k, v in kw.items():
            setattr(m, k, v)
        ms.append(m)
        return m

    def saved(thing):
        files[0] += 1
        fn = os.path.abspath('f%d.xml' % files[0])
        df.File(fn) << thing
        return fn

    def hurt(fault, names):
        """Damage one of the files; returns whether reading has to fail."""
        fn = names[fault[2] % len(names)]
        run.fault('file_' + fault[0])
        if fault[0] == 'missing':
            os.remove(fn)
        elif fault[0] == 'empty':
            open(fn, 'w').close()
        else:
            b = open(fn, 'rb').read()
            b = b[:int(fault[1] * (len(b) - 12))]
            open(fn, 'wb').write(b)

    def make(op, tag):
        kind, fl, fault = op['kind'], op['flags'], op.get('fault')
        kw = dict(compute_dictionaries=fl[0], compute_cpp_arrays=fl[1], compute_tree=fl[2])
        refuse = False
        post = None
        if kind in ('object', 'copy', 'file', 'marks'):
            old = ms[op['of'] % len(ms)] if op['of'] is not None and ms else None
            if old is None:
                base, _ = build_mesh(op['w'])
                X, sph = np.array(base.coordinates()), op['w']['dim'] == 'r'
            else:
                base, X, sph = old.o.mesh, old.X, old.sph
            cs = '1D-spherical-radial' if sph else 'Cartesian'
            if kind == 'object':
                if old is not None:     # two objects on the same mesh: their vertices stay together
                    build = lambda: D.Mesh_C(Mesh=base, coordinate_system=cs, **kw)
                    post = dict(shares=old)
                else:
                    build = lambda: D.Mesh_C(Mesh=base, coordinate_system=cs, **kw)
            elif kind == 'copy':
                build = lambda: D.Mesh_C(mesh_to_copy=base, coordinate_system=cs, **kw)
            else:
                names = [saved(base)]
                want = None
                if kind == 'marks':
                    g = Geometry(base)
                    mf = df.MeshFunction('size_t', base, g.d - 1)
                    mr = random.Random(op['seed'])
                    want = {}
                    for f in range(len(g.facets)):
                        mf[f] = mr.choice([0, 0, 1, 2, 7])
                        want[tuple(sorted(int(v) for v in g.facets[f]))] = int(mf[f])
                    names.append(saved(mf))
                if fault and fault[0] != 'alloc':
                    hurt(fault, names)
                    refuse = True
                if kind == 'marks':
                    build = lambda: D.Mesh_C(mesh_file=names[0], coordinate_system=cs, field_boundary_marker_file=names[1], **kw)
                    post = dict(fmark=by_list(want))
                else:
                    build = lambda: D.Mesh_C(mesh_file=names[0], coordinate_system=cs, **kw)
            what = (X, sph, post or {})
        elif kind == 'user':
            from UserMesh_y_Fields_FE_XYZ_Module import UserMesh_C, UserMeshInput_C
            d, lo, hi, n = len(op['n']), op['lo'], op['hi'], op['n']
            i = UserMeshInput_C()
            i.pmin, i.pmax = df.Point(*lo), df.Point(*hi)
            i.cells_on_side = tuple(n)
            if d == 2:
                i.diagonal = op['diag']
            sides = ['xmin', 'xmax', 'ymin', 'ymax']
            near = lambda a, v: (lambda x: abs(x[a] - v) < 1e-9)
            post = {'domain': float(np.prod([h - l for l, h in zip(lo, hi)]))}
            if op['pmarks']:
                names = [c + e for c in 'xyz'[:d] for e in ('min', 'max')]
                i.particle_boundary_dict = dict(zip(names, op['tags']))
                post['pmark'] = by_place([near(c, v) for c in range(d) for v in (lo[c], hi[c])], op['tags'])
            if op['fmarks']:
                i.field_boundary_dict = dict(zip(sides[:2], op['tags']))
                post['fmark'] = by_place([near(0, lo[0]), near(0, hi[0])], op['tags'])
            build = lambda: UserMesh_C(i, **kw)
            if fault and fault[0] == 'plot_file_fails':
                nm = {1: 'X', 2: 'XY', 3: 'XYZ'}[d] + '-mesh'
                for e in ('000000.vtu', '.pvd'):
                    if os.path.exists(nm + e):
                        os.remove(nm + e)
                    os.mkdir(nm + e)
                run.fault('plot_file_fails')
                refuse = None
            X = None
            what = (None, False, post)
        else:
            circ = kind.startswith('circ')
            if circ:
                from UserMesh_y_Fields_FE2D_Module import UserMesh2DCirc_C as C, UserMeshInput2DCirc_C as I
            else:
                from UserMesh_y_Fields_Spherical1D_Module import UserMesh1DS_C as C, UserMeshInput1DS_C as I
            i = I()
            i.rmin, i.rmax, i.nr, i.stretch = op['rmin'], op['rmax'], op['nr'], op['stretch']
            if circ:
                i.tmax, i.nt, i.diagonal = op['tmax'], op['nt'], op['diag']
            a, b, tm, tg = op['rmin'], op['rmax'], op['tmax'], op['tags']
            tol = 1e-8 * b
            if circ:
                rad = lambda v: (lambda x: abs(math.hypot(x[0], x[1]) - v) < tol)
                ang = lambda v: (lambda x: abs(x[0] * math.sin(v) - x[1] * math.cos(v)) < tol)
                places = [rad(a), rad(b), ang(0.0), ang(tm)]
            else:
                at = lambda v: (lambda x: abs(x[0] - v) < tol)
                places = [at(a), at(b)]
            post = {}
            if not circ:
                post['domain'] = shell(a, b)
            sides = ['rmin', 'rmax', 'thmin', 'thmax']
            if op['pmarks']:
                i.particle_boundary_dict = dict(zip(sides[:4 if circ else 2], tg))
                post['pmark'] = by_place(places, tg)
            if op['fmarks']:
                i.field_boundary_dict = dict(zip(sides[:2], tg))
                post['fmark'] = by_place(places[:2], tg)
            X = None
            if kind.endswith('file'):
                src = C(i)
                X = np.array(src.mesh.coordinates())
                names = [saved(src.mesh)]
                i2 = I()
                i2.mesh_file = names[0]
                i2.field_boundary_dict, i2.particle_boundary_dict = i.field_boundary_dict, i.particle_boundary_dict
                if op['pmarks']:
                    names.append(saved(src.particle_boundary_marker))
                    i2.particle_boundary_file = names[-1]
                if op['fmarks']:
                    names.append(saved(src.field_boundary_marker))
                    i2.field_boundary_file = names[-1]
                if fault and fault[0] != 'alloc':
                    hurt(fault, names)
                    refuse = True
                i = i2
            build = lambda: C(i, **kw)
            what = (X, not circ, post)
        if fault and fault[0] == 'alloc':
            refuse = None
            try:
                with seams.alloc_fault(fault[1], plain=True) as af:
                    build()
            except MemoryError:
                run.fault('allocation_fails')
            refuse = False
        if refuse is None:      # the file for the plot cannot be written: refused or not, the next one works
            try:
                build()
            except Exception:
                pass
            os.rmdir(nm + '.pvd')
            os.rmdir(nm + '000000.vtu')
        if refuse:
            try:
                build()
            except Exception as e:
                run.event('refused', kind)
                return
            raise Violation('damaged_file', '%s: a mesh was made (%s) from a file that is %s' % (tag, kind, fault[0]))
        o = build()
        X, sph, kw2 = what
        old = kw2.pop('shares', None)
        if X is None:
            X = np.array(o.mesh.coordinates())
            if kind == 'user':
                place(o.mesh, expected_box(op, o.mesh), tag, kind)
                if o.mesh.num_cells() != cells_of(op):
                    raise Violation('cells', '%s: %d cells, should be %d' % (tag, o.mesh.num_cells(), cells_of(op)))
            else:
                place(o.mesh, expected_round(op), tag, kind)
        m = adopt(o, '%d (%s)' % (len(ms), kind), X, sph, fl, **kw2)
        for k in ('field_boundary_dict', 'particle_boundary_dict'):
            if kind in ('user', 'sph', 'circ', 'sphfile', 'circfile') and getattr(o, k) != getattr(i, k):
                raise Violation('marks', '%s: %s is %r, was given as %r' % (tag, k, getattr(o, k), getattr(i, k)))
        if old is not None:
            m.tree_fresh = old.tree_fresh or not fl[2]
            m.group = old.group = getattr(old, 'group', None) or [old]
            m.group.append(m)

    for ti, op in enumerate(case['ops']):
        tag = 'op %d %s' % (ti, op['op'])
        run.op(op['op'] + ('_' + op['kind'] if op['op'] == 'make' else ''))
        if op['op'] == 'make':
            make(op, tag)
        elif not ms:
            continue
        elif op['op'] == 'deform':
            m = ms[op['k'] % len(ms)]
            rng = random.Random(op['seed'])
            g = m.geometry()
            h = 0.05 * min(np.abs(m.X[c][:, None] - m.X[c][None]).max(2)[~np.eye(len(c), dtype=bool)].min() for c in m.cells)
            h = min(h, 0.05 * min(abs(g.vol[c]) / np.abs(m.X[m.cells[c]] - m.X[m.cells[c]].mean(0)).max() ** (g.d - 1) for c in range(len(m.cells))))
            Y = m.X + np.array([[rng.uniform(-h, h) for _ in range(g.d)] for _ in m.X])
            if m.sph:
                Y = np.abs(Y)
            m.o.mesh.coordinates()[:, :] = Y
            for q in getattr(m, 'group', None) or [m]:
                q.X, q.fresh, q.tree_fresh, q.domain, q.fmark, q.pmark = Y, False, False, None, None, None
        elif op['op'] == 'tables':
            m = ms[op['k'] % len(ms)]
            o = m.o
            todo = []
            if m.dicts:
                todo += [o.compute_cell_dict, o.compute_cell_vertices_dict, lambda: o.compute_cell_entity_indices_dict('facet'),
                         o.compute_vertex_cells_dict, o.compute_cell_facet_normals_dict, o.compute_cell_neighbors_dict, o.compute_cell_volume_dict]
            if m.cpp:
                todo.append(o.compute_cpp_arrays)
            if op['fault'] is not None:
                try:
                    with seams.alloc_fault(op['fault'], plain=True):
                        for f in todo:
                            f()
                except MemoryError:
                    run.fault('allocation_fails')
            if m.fresh and op['which'] is not None and op['fault'] is None:
                todo = todo[op['which']:op['which'] + 1]
            for f in todo:
                f()
            m.fresh = True
            if m.tree:
                o.mesh.bounding_box_tree().build(o.mesh)
                for q in getattr(m, 'group', None) or [m]:
                    q.tree_fresh = True
        else:
            query(ms[op['k'] % len(ms)], op, run, tag, D)
        for m in ms:
            check_tables(m, tag)
        run.event(tag, len(ms), [float(np.abs(m.X).sum()) for m in ms])
        run.state(op['op'], op.get('kind'), tuple(sorted((len(m.cells), m.X.shape[1], m.sph, m.fresh) for m in ms)))
        run.sim_time += 1
    for m in ms:
        run.probes['dim_%s' % ('r' if m.sph else 'x' * m.X.shape[1])] += 1


def place(mesh, want, tag, kind):
    X = np.array(mesh.coordinates())
    s = float(np.abs(want).max()) or 1.0
    key = lambda A: A[np.lexsort(np.round(A / s, 7).T)]
    if X.shape != want.shape or np.abs(key(X) - key(want)).max() > 1e-9 * s:
        raise Violation('vertices', '%s: the vertices of the mesh (%s) are %s, should be %s' % (tag, kind, key(X).tolist(), key(want).tolist()))


def cells_of(op):
    n = op['n']
    k = {1: 1, 2: 4 if op['diag'] == 'crossed' else 2, 3: 6}[len(n)]
    return k * int(np.prod(n))


def expected_box(op, mesh):
    ax = [l + (h - l) * np.arange(n + 1) / n for l, h, n in zip(op['lo'], op['hi'], op['n'])]
    P = np.stack([a.reshape(-1) for a in np.meshgrid(*ax, indexing='ij')], 1)
    if len(ax) == 2 and op['diag'] == 'crossed':
        mid = [(a[1:] + a[:-1]) / 2 for a in ax]
        P = np.concatenate([P, np.stack([a.reshape(-1) for a in np.meshgrid(*mid, indexing='ij')], 1)])
    return P


def expected_round(op):
    a, b = op['rmin'], op['rmax']
    r = lambda t: a + (b - a) * t ** op['stretch']
    t = np.arange(op['nr'] + 1) / op['nr']
    if op['kind'].startswith('sph'):
        return r(t).reshape(-1, 1)
    u = np.arange(op['nt'] + 1) / op['nt']
    T, U = [x.reshape(-1) for x in np.meshgrid(t, u, indexing='ij')]
    if op['diag'] == 'crossed':
        T2, U2 = [x.reshape(-1) for x in np.meshgrid((t[1:] + t[:-1]) / 2, (u[1:] + u[:-1]) / 2, indexing='ij')]
        T, U = np.concatenate([T, T2]), np.concatenate([U, U2])
    R = r(T)
    return np.stack([R * np.cos(op['tmax'] * U), R * np.sin(op['tmax'] * U)], 1)
