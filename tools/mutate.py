"""Development tool: mutants of /repo's Python modules against the checks.
  mutate.py N SLOTS SEED OUT [FILE..]      needs the line coverage of tools/cover.py in /tmp/cov; run it from a copy of /verif
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['Particle_Module.py', 'Dolfin_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py',
         'UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py', 'UserMesh_y_Fields_FE2D_Module.py']
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    out = []

    def seg(n, new):
        if isinstance(new, ast.AST):
            new = ast.unparse(new)
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new))
    import copy
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print',):
            for k in ast.walk(n):
                doc.add(k)
    for n in ast.walk(tree):
        if n in doc or (hasattr(n, 'lineno') and 'fncName' in src.split('\n')[n.lineno - 1]):
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n)
            m.ops[0] = CMP[type(n.ops[0])]()
            seg(n, '(%s)' % ast.unparse(m))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            seg(n, '(%s)' % ast.unparse(m))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            seg(n, str(n.value + 1))
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            seg(n, repr(n.value * 1.5 + 0.5))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            seg(n, repr(not n.value))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            seg(n, '(%s)' % ast.unparse(m))
        elif isinstance(n, ast.AugAssign):
            m = copy.deepcopy(n)
            m.op = BIN.get(type(n.op), ast.Add)()
            seg(n, m)
            seg(n, 'pass')
        elif isinstance(n, ast.Assign):
            seg(n, 'pass')
            if isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Slice):
                m = copy.deepcopy(n)
                m.targets[0] = copy.deepcopy(n.targets[0].value)
                m.targets[0].ctx = ast.Store()
                seg(n, m)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            seg(n, 'pass')
        elif isinstance(n, (ast.Break, ast.Continue)):
            seg(n, 'pass')
        elif isinstance(n, ast.If):
            seg(n.test, 'not (%s)' % ast.unparse(n.test))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            seg(n, n.operand)
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
    return src, out


def apply(src, m):
    l0, c0, l1, c1, new = m
    L = src.split('\n')
    b = L[l0 - 1].encode()
    pre = b[:c0].decode()
    post = L[l1 - 1].encode()[c1:].decode()
    L[l0 - 1:l1] = [pre + new + post]
    return '\n'.join(L)


def main():
    n, slots, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    files = sys.argv[5:] or FILES
    cov = {}
    for f in os.listdir('/tmp/cov'):
        if f.endswith('.json'):
            for k, v in json.load(open('/tmp/cov/' + f)).items():
                for l in v:
                    cov.setdefault((os.path.basename(k), l), []).append(f[:-5])
    rng = random.Random(seed)
    todo = []
    for f in files:
        src, ms = mutants('/repo/' + f)
        for m in ms:
            p = [q for l in range(m[0], m[2] + 1) for q in cov.get((f, l), [])]
            if p:
                todo.append((f, src, m, sorted(set(p))))
    rng.shuffle(todo)
    print('mutants', len(todo), 'taking', n, flush=True)
    todo = todo[:n]
    prefer = ['C01', 'C08', 'C11', 'C12', 'C13', 'C09', 'C10', 'C07', 'C02', 'C05', 'C03', 'C04', 'C06', 'C14']
    import queue
    free = queue.Queue()
    for i in range(slots):
        d = '/tmp/mut/%d' % i
        shutil.rmtree(d, True)
        os.makedirs(d)
        for f in os.listdir('/repo'):
            if f.endswith('.py'):
                shutil.copy('/repo/' + f, d)
        os.symlink('/repo/cpp', d + '/cpp')
        free.put(d)

    def go(item):
        f, src, m, props = item
        d = free.get()
        try:
            new = apply(src, m)
            tag = '%s:%d  %s  ->  %s' % (f, m[0], src.split('\n')[m[0] - 1].strip()[:90], m[4][:70])
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                return
            open(d + '/' + f, 'w').write(new)
            e = dict(os.environ, DTSIM_REPO=d)
            res = None
            for p in sorted(props, key=prefer.index):
                r = subprocess.run([V + '/check', p, '--n', '150', '--workers', '1', '--no-min', '--wall', '90', '--seed', 'm'], env=e, capture_output=True, text=True)
                if r.returncode != 0:
                    res = (p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith('run ') or 'HARNESS' in l][:1] or r.stdout[-200:] + r.stderr[-200:])
                    break
            shutil.copy('/repo/' + f, d)
            with open(out, 'a') as o:
                o.write(('KILLED %s rc=%d ' % res[:2] if res else 'SURVIVED %s ' % ','.join(props)) + tag + ('   ' + str(res[2])[:150] if res else '') + '\n')
        finally:
            free.put(d)
    with ThreadPoolExecutor(slots) as ex:
        for _ in ex.map(go, todo):
            pass


main()
