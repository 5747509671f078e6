"""Development tool: mutants of /repo's C++ sources against the checks.
  mutcpp.py N SLOTS SEED OUT [FILE..]      run it from a copy of /verif
"""
import os, random, re, shutil, subprocess, sys, queue
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['SegmentedArrayPair.h', 'MeshEntityArrays.cpp', 'MeshEntityArrays.h', 'Pstruct.h', 'ParticleMeshBoundaryConditions.h', 'UPBFs_spherical_r.h',
         'UserParticleBoundaryFunctions.h', 'UserParticleBoundaryFunctions_2D_e.h', 'particle.h', 'dolfin_functions.cpp',
         'advance_charged_species_in_E_field_cartesian_x.cpp', 'advance_charged_species_in_E_field_cartesian_xy.cpp',
         'advance_charged_species_in_E_field_spherical_r.cpp', 'advance_charged_species_in_uniform_fields_cartesian_xyz.cpp',
         'advance_neutral_species_cartesian_xy.cpp', 'advance_neutral_species_cartesian_xyz.cpp']
RULES = [(r'(?<![<\w])<(?![<=\w])', ' <= '), (r'(?<=\s)>(?=\s)', '>='), (r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'\+\+', ''), (r'\+=', '-='),
         (r'-=', '+='), (r'(?<=[\w\])]) ?\+ ?(?=[\w(])', ' - '), (r'(?<=[\w\])]) ?- ?(?=[\w(])', ' + '), (r'(?<=[\w\])]) ?\* ?(?=[\w(])', ' / '), (r'&&', '||'),
         (r'\|\|', '&&'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w])(\d+\.\d*)', lambda m: str(float(m.group(1)) * 1.5 + 0.5)),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'(?<=[=(,]) ?-(?=\w)', ' ')]


def mutants(path):
    src = open(path).read()
    # blank the comments, keep the length
    code = re.sub(r'/\*.*?\*/|//[^\n]*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), src, flags=re.S)
    out, pos = [], 0
    for n, line in enumerate(code.split('\n'), 1):
        t = line.strip()
        skip = not t or t.startswith('#') or re.search(r'cout|cerr|assert|template|using |include|typedef|std::string|m\.def|py::class_', t)
        if not skip:
            for rx, new in RULES:
                for m in re.finditer(rx, line):
                    if line[:m.start()].count('"') % 2:
                        continue
                    r = new(m) if callable(new) else new
                    out.append((n, pos + m.start(), pos + m.end(), r))
            if t.endswith(';') and re.match(r'[\w\[\].>()-]+(\s*[-+*]?=\s|\()', t) and not re.match(r'return|break|continue|delete', t):
                out.append((n, pos, pos + len(line), ';'))
        pos += len(line) + 1
    return src, out


def main():
    n, slots, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    files = sys.argv[5:] or FILES
    rng = random.Random(seed)
    todo = []
    for f in files:
        src, ms = mutants('/repo/cpp/' + f)
        todo += [(f, src, m) for m in ms]
    rng.shuffle(todo)
    print('mutants', len(todo), 'taking', n, flush=True)
    props = ['C01', 'C06', 'C15', 'C11', 'C07', 'C14']
    free = queue.Queue()
    for i in range(slots):
        d = '/tmp/mutc/%d' % i
        shutil.rmtree(d, True)
        os.makedirs(d)
        for f in os.listdir('/repo'):
            if f.endswith('.py'):
                shutil.copy('/repo/' + f, d)
        shutil.copytree('/repo/cpp', d + '/cpp')
        free.put(d)

    def go(item):
        f, src, m = item
        d = free.get()
        try:
            new = src[:m[1]] + m[3] + src[m[2]:]
            tag = '%s:%d  %s  ->  %s' % (f, m[0], src.split('\n')[m[0] - 1].strip()[:90], new.split('\n')[m[0] - 1].strip()[:90])
            open(d + '/cpp/' + f, 'w').write(new)
            e = dict(os.environ, DTSIM_REPO=d, DTSIM_BUILD=d + '/build/solibs')
            os.makedirs(d + '/build', exist_ok=True)
            res = None
            for p in props if f in ('SegmentedArrayPair.h', 'Pstruct.h') else ['C05'] if 'uniform' in f else props[1:]:
                r = subprocess.run([V + '/check', p, '--n', '200' if p != 'C14' else '60', '--workers', '1', '--no-min', '--wall', '90', '--seed', 'm'], env=e, capture_output=True, text=True)
                if r.returncode != 0:
                    res = (p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith('run ') or 'HARNESS' in l][:1] or r.stdout[-200:] + r.stderr[-200:])
                    break
            shutil.copy('/repo/cpp/' + f, d + '/cpp/' + f)
            if res and res[1] == 2 and 'build' in str(res[2]):
                return
            with open(out, 'a') as o:
                o.write(('KILLED %s rc=%d ' % res[:2] if res else 'SURVIVED ') + tag + ('   ' + str(res[2])[:150] if res else '') + '\n')
        finally:
            free.put(d)
    with ThreadPoolExecutor(slots) as ex:
        for _ in ex.map(go, todo[:n]):
            pass


main()
