"""Development tool for planted bugs (not used by any check).
  bug.py new ID PROP      take /repo's uncommitted diff as the patch of seeded/ID (demo.py, meta.json written by hand), undo it
  bug.py try ID [P..]     apply, build, tests, demo, run the checks P (default: its property), undo
  bug.py all [P..]        try every bug (no tests)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def new(i):
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    r = sh('git -C /repo diff')
    assert r.stdout
    open(d + '/patch.diff', 'w').write(r.stdout)
    shutil.copy(V + '/tools/demo_lib.py', d + '/demo_lib.py')
    shutil.copy(V + '/tools/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    sh('git -C /repo checkout -- .')


def tests():
    sh('bash /opt/vp/test.sh /tmp/o.json')
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ps = set(json.load(open('/tmp/o.json'))['passed'])
    return [t for t in st if t not in ps]


def try_(i, props, with_tests=True):
    d = os.path.join(S, i)
    meta = json.load(open(d + '/meta.json'))
    props = props or [meta['property']]
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty /repo'
    out = []
    if with_tests:
        sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        out.append('demo clean rc=%d%s' % (r.returncode, '' if r.returncode == 0 else ' !!!!! ' + (r.stdout + r.stderr)[-300:]))
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            return [i, 'DOES NOT APPLY ' + r.stderr]
        if with_tests:
            r = sh('bash /opt/vp/build.sh')
            out.append('build rc=%d' % r.returncode)
            r = sh('bash %s/demo.sh' % d, cwd='/repo')
            out.append('demo patched rc=%d %s' % (r.returncode, '!!!!!' if r.returncode == 0 else [l for l in (r.stdout + r.stderr).splitlines() if l][-1][:150]))
            out.append('tests failing: %r' % tests())
        for p in props:
            r = sh('%s/check %s' % (V, p))
            v = [l for l in r.stdout.splitlines() if l.startswith('run ')]
            out.append('%s rc=%d %s' % (p, r.returncode, (v[0][:230] if v else (r.stdout + r.stderr)[-200:])))
    finally:
        sh('git -C /repo checkout -- .')
        if with_tests:
            sh('bash /opt/vp/build.sh')
    return [i] + out


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'new':
        new(a[2])
        json.dump({'property': a[3], 'needs': a[4], 'what_it_breaks': a[5]}, open(os.path.join(S, a[2], 'meta.json'), 'w'), indent=1)
    elif a[1] == 'try':
        print('\n   '.join(try_(a[2], a[3:])), flush=True)
    else:
        for i in sorted(os.listdir(S)):
            print('\n   '.join(try_(i, a[2:], False)), flush=True)
