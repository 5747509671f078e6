"""Development tool: which lines of /repo's Python modules the checks execute.  cover.py N [PROP..]"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def one(prop, n, out):
    from dtsim import env, build, core
    hit = {}
    mon = sys.monitoring
    mon.use_tool_id(1, 'cover')

    def line(code, no):
        if code.co_filename.startswith('/repo/'):
            hit.setdefault(code.co_filename, set()).add(no)
        return mon.DISABLE
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    env.load(build.ensure())
    from dtsim import disk, seams, main
    seams.install()
    disk.install()
    mod = main.module(prop, '7')
    mod.prepare()
    os.makedirs('/tmp/cov/d%s' % prop, exist_ok=True)
    os.chdir('/tmp/cov/d%s' % prop)
    import multiprocessing
    for base in range(0, n, 20):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for i in range(base, base + 20):
                    core.execute_case(mod, mod.generate_indexed(i))
            finally:
                os.write(w, json.dumps({k: sorted(v) for k, v in hit.items()}).encode())
                os._exit(0)
        os.close(w)
        d = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            d += b
        os.waitpid(pid, 0)
        if d:
            for k, v in json.loads(d).items():
                hit.setdefault(k, set()).update(v)
    json.dump({k: sorted(v) for k, v in hit.items()}, open(out, 'w'))


def lines(path):
    res = {}

    def walk(c, name):
        for k in c.co_consts:
            if hasattr(k, 'co_code'):
                walk(k, name + [k.co_name])
        if name:
            for _, _, l in c.co_lines():
                if l and l != c.co_firstlineno:
                    res[l] = '.'.join(name)
    walk(compile(open(path).read(), path, 'exec'), [])
    return res


if __name__ == '__main__':
    if sys.argv[1] == '--one':
        one(sys.argv[2], int(sys.argv[3]), sys.argv[4])
        sys.exit()
    import subprocess
    n = sys.argv[1]
    props = sys.argv[2:] or ['C%02d' % i for i in range(2, 15)]
    ps = [subprocess.Popen(['bash', '-c', '. /opt/vp/env.sh; exec /opt/venv/bin/python %s --one %s %s /tmp/cov/%s.json >/dev/null 2>/tmp/cov/%s.err' % (__file__, p, n, p, p)]) for p in props]
    for p in ps:
        p.wait()
    hit = {}
    for p in props:
        if os.path.exists('/tmp/cov/%s.json' % p):
            for k, v in json.load(open('/tmp/cov/%s.json' % p)).items():
                hit.setdefault(k, set()).update(v)
        else:
            print('no result for', p, open('/tmp/cov/%s.err' % p).read()[-300:])
    for f in sorted(hit):
        L = lines(f)
        miss = sorted(l for l in L if l not in hit[f])
        fn = {}
        for l in miss:
            fn.setdefault(L[l], []).append(l)
        tot = {}
        for l in L:
            tot[L[l]] = tot.get(L[l], 0) + 1
        print(f, len(L) - len(miss), '/', len(L))
        for k in fn:
            print('   ', k, '%d/%d missed' % (len(fn[k]), tot[k]), fn[k] if len(fn[k]) < tot[k] - 1 else 'ALL')
