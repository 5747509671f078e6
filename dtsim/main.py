"""Command line:  check <ID> [--tier quick|thorough] [--n N] [--workers W] [--logs FILE]
                  check replay <FILE>
                  check show <ID> <INDEX>      (print the generated case)
"""
import argparse, importlib, json, os, sys, time
from . import env

TIERS = ('quick', 'thorough')


def known_findings():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def module(prop, base):
    m = importlib.import_module('dtsim.props.' + prop.lower())
    from . import core
    import random

    def generate_indexed(i):
        rng = random.Random(core.run_seed(base, prop, i))
        c = m.generate(rng, i)
        c['_seed'] = [base, i]
        return json.loads(json.dumps(c))
    m.generate_indexed = generate_indexed
    if not hasattr(m, 'reductions'):
        from . import reduce
        m.reductions = reduce.generic
    return m


def main():
    env.reexec()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('args', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--n', type=int)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--logs')
    ap.add_argument('--all-failures', type=int, default=1)
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--wall', type=float)
    ap.add_argument('--trace', action='store_true')
    a = ap.parse_args()
    t_start = time.time()
    from . import build
    try:
        lib = build.ensure()
    except build.BuildError as e:
        print('BUILD FAILED', e)
        return 2
    env.load(lib)
    from . import core, disk, seams
    seams.install()
    seams.install_native(lib)
    disk.install()

    if a.what == 'setup':
        from . import world
        world.prepare()
        print('setup done in %.0f s' % (time.time() - t_start))
        return 0

    if a.what == 'replay':
        rp = json.load(open(a.args[0]))
        mod = module(rp['property'], rp.get('base_seed', '1'))
        mod.prepare()
        r = core.run_isolated(mod, rp['cases'], trace=True)
        v = r['violation']
        if a.trace and r['trace']:
            for l in r['trace']:
                print(l)
        if v is None:
            print('replay: no violation')
            return 0
        print('replay: %s: %s  log=%s' % (v['kind'], v['msg'], r['log'][:16]))
        if v.get('tb'):
            print(v['tb'])
        print('VIOLATION property=%s replay=%s' % (rp['property'], a.args[0]))
        return 1

    if a.what == 'show':
        mod = module(a.args[0], a.seed)
        mod.prepare()
        case = mod.generate_indexed(int(a.args[1]))
        print(json.dumps({'property': a.args[0], 'base_seed': a.seed, 'cases': [case]}))
        return 0

    prop = a.what
    mod = module(prop, a.seed)
    n = a.n or mod.RUNS[a.tier]
    wall = a.wall or (480 if a.tier == 'quick' else 3300)
    print('check %s tier=%s seed=%s runs=%d' % (prop, a.tier, a.seed, n), flush=True)
    mod.prepare()
    t_ready = time.time()
    findings = [f for f in known_findings() if f['property'] == prop and f['status'] == 'known']
    hits = {}

    def is_known(v):
        for f in findings:
            if v['kind'] == f['kind'] and all(s in v['msg'] for s in f['match']):
                hits[f['id']] = hits.get(f['id'], 0) + 1
                return True
        return False
    s = core.Search(mod, n, t_start + wall, workers=a.workers, keep_logs=bool(a.logs))
    s.max_failures = a.all_failures
    s.run(is_known)
    if a.logs:
        json.dump({str(k): v for k, v in sorted(s.logs.items())}, open(a.logs, 'w'))
    rc = 0
    violations = []
    if s.harness and not s.failures:
        print('HARNESS ERROR (no verdict):', s.harness[0][1])
        return 3
    for idx, v, prefix in s.failures[:a.all_failures]:
        rc = 1
        case = mod.generate_indexed(idx)
        print('run %d violates %s: %s: %s' % (idx, prop, v['kind'], v['msg']), flush=True)
        r = core.run_isolated(mod, [case])
        cases = [case]
        note = ''
        if r['violation'] is None:
            # depends on what ran before in the same process: keep the whole batch prefix
            cases = [mod.generate_indexed(j) for j in prefix] + [case]
            r = core.run_isolated(mod, cases)
            note = 'needs the preceding runs of its batch'
            if r['violation'] is None:
                note = 'did not repeat when run again'
        elif not a.no_min:
            kind = r['violation']['kind']
            small, tried = core.minimise(mod, case, kind, budget_s=45.0 if a.tier == 'quick' else 180.0)
            cases = [small]
            r2 = core.run_isolated(mod, cases)
            r3 = core.run_isolated(mod, cases)
            note = 'minimised in %d trials; two fresh replays %s' % (
                tried, 'agree' if r2['violation'] == r3['violation'] and r2['log'] == r3['log'] else 'DIFFER')
            if r2['violation']:
                r = r2
        os.makedirs(core.REPLAYS, exist_ok=True)
        path = os.path.join(core.REPLAYS, '%s-%s-%d.json' % (prop, a.seed, idx))
        json.dump({'property': prop, 'base_seed': a.seed, 'run': idx, 'cases': cases,
                   'violation': r['violation'] or v, 'note': note}, open(path, 'w'), indent=1)
        v = r['violation'] or v
        print('  %s (%s)' % (v['msg'], note))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        violations.append({'kind': v['kind'], 'msg': v['msg'], 'replay': path, 'run': idx})
    for f in findings:
        if f['id'] in hits or rc == 0:
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    write_evidence(mod, prop, a, s, t_start, t_ready, violations, hits)
    if rc == 0:
        print('ok: %d runs, %d distinct schedules, %d states, %.0f s (slowest run %.0f s)' %
              (s.done, len(s.shapes), len(s.states), time.time() - t_start, s.slowest))
    return rc


def write_evidence(mod, prop, a, s, t_start, t_ready, violations, hits):
    from . import core
    os.makedirs(core.EVIDENCE, exist_ok=True)
    wall = time.time() - t_start
    search = max(1e-6, s.wall)
    samples = []
    for i in list(range(0, 2)):
        c = mod.generate_indexed(i)
        samples.append(json.dumps(c)[:1500])
    dead = [p for p in getattr(mod, 'PROBES', []) if not s.probes.get(p)]
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(a.seed) if str(a.seed).isdigit() else 0,
        'level': mod.LEVEL,
        'coverage': {
            'evaluations': s.done,
            'distinct_nontrivial': len(s.shapes),   # see rule: trivial runs are not counted
            'rule': mod.RULE,
            'samples': samples,
            'runs_and_seeds_per_hour': round(3600.0 * s.done / search),
            'seeds': 'sha256(VERIF_SEED/property/index), index 0..%d' % max(0, s.done - 1),
            'simulated_time': {'unit': mod.TIME_UNIT, 'total': round(s.sim_time, 6)},
            'operations': dict(sorted(s.ops.items())),
            'faults_injected': dict(sorted(s.faults.items())),
            'probes': dict(sorted(s.probes.items())),
            'probes_never_reached': dead,
            'distinct_states': len(s.states),
            'state_measure': mod.STATE_MEASURE,
            'real_components': mod.REAL, 'stubbed_components': mod.STUBS,
            'truncated_by_wall_budget': s.truncated,
            'known_finding_hits': hits,
            'violations_found': violations,
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(wall, 1),
        'violations': len(violations),
    }
    tmp = os.path.join(core.EVIDENCE, '.%s.%d' % (prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1, sort_keys=False)
    os.replace(tmp, os.path.join(core.EVIDENCE, prop + '.json'))


if __name__ == '__main__':
    sys.exit(main())
