"""Debug aid: run one case in this process.  python -m dtsim.main is the real interface."""
import json, os, sys, faulthandler
from . import env, build, core
def go():
    lib = build.ensure(); env.load(lib)
    from . import disk, seams, main
    seams.install(); seams.install_native(lib)
    disk.install()
    if sys.argv[1].endswith('.json'):
        rp = json.load(open(sys.argv[1])); mod = main.module(rp['property'], '1'); cases = rp['cases']; mod.prepare()
    else:
        mod = main.module(sys.argv[1], os.environ.get('VERIF_SEED', '1')); mod.prepare(); cases = [mod.generate_indexed(int(sys.argv[2]))]
    faulthandler.enable(); faulthandler.dump_traceback_later(20, exit=True)
    os.makedirs('/tmp/one', exist_ok=True); os.chdir('/tmp/one')
    for c in cases:
        r = core.execute_case(mod, c)
    v = r['violation']
    print(v and v['kind'], v and v['msg'], file=sys.stderr)
    if v and v.get('tb'): print(v['tb'], file=sys.stderr)
go()
