"""Builds the C++ modules of /repo/cpp, as they are now, into a private directory.

A check must see the code of /repo's working tree, but /repo's own build is not re-run
before it.  So the sources are mirrored by content into /verif/.build/solibs/src, and
/opt/vp/solibs.mk (the recipe /opt/vp/build.sh itself uses) builds the modules there.
Objects of the sandbox's own build are used as a starting point where they exist: make
then rebuilds what differs.  Nothing is written in /repo or /opt.
"""
import fcntl, os, shutil, subprocess, sys, sysconfig, time

REPO = os.environ.get('DTSIM_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get('DTSIM_BUILD', os.path.join(ROOT, '.build', 'solibs'))
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'
BF = 'user_particle_boundary_functions'
MODULES = ['dolfin_functions_solib', 'mesh_entity_arrays_solib', 'numpy_types_solib',
           'segmented_array_pair_solib', BF + '_cartesian_x_solib', BF + '_cartesian_xy_solib',
           BF + '_cartesian_xyz_solib', BF + '_2D_e_cartesian_xy_solib', 'upbfs_spherical_r_solib',
           'particle_cartesian_x_solib', 'particle_cartesian_xy_solib',
           'particle_cartesian_xyz_solib', 'particle_spherical_r_solib']


class BuildError(Exception):
    pass


def ensure(verbose=False):
    """Bring the private build up to date; returns the directory to put on sys.path."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(os.path.dirname(BUILD), os.path.basename(BUILD) + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(BUILD, 'src')
        seeded = os.path.join(BUILD, '.seeded')
        if not os.path.exists(seeded):
            base = '/opt/dt-build'
            if os.path.isdir(os.path.join(base, 'src')):
                # -a keeps the dates, so make sees the objects as up to date
                subprocess.run(['rsync', '-a', '--include=/src/', '--include=/src/**',
                                '--include=/*.o', '--include=/*.so', '--include=/*.o.d',
                                '--exclude=*', base + '/', BUILD + '/'], check=False)
            open(seeded, 'w').close()
        os.makedirs(src, exist_ok=True)
        r = subprocess.run(['rsync', '-rc', '--delete', '--include=*.cpp', '--include=*.h',
                            '--exclude=*', os.path.join(REPO, 'cpp') + '/', src + '/'],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError('rsync: ' + r.stderr)
        env = dict(os.environ)
        r = subprocess.run(['make', '-k', '-j8', '-f', '/opt/vp/solibs.mk'] + [m + '.so' for m in MODULES],
                           cwd=BUILD, capture_output=True, text=True, env=env)
        if r.returncode:
            raise BuildError('the C++ modules do not build:\n' + r.stdout[-3000:] + r.stderr[-3000:])
        lib = os.path.join(BUILD, 'lib')
        os.makedirs(lib, exist_ok=True)
        for m in MODULES:
            s = os.path.join(BUILD, m + '.so')
            d = os.path.join(lib, m + SUFFIX)
            if not os.path.exists(d) or os.stat(d).st_mtime_ns != os.stat(s).st_mtime_ns \
               or os.stat(d).st_size != os.stat(s).st_size:
                tmp = d + '.tmp%d' % os.getpid()
                shutil.copy2(s, tmp)
                os.replace(tmp, d)
        hook = os.path.join(lib, 'libdtsim_mem.so')
        src = os.path.join(HERE, 'memhook.c')
        if not os.path.exists(hook) or os.stat(hook).st_mtime < os.stat(src).st_mtime:
            tmp = hook + '.tmp%d' % os.getpid()
            r = subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('memhook.c does not build:\n' + r.stderr[-2000:])
            os.replace(tmp, hook)
    if verbose:
        print('build: %.1f s' % (time.time() - t0))
    return lib


if __name__ == '__main__':
    try:
        print(ensure(True))
    except BuildError as e:
        print(e)
        sys.exit(2)
