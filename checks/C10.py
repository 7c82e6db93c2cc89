import os, shutil, glob, atexit
import vb
TAG = str(os.getpid())
atexit.register(lambda: [shutil.rmtree(d, ignore_errors=True) for d in glob.glob('/dev/shm/c10_%s_*' % TAG)])
NEED = 'Executive JobData SimObject CheckPointRestart Scheduler ScheduledJobQueue'.split()
def prepare(c, h):
    """the attributes of the simulation, written by the tree's own trick-ICG"""
    d = vb.BUILD + '/run/C10/gen'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    exe = vb.icg(); e = dict(vb.env(), TRICK_HOME=vb.REPO)
    shutil.copy(vb.VERIF + '/checks/c10/c10_types.hh', d); open(d + '/S_source.hh', 'w').write('#include "c10_types.hh"\n')
    inc = ['-I' + vb.REPO + '/include', '-I' + vb.REPO + '/trick_source', '-I/usr/include/python3.12', '-I/usr/include/libxml2']
    r = vb.run([exe] + inc + ['S_source.hh'], cwd=d, env=e)
    r2 = vb.run([exe, '-sim_services', '-o', d + '/lib'] + inc + [vb.REPO + '/include/trick/files_to_ICG.hh'], cwd=d, env=e)
    f = [d + '/build' + d + '/io_c10_types.cpp'] + [d + '/lib/io_%s.cpp' % x for x in NEED]
    miss = [x for x in f if not os.path.exists(x)]
    if miss: raise vb.BuildError('trick-ICG writes no %s: %s' % (miss, r.stdout[-1000:] + r2.stdout[-1000:]))
    return dict(main=h['main'] + f, main_flags=h['main_flags'] + ['-I' + d])
MM = vb.MM
H = [dict(name='restart', main=['C10_restart.cc'], prepare=prepare, main_flags=['-fno-access-control', '-Wno-invalid-offsetof'],
     srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent CheckPointRestart UdUnits UnitsMap Scheduler'.split()] + [vb.UTL + 'trick_adt/src'], parsers=True,
     ldflags=['-rdynamic'], soft=True, flags=['-O0'], timeout=60, max_seconds=100, max_seconds_thorough=800,
     env={'C10_TAG': TAG}, bounds='5 simulations of 1-3 jobs (3-4 s, frames of 1 or 2 s) x 8 perturbations before the checkpoint; checkpoint in every call, at every quarter second, before and after initialization, safestore of 3 periods; loaded by the input file, in a freeze at the start (2 points), after every frame (thorough: every call) of a new or of the same process, with 8 changes before the load to undo (quick: for two of the simulations without perturbation)', libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lpython3.12', '-lrt', '-lm', '-ldl'])]
ASSUMPTIONS = ['one thread and no realtime pacing; a load requested in a run takes place at the end of its frame, whose remaining jobs still run; events, integrators and data recording are no part of these simulations (C13 covers recording)']
