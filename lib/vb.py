"""Builds harnesses from /repo's current working tree; nothing is written under /repo."""
import os, sys, subprocess, hashlib, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
JOBS = os.cpu_count() or 4
SRC = REPO + '/trick_source/'
SIM = SRC + 'sim_services/'
UTL = SRC + 'trick_utils/'
def _which(x): return shutil.which(x)
def _py_inc():
    import sysconfig
    return sysconfig.get_paths()['include']
GCC, GXX = '/usr/bin/gcc', '/usr/bin/g++'
CCACHE = _which('ccache')
INC = ['-I' + REPO + '/include', '-I' + REPO + '/trick_source', '-I' + REPO + '/include/trick/compat',
       '-I' + REPO + '/trick_source/er7_utils/interface/include',
       '-isystem', '/usr/include/python3.12', '-I/usr/include/libxml2']
DEF = ['-DTRICK_VER=25', '-DTRICK_MINOR=0', '-DUSE_ER7_UTILS_INTEGRATORS', '-D_HAVE_GSL', '-D_GNU_SOURCE']

class BuildError(Exception): pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=BUILD + '/ccache', CCACHE_COMPILERCHECK='content', CCACHE_NOHASHDIR='1', LC_ALL='C.UTF-8', TRICK_HOME=REPO)
    e.pop('CCACHE_DISABLE', None)
    return e

def compile_one(src, obj, flags, std):
    cxx = not src.endswith('.c') or src.endswith('.lex.c')
    cmd = ([CCACHE] if CCACHE else []) + [GXX if cxx else GCC] + (['-std=' + std] if cxx else []) + \
        ['-g0', '-w', '-pthread', '-fno-strict-aliasing', '-ffunction-sections', '-fdata-sections'] + (['-x', 'c++'] if src.endswith('.lex.c') else []) + list(flags) + DEF + INC + ['-c', src, '-o', obj]
    r = run(cmd, env=env())
    if r.returncode != 0:
        return ' '.join(cmd) + '\n' + r.stdout[-3000:]
    return None

def expand(specs, exclude=()):
    """dirs, globs or files -> list of source files (generated parsers and ICG output are left out)"""
    out = []
    for s in specs:
        if os.path.isdir(s):
            c = sorted(sum((glob.glob(s + '/*' + x) for x in ('.cpp', '.c', '.cc', '.cxx')), []))
        elif any(ch in s for ch in '*?['):
            c = sorted(glob.glob(s))
        else:
            c = [s]
        for f in c:
            if any(x in f for x in exclude): continue
            if f.startswith(REPO) and (f.endswith(('.lex.c', '.tab.cpp', '.lex.cpp')) or '/io_src/' in f): continue
            if f not in out: out.append(f)
    return out

def build_objects(srcs, flags=('-O0',), std='c++17', tag='o', soft=False):
    """soft: files which do not compile are left out (files the repository's own build does not compile either)"""
    d = os.path.join(BUILD, tag); os.makedirs(d, exist_ok=True)
    jobs = []
    for s in srcs:
        o = os.path.join(d, s.lstrip('/').replace('/', '_') + '.o')
        if os.path.exists(o): os.unlink(o)
        jobs.append((s, o))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1], flags, std), jobs))
    errs = [r for r in res if r]
    if errs and not soft: raise BuildError(errs[0])
    return [o for (s, o), r in zip(jobs, res) if not r]

def archive(objs, path):
    if os.path.exists(path): os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    r = run(['ar', 'rcs', path] + objs)
    if r.returncode: raise BuildError(r.stdout)
    return path

def link(objs, archives, exe, flags=(), libs=()):
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = [GXX, '-g0', '-pthread', '-Wl,--gc-sections'] + list(flags) + objs + ['-Wl,--start-group'] + list(archives) + ['-Wl,--end-group'] + list(libs) + ['-o', exe]
    r = run(cmd, env=env())
    if r.returncode: raise BuildError(' '.join(cmd)[:2000] + '\n' + r.stdout[-6000:])
    return exe


PARSERS = {'adef': SIM + 'MemoryManager', 'ref': SIM + 'MemoryManager', 'input': SIM + 'CheckPointAgent'}
def parsers(names=('adef', 'ref', 'input')):
    """bison/flex sources of the memory manager and the checkpoint agent, generated outside /repo.
    Returns (sources, include flags)."""
    out, inc = [], []
    for n in names:
        d = PARSERS[n]
        g = os.path.join(BUILD, 'gen', n); os.makedirs(g, exist_ok=True)
        y = '%s/%s_parser' % (d, n)
        for cmd in (['bison', '-d', '-o', '%s/%s_parser.tab.cpp' % (g, n), y + '.y'], ['flex', '-o', '%s/%s_parser.lex.c' % (g, n), y + '.l']):
            r = run(cmd, env=env())
            if r.returncode: raise BuildError(' '.join(cmd) + r.stdout)
        out += ['%s/%s_parser.tab.cpp' % (g, n), '%s/%s_parser.lex.c' % (g, n)]
        for i in (g, d):
            if '-I' + i not in inc: inc.append('-I' + i)
    return out, inc

# sim_services directories that make up libtrick (FrameLog, Zeroconf etc. included)
SIMDIRS = [SIM + x for x in ('ExternalApplications Clock CheckPointAgent CheckPointRestart Collect CommandLineArguments DataRecord '
  'DebugPause EchoJobs Environment EventManager Executive FrameLog JITInputFile JSONVariableServer Integrator UnitTest MasterSlave '
  'MemoryManager Message MonteCarlo MonteCarloGeneration RealtimeInjector RealtimeSync ScheduledJobQueue Scheduler Sie SimObject '
  'SimTime ThreadBase Timer UdUnits UnitsMap VariableServer Zeroconf').split()]
UTLDIRS = [UTL + x for x in 'comm/src compareFloatingPoint/src interpolator/src math/src trick_adt/src unicode/src shm/src connection_handlers'.split()]
def core(flags=('-O0',), tag='core', dirs=None, extra=()):
    """the whole of libtrick as an archive, compiled from /repo's working tree"""
    ps, pinc = parsers()
    srcs = expand((dirs or (SIMDIRS + UTLDIRS)) + list(extra)) + ps
    objs = build_objects(srcs, list(flags) + pinc, tag=tag, soft=True)
    return archive(objs, os.path.join(BUILD, tag, 'lib%s.a' % tag))

# the memory manager and the checkpoint agent
MM = dict(srcs=[SIM + 'MemoryManager', SIM + 'CheckPointAgent', SIM + 'UnitsMap', SIM + 'UdUnits', UTL + 'trick_adt/src'], parsers=True, main_flags=['-I' + VERIF + '/checks/mm'], src_flags=['-I' + VERIF + '/checks/mm'],
          ldflags=['-rdynamic'], libs=['-ldl', '-ludunits2', '-lxml2', '-lpython3.12', '-lm'])

def icg():
    """trick-ICG, compiled from the working tree; kept by the content of its sources"""
    d = SRC + 'codegen/Interface_Code_Gen'
    srcs = sorted(glob.glob(d + '/*.cpp')) + [SIM + 'UdUnits/map_trick_units_to_udunits.cpp']
    hd = sorted(glob.glob(d + '/*.hh')) + [REPO + '/include/trick/map_trick_units_to_udunits.hh']
    k = hashlib.sha256(b''.join(open(f, 'rb').read() for f in srcs + hd)).hexdigest()[:16]
    exe = BUILD + '/icg/' + k + '/trick-ICG'
    if os.path.exists(exe): return exe
    shutil.rmtree(BUILD + '/icg', ignore_errors=True); os.makedirs(os.path.dirname(exe))
    L = '/usr/lib/llvm-18'
    fl = ['-g0', '-w', '-O0', '-std=c++17', '-fno-rtti', '-I' + L + '/include', '-I' + d, '-I' + REPO + '/include'] + ['-D__STDC_%s_MACROS' % x for x in ('CONSTANT', 'FORMAT', 'LIMIT')] + \
         ['-DLIBCLANG_MAJOR=18', '-DLIBCLANG_MINOR=1', '-DLIBCLANG_PATCHLEVEL=3', '-DTRICK_GCC_VERSION="13"', '-DLLVM_HOME="%s"' % L, '-DTRICK_VERSION="25"']
    w = os.path.dirname(exe)
    pre = w + '/pre.hh'
    open(pre, 'w').write(''.join('#include "%s"\n' % x for x in ('clang/Frontend/CompilerInstance.h', 'clang/AST/RecursiveASTVisitor.h', 'clang/Sema/Sema.h', 'clang/Lex/Preprocessor.h', 'llvm/Support/CommandLine.h')))
    r = run([GXX] + fl + ['-x', 'c++-header', pre, '-o', pre + '.gch'], env=env())
    use = ['-include', pre] if r.returncode == 0 else []
    def one(f):
        o = w + '/' + os.path.basename(f) + '.o'
        r = run([GXX] + fl + use + ['-c', f, '-o', o], env=env())
        if r.returncode: raise BuildError(f + '\n' + r.stdout[-3000:])
        return o
    with ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(one, srcs))
    cfg = run([L + '/bin/llvm-config', '--ldflags', '--libs', '--system-libs']).stdout.split()
    r = run([GXX] + objs + ['-o', exe + '.tmp'] + ['-lclang' + x for x in 'Frontend Driver Serialization Parse Sema Analysis Edit AST ASTMatchers APINotes Lex Basic Support'.split()] + cfg + ['-ludunits2'])
    if r.returncode: raise BuildError(r.stdout[-3000:])
    for o in objs + [pre + '.gch']:
        if os.path.exists(o): os.unlink(o)
    os.rename(exe + '.tmp', exe)
    return exe
