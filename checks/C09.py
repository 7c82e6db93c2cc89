import os, sys, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor
import vb
_s = importlib.util.spec_from_file_location('c09_gen', vb.VERIF + '/checks/c09/gen.py'); gen = importlib.util.module_from_spec(_s); _s.loader.exec_module(gen)
MM = dict(vb.MM)
H = [dict(name='icg', main=['C09_icg.cc'], **dict(MM, main_flags=['-fno-access-control', '-Wno-invalid-offsetof', '-O0', '-I' + vb.VERIF + '/checks/c09'], srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp', vb.SIM + 'UnitsMap/UnitsMap.cpp']),
          flags=['-O0'], timeout=120, bounds='')]
BOUNDS = ('members: 31 types x 14 shapes (8 not describable) x 5 contexts; 28 indescribable types; 12 containers x 20 element types; bit-fields: every sequence of 1-2 out of 14 and 3 out of 9 kinds; '
          'comments: 7 styles x 17 permissions x 13 checkpoint permissions x 3 units + 17 x 5 x 12 units x 5 descriptions; inheritance: every graph of three roots and one or two levels with virtual/access/hiding variants; templates; enumerations over 13 underlying types')

def compile_io(f, d):
    """as a simulation compiles it: access control holds, narrowing is an error. Returns (object, error)"""
    o = d + '/' + os.path.basename(f) + '.o'
    r = vb.run(([vb.CCACHE] if vb.CCACHE else []) + [vb.GXX, '-std=c++17', '-O0', '-g0', '-Wno-invalid-offsetof', '-Wno-old-style-cast', '-Wno-write-strings'] + vb.DEF + vb.INC + ['-I' + d, '-c', f, '-o', o], env=vb.env())
    return o, (r.stdout if r.returncode else None)

def run(c, R):
    h = dict(H[0], bounds=BOUNDS)
    top = vb.BUILD + '/run/C09/gen'; shutil.rmtree(top, ignore_errors=True)
    d, sd = top + '/grammar', top + '/solo'
    hs = gen.generate(d, c.thorough); ss = gen.solo(sd)
    exe = vb.icg()
    def broken(sig, msg): c.viols.append(dict(sig=sig, msg=msg, path='', log=msg, harness='icg'))
    jobs = []
    for w, names in ((d, ['defs'] + hs), (sd, ss)):
        r = vb.run([exe, '-I' + vb.REPO + '/include', 'S_source.hh'], cwd=w, env=vb.env())
        open(w + '/icg.log', 'w').write(r.stdout)
        if r.returncode != 0: broken('icg-fails', 'trick-ICG ends with %d on valid headers: %s' % (r.returncode, r.stdout[-1500:])); return
        for x in names:
            f = w + '/build' + w + '/io_%s.cpp' % x
            if not os.path.exists(f): broken('icg-output', 'trick-ICG writes no %s' % f); return
            jobs.append((f, w))
    with ThreadPoolExecutor(vb.JOBS) as ex: res = list(ex.map(lambda j: compile_io(*j), jobs))
    objs = []; bad = False
    for (f, w), (o, err) in zip(jobs, res):
        n = os.path.basename(f)[3:-4]
        if w == sd: n = list(gen.SOLO)[ss.index(n)]
        else:
            objs.append(o); bad = bad or err
        if err:
            e = [l for l in err.split('\n') if 'error:' in l][:6]
            broken('generated-code:' + n, 'the code trick-ICG generates for valid declarations (%s) does not compile: %s' % (gen.SOLO.get(n, n), ' | '.join(e)))
    c.cov['generated_code_compiled'] = len(jobs)
    if bad: return
    h['main'] = h['main'] + [d + '/parts.cc'] + [d + '/t_%s.cc' % x for x in hs]
    h['main_flags'] = h['main_flags'] + ['-I' + d]
    h['ldflags'] = list(h.get('ldflags', [])) + objs
    R.run_harness(c, h)
LEVEL = 'model_checking'
ASSUMPTIONS = ['the compiler of the harness is the one the simulation is compiled with: its layout is the truth', 'little-endian host with the System V bit-field layout', 'LLVM/Clang 18, as installed']
