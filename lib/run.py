#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working tree, lets them enumerate their
spaces, replays what they report, filters the known findings and writes the evidence.
usage: run.py <ID> [--replay FILE]"""
import sys, os, json, time, shutil, importlib.util, subprocess, array, re, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vb

def load(pid):
    p = os.path.join(vb.VERIF, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, p)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m

def known(pid):
    """[(signature regex, text)] of the findings listed for this property; fixed entries suppress nothing"""
    out = []
    f = os.path.join(vb.VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

class Ctx:
    def __init__(s, pid, tier):
        s.pid, s.tier, s.thorough = pid, tier, tier == 'thorough'
        s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.dir = os.path.join(vb.BUILD, 'run', pid); shutil.rmtree(s.dir, ignore_errors=True); os.makedirs(s.dir)
        s.viols = []                  # dict(sig,msg,path,log,harness)
        s.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, distinct_outcomes=0, samples=[], exhaustive=True, harnesses={})
        s.built = {}

def build(c, h):
    if 'prepare' in h: h.update(h.pop('prepare')(c, h))         # sources which the tree itself generates
    flags = list(h.get('flags', ['-O1'])) + (['-fsanitize=address', '-fno-omit-frame-pointer'] if h.get('asan') else [])
    tag = h.get('tag') or (c.pid + '_' + h['name'])
    inc = []
    srcs = vb.expand(h.get('srcs', []), h.get('exclude', ()))
    if h.get('parsers'):
        ps, inc = vb.parsers(h['parsers'] if isinstance(h['parsers'], (list, tuple)) else ('adef', 'ref', 'input'))
        srcs = srcs + ps
    if tag not in c.built:
        objs = vb.build_objects(srcs, flags + inc + list(h.get('src_flags', [])), tag=tag, soft=h.get('soft', False), std=h.get('std', 'c++17')) if srcs else []
        c.built[tag] = [vb.archive(objs, os.path.join(vb.BUILD, tag, 'lib%s.a' % tag))] if objs else []
    mains = [os.path.join(vb.VERIF, 'checks', m) for m in (h['main'] if isinstance(h['main'], (list, tuple)) else [h['main']])]
    mo = vb.build_objects(mains, flags + inc + ['-I' + vb.VERIF + '/lib', '-I' + vb.VERIF + '/checks'] + list(h.get('main_flags', [])), tag=tag + '_h_' + h['name'], std=h.get('std', 'c++17'))
    exe = os.path.join(c.dir, h['name'])
    return vb.link(mo, c.built[tag], exe, flags=(['-fsanitize=address'] if h.get('asan') else []) + list(h.get('ldflags', [])), libs=list(h.get('libs', [])))

def henv(h):
    e = dict(os.environ); e.setdefault('TRICK_HOME', vb.REPO)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:alloc_dealloc_mismatch=' + str(h.get('add_mismatch', 0))
    e.update(h.get('env', {}))
    return e

def replay(c, h, exe, path, timeout):
    cmd = [exe] + list(h.get('args', [])) + (['--thorough'] if c.thorough else []) + ['--replay', path, '--timeout', str(timeout)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=henv(h), cwd=c.dir)
    m = re.search(r'^REPLAY-VIOLATION sig=(.*)$', r.stdout, re.M)
    return (m.group(1) if m else None), r.stdout, r.stderr

def run_harness(c, h, deadline=None):
    exe = build(c, h)
    out = os.path.join(c.dir, h['name'] + '.out')
    ms = h.get('max_seconds', 0)
    if c.thorough: ms = h.get('max_seconds_thorough', ms * 20 if ms else 0)
    cmd = [exe] + list(h.get('args', [])) + ['--out', out] + (['--thorough'] if c.thorough else [])
    if ms: cmd += ['--max-seconds', str(ms)]
    if h.get('workers'): cmd += ['--workers', str(h['workers'])]
    with open(out + '.log', 'w') as lf:
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=henv(h), cwd=c.dir)
    if r.returncode != 0 or not os.path.exists(out + '.sum'):
        raise RuntimeError('%s: explorer ended with %d\n%s' % (h['name'], r.returncode, open(out + '.log', errors='replace').read()[-3000:]))
    sm = json.load(open(out + '.sum'))
    st, oc, vi, sa = set(), set(), {}, []
    for f in sorted(os.listdir(c.dir)):
        if not f.startswith(h['name'] + '.out.'): continue
        p = os.path.join(c.dir, f); rest = f[len(h['name'] + '.out.'):]
        if re.match(r'^\d+\.\d+$', rest):
            try: d = json.load(open(p))
            except ValueError: continue
            for v in d['viols']:
                o = vi.get(v['sig'])
                if not o or len(v['path'].split(',')) < len(o['path'].split(',')): vi[v['sig']] = v
            sa += d['samples']
        elif rest.endswith('.h') or rest.endswith('.o'):
            a = array.array('Q'); n = os.path.getsize(p) // 8
            with open(p, 'rb') as fh: a.fromfile(fh, n)
            (st if rest.endswith('.h') else oc).update(a); os.unlink(p)
    hc = dict(sm); hc.update(distinct_states=len(st), distinct_outcomes=len(oc), distinct_violations=len(vi))
    if h.get('bounds'): hc['bounds'] = h['bounds']
    c.cov['harnesses'][h['name']] = hc
    c.cov['states'] += len(st); c.cov['transitions'] += sm['transitions']
    c.cov['traces_validated_against_impl'] += sm['executions']; c.cov['distinct_outcomes'] += len(oc)
    c.cov['samples'] += [dict(harness=h['name'], trace=x) for x in sa[:2]]
    if sm['capped']: c.cov['exhaustive'] = False
    dropped = []
    for v in sorted(vi.values(), key=lambda v: (len(v['path'].split(',')), v['path'])):
        if len(c.viols) >= 40: break
        sig, so, se = replay(c, h, exe, v['path'], 4 * h.get('timeout', 30))
        if sig is None:
            dropped.append(v['sig']); continue
        v.update(sig=sig, harness=h['name'], log=so, stderr=se[-4000:]); c.viols.append(v)
    if dropped:
        hc['not_reproduced'] = dropped
        if len(dropped) == len(vi): raise RuntimeError('%s: reported but not reproduced on replay: %s' % (h['name'], dropped[:3]))

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    m = load(pid)
    c = Ctx(pid, tier)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        d = json.load(open(sys.argv[3]))
        c.thorough = d.get('tier') == 'thorough'
        for h in m.H:
            if h['name'] == d['harness']:
                sig, so, se = replay(c, h, build(c, h), d['path'], 600)
                print(so); print(se[-4000:]); return 1 if sig else 0
        return 2
    err = None
    try:
        if hasattr(m, 'run'): m.run(c, sys.modules[__name__])
        else:
            for h in m.H:
                if h.get('thorough_only') and not c.thorough: continue
                run_harness(c, h)
    except vb.BuildError as e: err = 'build failed: %s' % e
    except Exception: err = traceback.format_exc()
    if err: print('CHECK-ERROR ' + err); return 3
    kn = known(pid); used = {}; real = []
    for v in c.viols:
        hit = [k for k in kn if re.fullmatch(k[0], v['sig'].replace(' ', '_'))]
        if hit: used.setdefault(hit[0], 0); used[hit[0]] += 1
        else: real.append(v)
    for k in kn:
        if k in used: print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    c.cov['samples'] = c.cov['samples'][:8]
    c.cov['known_findings_seen'] = len(used)
    ev = dict(property=pid, tier=tier, seed=c.seed, level=getattr(m, 'LEVEL', 'model_checking'), coverage=c.cov, assumptions=list(getattr(m, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(vb.VERIF, 'evidence'), exist_ok=True)
    rd = os.path.join(vb.VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    rc = 0
    for i, v in enumerate(real[:5]):
        f = os.path.join(rd, '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, harness=v['harness'], path=v['path'], sig=v['sig'], msg=v['msg'], log=v['log'], tier=tier, stderr=v.get('stderr', '')), open(f, 'w'), indent=1)
        print('  [%s] %s: %s' % (v['harness'], v['sig'], v['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(f, vb.VERIF))); rc = 1
    json.dump(ev, open(os.path.join(vb.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: states=%d transitions=%d executions=%d outcomes=%d exhaustive=%s violations=%d wall=%.1fs' % (pid, c.cov['states'], c.cov['transitions'],
          c.cov['traces_validated_against_impl'], c.cov['distinct_outcomes'], c.cov['exhaustive'], len(real), time.time() - t0))
    return rc
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
