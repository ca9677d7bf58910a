#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides property ID of /repo's current tree.
Every unit of props/ID is compiled against /repo to LLVM IR, its entries are executed symbolically and every
obligation is discharged (engine/run.py); the same harness is compiled natively to look for a failing input."""
import sys, os, json, re, time, subprocess, tempfile, shutil, resource
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()

def sh(cmd, timeout=None, mem=None, env=None):
    def lim():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=lim, cwd=V, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        out, _ = p.communicate()
        return -9, out

def mpi_inc():
    try: return subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True).stdout.split()
    except OSError: return []

def build(u, spec, pd, bd, kind):
    src = os.path.join(pd, spec['src'])
    if kind == 'sym':
        rc, out = sh(['bash', os.path.join(V, 'build.sh'), src, os.path.join(bd, u + '.ll')] + spec.get('flags', []), 300)
    else:
        inc = ['-I' + V + '/stub', '-I' + V + '/include', '-I/repo/include', '-I/repo/lib', '-I/usr/include/hdf5/openmpi'] + mpi_inc()
        cmd = ['g++', '-O1', '-g1', '-std=c++14', '-mavx2', '-mfma', '-ffp-contract=off', '-fno-strict-aliasing', '-w', '-DUSE_PROP_RKN4', '-DV_NATIVE'] \
            + (['-fopenmp'] if spec.get('omp') else []) + (['-fsanitize=address'] if spec.get('asan', True) else []) + inc + spec.get('flags', []) + spec.get('nflags', []) \
            + ['-o', os.path.join(bd, u + '.exe'), src, V + '/include/vnative.cpp', '-Wl,--unresolved-symbols=ignore-all'] + spec.get('libs', [])
        rc, out = sh(cmd, 300)
    return rc, out[-3000:]

def srcfiles(ll):
    """mangled name -> source file of its definition"""
    files, sub, res = {}, {}, {}
    for l in open(ll, errors='replace'):
        if l.startswith('define'):
            m = re.search(r'@("?[\w.$]+"?)\(.*!dbg !(\d+)', l)
            if m: res[m.group(1).strip('"')] = m.group(2)
        elif l.startswith('!'):
            m = re.match(r'!(\d+) = !DIFile\(filename: "([^"]*)"', l)
            if m: files[m.group(1)] = m.group(2); continue
            m = re.match(r'!(\d+) = distinct !DISubprogram\(.*?file: !(\d+)', l)
            if m: sub[m.group(1)] = m.group(2)
    return {k: files.get(sub.get(v, ''), '?') for k, v in res.items()}

def demangle(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return r[:len(names)]

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pd = os.path.join(V, 'props', pid)
    P = json.load(open(os.path.join(pd, 'prop.json')))
    os.makedirs(V + '/build', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    bd = tempfile.mkdtemp(prefix=pid + '.', dir=V + '/build')
    try:
        return decide(P, pid, tier, seed, pd, bd)
    finally:
        shutil.rmtree(bd, ignore_errors=True)

def decide(P, pid, tier, seed, pd, bd):
    WALL = 780 if tier == 'quick' else 3000
    ents = [e for e in P['entries'] if tier == 'thorough' or e.get('tier', 'quick') == 'quick']
    units = {e['unit'] for e in ents}
    known = [k for k in json.load(open(V + '/known-findings.json')) if k.get('property') == pid and k.get('status') == 'known'] if os.path.exists(V + '/known-findings.json') else []
    built = {}
    with ThreadPoolExecutor(8) as ex:
        fs = {}
        for u in units:
            kinds = set()
            for e in ents:
                if e['unit'] == u:
                    if not e.get('bounded'): kinds.add('sym')
                    if e.get('native', True): kinds.add('nat')
            for k in kinds: fs[ex.submit(build, u, P['units'][u], pd, bd, k)] = (u, k)
        for f in as_completed(fs): built[fs[f]] = f.result()
    problems, viol, results, nats, okbounded = [], [], [], [], []
    for (u, k), (rc, out) in sorted(built.items()):
        if rc: problems.append({'what': '%s: the contract harness does not build against this tree (%s)' % (u, k), 'detail': out})
    def symjob(e, c):
        u = P['units'][e['unit']]
        opts = dict(e.get('opts', {}))
        if u.get('contracts'): opts['contracts'] = os.path.join(pd, u['contracts'])
        b = e.get('budget', 120) * (3 if tier == 'thorough' else 1)
        left = WALL - (time.time() - T0)
        if left < 5: return None
        rc, out = sh(['python3-vt', V + '/engine/run.py', os.path.join(bd, e['unit'] + '.ll'), e['name'], str(c), json.dumps(opts), str(b)], min(left, 4*b + 60), 12 << 30)
        for l in out.split('\n'):
            if l.startswith('RESULT '): return json.loads(l[7:])
        return {'entry': e['name'], 'cfg': c, 'status': 'crash', 'note': out[-600:], 'obl': 0, 'proved': 0, 'failed': [], 'undecided': [], 'labels': {}, 'cover': {}, 'used': [], 'contracts_used': [], 'havocs': [], 'nhavocs': 0, 'loops': 0, 'stats': {'backends': {}, 'times': {}}, 't': 0}
    def natjob(e, c):
        n = e.get('native', True)
        n = n if isinstance(n, dict) else {}
        secs = n.get('sec', 2) * (8 if tier == 'thorough' else 1); cnt = n.get('n', 300) * (8 if tier == 'thorough' else 1)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3:allocator_may_return_null=1', OMP_NUM_THREADS='4', OMP_WAIT_POLICY='passive')
        rc, out = sh([os.path.join(bd, e['unit'] + '.exe'), e['name'], str(c), str(seed * 1000003), str(cnt), str(secs)], secs + 120, None, env)
        return rc, out
    tasks = []
    for e in ents:
        sc = e.get('cfgs', [0]) + (e.get('tcfgs', []) if tier == 'thorough' else [])
        for c in sorted(set(sc) | set(e.get('ncfgs', []))):
            if not e.get('bounded') and c in sc and built[(e['unit'], 'sym')][0] == 0: tasks.append((-e.get('cost', e.get('budget', 120)), 'sym', e, c))
            if (e['unit'], 'nat') in built and e.get('native', True) and built[(e['unit'], 'nat')][0] == 0: tasks.append((-1e6, 'nat', e, c))
    tasks.sort(key=lambda t: t[0])
    with ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(symjob if k == 'sym' else natjob, e, c): (k, e, c) for _, k, e, c in tasks}
        for f in as_completed(fs):
            k, e, c = fs[f]; r = f.result()
            if k == 'sym': results.append((e, c, r))
            else: nats.append((e, c, r))
    results.sort(key=lambda t: (t[0]['unit'], t[0]['name'], t[1])); nats.sort(key=lambda t: (t[0]['unit'], t[0]['name'], t[1]))
    obl = dis = 0; labels = {}; back = {}; tim = {}; used = set(); cons = set(); stime = 0.; boundedcases = 0; natruns = 0; loops = 0; details = []
    fmap = {}
    for u in units:
        if built.get((u, 'sym'), (1,))[0] == 0: fmap.update(srcfiles(os.path.join(bd, u + '.ll')))
    for e, c, r in results:
        nm = '%s/%s[%d]' % (e['unit'], e['name'], c)
        if r is None:
            problems.append({'what': nm + ': no time left', 'detail': ''}); continue
        obl += r['obl']; dis += r['proved']; loops += r['loops']; stime += r['t']
        for l, x in r['labels'].items():
            y = labels.setdefault(l, [0, 0]); y[0] += x['n']; y[1] += x['proved']
        for k, v in r['stats']['backends'].items(): back[k] = back.get(k, 0) + v
        for k, v in r['stats']['times'].items(): tim[k] = round(tim.get(k, 0) + v, 2)
        used |= set(r['used']); cons |= set(r['contracts_used'])
        details.append({'entry': nm, 'status': r['status'], 'obligations': r['obl'], 'discharged': r['proved'], 'seconds': r['t'], 'lost_precision': r['nhavocs']})
        if r['status'] != 'ok': problems.append({'what': '%s: %s (%s)' % (nm, r['status'], r['note']), 'detail': ''})
        for x in r['failed']: problems.append({'what': '%s: obligation refuted: %s' % (nm, x['label']), 'detail': x})
        for x in r['undecided']: problems.append({'what': '%s: obligation not discharged: %s' % (nm, x), 'detail': ''})
        if r['status'] == 'ok':
            if r['obl'] == 0: problems.append({'what': nm + ': no obligation was generated', 'detail': ''})
            if not r['cover'] : problems.append({'what': nm + ': the end of the harness is not reached', 'detail': ''})
            for l, x in r['cover'].items():
                if x == 'unsat': problems.append({'what': '%s: unreachable: %s' % (nm, l), 'detail': ''})
    knownhit = set()
    for e, c, (rc, out) in nats:
        nm = '%s/%s[%d]' % (e['unit'], e['name'], c)
        m = re.search(r'STAT .*?runs=(\d+) skips=(\d+) checks=(\d+)', out)
        if m:
            natruns += int(m.group(1))
            if e.get('bounded'): boundedcases += int(m.group(1)); okbounded.append({'entry': nm, 'runs': int(m.group(1)), 'checks': int(m.group(3)), 'bound': e.get('bound', 'random inputs of the harness')})
        if rc == 3:
            fl = re.search(r'FAIL (.*)', out)
            viol.append({'what': nm, 'label': fl.group(1) if fl else 'memory error or crash', 'output': out[-6000:], 'cmd': 'native harness %s %s cfg %d seed %d' % (e['unit'], e['name'], c, seed * 1000003)})
        elif rc != 0:
            problems.append({'what': '%s: native run gave no answer (rc %d)' % (nm, rc), 'detail': out[-1500:]})
        elif e.get('bounded') and (not m or int(m.group(1)) == 0):
            problems.append({'what': nm + ': bounded check ran no case', 'detail': out[-500:]})
    def listed(text):
        for k in known:
            if re.search(k['match'], text): knownhit.add(k['what']); return True
        return False
    viol = [v for v in viol if not listed(v['what'] + ' ' + v['label'])]
    problems = [p for p in problems if not listed(p['what'])]
    for w in knownhit: print('KNOWN-FINDING: property=%s %s' % (pid, w))
    fn = sorted(n for n in {x.lstrip('@').strip('"') for x in used} if '/repo/' in fmap.get(n, '') and not fmap.get(n, '').startswith(V))
    dn = sorted(set(demangle(fn)))
    wall = round(time.time() - T0, 1)
    nv = len(viol) or (1 if problems else 0)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'),
          'coverage': {'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3 check.py %s %s' % (pid, tier),
                       'trusted_base': P.get('trusted', []) + TRUSTED, 'functions_under_contract': dn, 'contracts_assumed': sorted(cons), 'obligations_by_label': {k: {'generated': v[0], 'discharged': v[1]} for k, v in sorted(labels.items())},
                       'back_ends': back, 'solver_seconds': tim, 'verifier_seconds': round(stime, 1), 'loops_summarised': loops, 'runs': details,
                       'bounded_not_proved': okbounded, 'replay_runs_on_real_code': natruns,
                       'evaluations': natruns, 'explanation': P.get('explanation', '')},
          'assumptions': P.get('assumptions', []), 'wall_s': wall, 'violations': nv}
    if P.get('level') == 'other': pass
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d replay runs, %.0f s' % (pid, tier, obl, dis, natruns, wall))
    if nv:
        rp = '%s/evidence/%s.replay.txt' % (V, pid)
        with open(rp, 'w') as f:
            for v in viol: f.write('FAILING INPUT %s\nobligation: %s\n%s\n%s\n\n' % (v['what'], v['label'], v['cmd'], v['output']))
            for p in problems: f.write('NOT DISCHARGED %s\n%s\n\n' % (p['what'], json.dumps(p['detail'], indent=1) if not isinstance(p['detail'], str) else p['detail']))
        for v in viol[:5]: print('  failing input: %s: %s' % (v['what'], v['label']))
        for p in problems[:8]: print('  %s' % p['what'][:300])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if viol else ' no-failing-input-found'))
        return 1
    return 0

TRUSTED = ['engine/ (symbolic executor of LLVM IR, loop summaries, polynomial normal forms), z3 4.8.12, cvc5 1.1.2', 'clang 18 front end and opt passes sroa, early-cse, simplifycfg, instsimplify, loop-simplify',
           'floating-point arithmetic treated as real arithmetic', 'OpenMP loops executed as sequential loops; MPI, libm and allocation by contract (engine/rt.py)',
           'utils/logger.h and utils/profiler.h replaced by stubs that drop logging and timing']
if __name__ == '__main__':
    sys.exit(main())
