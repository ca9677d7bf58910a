"""one (unit, entry, cfg): symbolic execution and discharge of its obligations; prints one JSON object"""
import sys, os, json, time, re
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, solve, terms, loops, sx as S, rt
from terms import *

def load_contracts(path, entry=None):
    if path and os.path.exists(path):
        ns = {}
        exec(compile(open(path).read(), path, 'exec'), {'S': S, 'rt': rt, 'terms': terms, 'solve': solve, 'ir': ir, '__name__': 'contracts', 'CONFIG': {'entry': entry}, **{k: getattr(terms, k) for k in dir(terms) if not k.startswith('__')}})

def model_ok(o):
    """may a counter-model be believed (no value in it comes from lost precision)?"""
    at = set()
    for f in (o.goal,) + tuple(o.pc): solve.fatoms(f, at)
    for a in list(at): at |= set(solve.inner_atoms(a))
    for a in at:
        A = ATOMS[a]
        if A.kind in ('sum', 'sqrt'): return False
        if A.kind == 'fn' and not str(A.args[0]).endswith('#'): 
            if not re.search(r'#\d+$', str(A.args[0])) or str(A.args[0]).startswith('after'): return False
        if A.kind == 'sym' and re.search(r'^(after|undef|h_|T#)', str(A.args[0])): return False
    return 'undef' not in repr(o.goal)

def show_f(f):
    if f[0] in ('ge', 'gt', 'eq', 'ne'): return '%s(%s)' % (f[0], show(f[1]))
    if f[0] in ('and', 'or'): return f[0] + '[' + '; '.join(show_f(x) for x in f[1]) + ']'
    if f[0] == 'not': return 'not ' + show_f(f[1])
    return str(f)[:200]

def digits(pc, goal):
    if goal[0] != 'ge': return False
    g0 = goal
    for k in sorted(goal[1].vars()):
        ds = loops.digit_sub(k, [goal[1]]) if ATOMS[k].kind in ('bvar', 'sym') else None
        if ds: pc, goal = tuple(loops.digit_range(x, ds[0].form(x), k, ds[2][-1], ds[3], ds[4]) for x in pc) + tuple(ds[1]), ds[0].form(goal)
    return solve.entails(pc, goal, deep=goal is g0)

def discharge(o):
    # counters used through their mixed radix digits are replaced by the digits
    if all(digits(o.pc, g) for g in (o.goal[1] if o.goal[0] == 'and' else (o.goal,))): return 'proved'
    if solve.entails(o.pc, o.goal): return 'proved'
    r, m = solve.refute(o.pc, o.goal)
    if r == 'unsat':
        solve.stats['z3'] += 1
        return 'proved'
    if r == 'sat': return ('refuted', m)
    return ('unknown',)

def show_obl(o):
    return '%s [%s] at %s' % (o.label, o.kind, o.where)

def run(llpath, entry, cfgno, opts, budget, verbose=False):
    t0 = time.time()
    res = {'entry': entry, 'cfg': cfgno, 'status': 'ok', 'obl': 0, 'proved': 0, 'failed': [], 'undecided': [], 'labels': {}, 'note': ''}
    solve.CFG['deadline'] = time.process_time() + budget
    load_contracts(opts.get('contracts'), entry)
    m = ir.parse_module(llpath)
    sx = S.SX(m, dict(opts, config=cfgno))
    sx.debug = 1 if verbose else 0
    st = S.State(); st.mem = {}; st.pc = (); st.bounds = solve.Bounds(); st.loops = (); st.reads = None; st.trace = None
    try:
        outs = sx.call(st, '@' + entry, [const(cfgno)], None)
        res['paths'] = len(outs)
    except S.Unsupported as e:
        res['status'] = 'unsupported'; res['note'] = str(e)[:400]
    except solve.OutOfTime as e:
        res['status'] = 'timeout'; res['note'] = 'execution'
    res['t_exec'] = round(time.time() - t0, 2)
    seen = {}
    obls = []
    for o in sx.obls:
        k = (o.pc, o.goal, o.label, o.where)
        if k in seen and o.pc is not None: continue
        seen[k] = 1
        obls.append(o)
    res['obl'] = len(obls)
    labels = res['labels']
    for o in obls:
        lab = labels.setdefault(o.label, {'n': 0, 'proved': 0})
        lab['n'] += 1
        if o.kind == 'interval':
            lab['proved'] += 1; res['proved'] += 1
            solve.stats['interval'] += 1
            continue
        if res['status'] == 'timeout': 
            res['undecided'].append(show_obl(o)); continue
        try:
            ok = discharge(o)
        except solve.OutOfTime:
            res['status'] = 'timeout'; res['note'] = 'discharge'; res['undecided'].append(show_obl(o)); continue
        if ok == 'proved':
            lab['proved'] += 1; res['proved'] += 1
        elif ok[0] == 'refuted':
            f = {'label': o.label, 'where': o.where, 'kind': o.kind, 'solid': model_ok(o), 'model': ok[1], 'goal': show_f(o.goal)[:600]}
            res['failed'].append(f)
            if verbose: print('REFUTED', show_obl(o), f)
        else:
            res['undecided'].append(show_obl(o))
            if verbose: print('UNDECIDED', show_obl(o), '\n   goal', show_f(o.goal)[:800], '\n   pc', [show_f(x)[:200] for x in o.pc])
    # vacuity: coverage marks must be reachable
    cov = {}
    for l, ps in sx.pathcover.items():
        r = 'unknown'
        for pc, b in ps[:6]:
            if solve.refute(pc, FALSE)[0] == 'sat': r = 'sat'; break
        cov[l] = r
    res['cover'] = cov
    res['used'] = sorted(sx.used)
    res['contracts_used'] = sorted(map(str, sx.contracts_used))
    res['havocs'] = [str(h)[:160] for h in sx.havocs[:20]]
    res['nhavocs'] = len(sx.havocs)
    res['loops'] = len(sx.loopstats)
    res['stats'] = {'backends': solve.stats, 'times': {k: round(v, 2) for k, v in solve.times.items()}}
    res['t'] = round(time.time() - t0, 2)
    return res

if __name__ == '__main__':
    a = sys.argv[1:]
    opts = json.loads(a[3]) if len(a) > 3 else {}
    r = run(a[0], a[1], int(a[2]), opts, float(a[4]) if len(a) > 4 else 300., verbose=os.environ.get('VV') == '1')
    print('RESULT ' + json.dumps(r))
