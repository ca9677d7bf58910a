"""Discharging obligations:  pc |= goal.

Back ends, tried in order (the one that succeeds is counted):
  ring      canonical form of polynomials (syntactic)
  interval  interval propagation
  lin       linear arithmetic over monomials (z3) with product lemmas (Handelman style) and mixed-radix lemmas
  z3        full non-linear query to z3 (QF_UFNIRA)
  cvc5      full non-linear query to cvc5
"""
import time
from fractions import Fraction
import z3
from terms import *
import sample

INF = float('inf')
stats = {'ring': 0, 'interval': 0, 'lin': 0, 'z3': 0, 'cvc5': 0}
times = {'lin': 0.0, 'z3': 0.0, 'cvc5': 0.0}
CFG = {'t_lin': 3000, 't_z3': 4000, 't_cvc5': 6000, 'deadline': None, 'cvc5': True}

class OutOfTime(Exception): pass
def tick():
    d = CFG['deadline']
    if d is not None and time.process_time() > d: raise OutOfTime()    # processor time: the load of the machine does not count

# ------------------------------------------------------------------ intervals
class Bounds:
    """constant bounds of atoms, persistent by copying"""
    __slots__ = ('b',)
    def __init__(self, b=None): self.b = b if b is not None else {}
    def copy(self): return Bounds(dict(self.b))
    def atom(self, aid):
        r = self.b.get(aid)
        if r is not None: return r
        a = ATOMS[aid]
        lo = -INF if a.lo is None else a.lo
        hi = INF if a.hi is None else a.hi
        if a.kind == 'div':
            pl, ph = self.poly(a.args[0]); dl, dh = self.poly(a.args[1])
            if dl >= 1:
                l2 = -INF if pl == -INF else (pl // dl if pl < 0 else (0 if dh == INF else pl // dh))
                h2 = INF if ph == INF else (ph // dl if ph >= 0 else -1)
                lo, hi = max(lo, l2), min(hi, h2)
        elif a.kind == 'ite':
            l1, h1 = self.poly(a.args[1]); l2, h2 = self.poly(a.args[2])
            lo, hi = max(lo, min(l1, l2)), min(hi, max(h1, h2))
        elif a.kind == 'sum':
            tl, th = self.poly(a.args[1]); l, h = self.poly(a.args[2])
            th = max(th, 0)          # an empty sum is 0
            lo, hi = max(lo, imul(min(l, 0), th)), min(hi, imul(max(h, 0), th))
        return (lo, hi)
    def mono(self, m):
        lo = hi = 1
        i = 0
        n = len(m)
        while i < n:
            j = i
            while j + 1 < n and m[j+1] == m[i]: j += 1
            e = j - i + 1
            l, h = self.atom(m[i])
            if e > 1:
                if e % 2 == 0:
                    if l >= 0: l, h = mpow(l, e), mpow(h, e)
                    elif h <= 0: l, h = mpow(h, e), mpow(l, e)
                    else: l, h = 0, mpow(max(-l, h), e)
                else: l, h = mpow(l, e), mpow(h, e)
            if lo == 1 and hi == 1: lo, hi = l, h
            else:
                c = (imul(lo, l), imul(lo, h), imul(hi, l), imul(hi, h))
                lo, hi = min(c), max(c)
            i = j + 1
        return lo, hi
    def poly(self, p):
        lo = hi = 0
        for m, c in p.d.items():
            if not m:
                lo += c; hi += c; continue
            l, h = self.mono(m)
            if c < 0: l, h = h, l
            lo = -INF if (lo == -INF or l in (INF, -INF)) else lo + c * l
            hi = INF if (hi == INF or h in (INF, -INF)) else hi + c * h
            if lo == -INF and hi == INF: return lo, hi
        return lo, hi
    def assume(self, f, depth=3):
        """strengthen bounds with a formula; returns False on an evident contradiction"""
        k = f[0]
        if k == 'and':
            for x in f[1]:
                if not self.assume(x): return False
            return True
        if k in ('ge', 'gt', 'eq'):
            ok = self._ge(f[1])
            if ok and k == 'eq': ok = self._ge(-f[1])
            return ok
        return True
    def _ge(self, p):
        # p >= 0 : for each linear monomial c*a :  c*a >= -(rest)
        for m, c in p.d.items():
            if len(m) != 1: continue
            a = m[0]
            rest_hi = 0
            for m2, c2 in p.d.items():
                if m2 == m: continue
                if not m2: rest_hi += c2; continue
                l, h = self.mono(m2)
                t = h if c2 > 0 else l
                if t in (INF, -INF): rest_hi = INF; break
                rest_hi += c2 * t
            if rest_hi == INF: continue
            lo, hi = self.atom(a)
            isint = ATOMS[a].sort == 'i'
            v = Fraction(-rest_hi) / Fraction(c)
            if c > 0:
                if isint: v = -((-v.numerator) // v.denominator)
                v = int(v) if v == int(v) else v
                if v > lo:
                    lo = v; self.b[a] = (lo, hi)
            else:
                if isint: v = v.numerator // v.denominator
                v = int(v) if v == int(v) else v
                if v < hi:
                    hi = v; self.b[a] = (lo, hi)
            if lo > hi: return False
        # nonlinear single-monomial : a*b - c etc. handled by the solver
        return self.poly(p)[1] >= 0

def mpow(x, e):
    if x in (INF, -INF): return x if e % 2 else INF
    return x ** e
def imul(a, b):
    if a == 0 or b == 0: return 0
    if a in (INF, -INF) or b in (INF, -INF):
        return INF if (a > 0) == (b > 0) else -INF
    return a * b

def quick(b, f):
    """True / False / None by intervals"""
    k = f[0]
    if k == 'true': return True
    if k == 'false': return False
    if k == 'ge':
        l, h = b.poly(f[1])
        return True if l >= 0 else (False if h < 0 else None)
    if k == 'gt':
        l, h = b.poly(f[1])
        return True if l > 0 else (False if h <= 0 else None)
    if k == 'eq':
        l, h = b.poly(f[1])
        if l > 0 or h < 0: return False
        return True if l == h == 0 else None
    if k == 'ne':
        r = quick(b, ('eq', f[1]))
        return None if r is None else not r
    if k == 'and':
        r = True
        for x in f[1]:
            q = quick(b, x)
            if q is False: return False
            if q is None: r = None
        return r
    if k == 'or':
        r = False
        for x in f[1]:
            q = quick(b, x)
            if q is True: return True
            if q is None: r = None
        return r
    return None

# ------------------------------------------------------------------ atom facts
_factcache = {}
def atom_facts(aid):
    r = _factcache.get(aid)
    if r is not None: return r
    a = ATOMS[aid]
    r = []
    v = var(a)
    if a.lo is not None: r.append(ge(v - a.lo))
    if a.hi is not None: r.append(ge(P(a.hi) - v))
    if a.kind == 'div':
        p, d = a.args
        pos = gt(d)
        f = and_(ge(p - d * v), ge(d * v + d - 1 - p))
        r.append(f if pos == TRUE else or_(neg(pos), f))
    elif a.kind == 'ite':
        c, x, y = a.args
        r.append(or_(neg(c), eq(v - x))); r.append(or_(c, eq(v - y)))
    elif a.kind == 'sqrt':
        p = a.args[0]
        # v*v is kept unexpanded: use a raw monomial
        vv = Poly({(aid, aid): 1})
        r.append(or_(neg(ge(p)), ('eq', vv - p)))
        r.append(or_(neg(gt(p)), gt(v)))
    elif a.kind == 'inv':
        p = a.args[0]
        if aid in INV: f = ('eq', Poly({tuple(sorted((aid, INV[aid]))): 1, (): -1}))
        else:
            f = ('eq', rawmul(p, aid) - 1)
        r.append(or_(eq(p), f))
    elif a.kind == 'fn':
        nm = a.args[0]
        if nm in ('sin', 'cos'):
            s, c = mk('fn', ('sin',) + a.args[1:], 'r'), mk('fn', ('cos',) + a.args[1:], 'r')
            r.append(('eq', Poly({(s.id, s.id): 1, (c.id, c.id): 1, (): -1})))
        elif nm == 'exp': r.append(gt(v))
        elif nm == 'pow': r += [or_(neg(gt(a.args[1])), gt(v)), or_(neg(eq(a.args[2])), eq(v - 1)), or_(neg(eq(a.args[1] - 1)), eq(v - 1))]
        elif nm == 'fabs':
            p = a.args[1]
            r.append(or_(neg(ge(p)), eq(v - p))); r.append(or_(ge(p), eq(v + p)))
        elif nm == 'floor':
            p = a.args[1]
            r.append(and_(ge(p - v), gt(v + 1 - p)))
        elif nm == 'wrapq': pass
    _factcache[aid] = r
    return r

def rawmul(p, aid):
    return Poly({tuple(sorted(m + (aid,))): c for m, c in p.d.items()})

def fatoms(f, out):
    l = []
    fpolys(f, l)
    for p in l:
        for m in p.d: out.update(m)
    k = f[0]

def conds_in(f, out):
    pass

def close_facts(fs):
    """defining facts of all atoms occurring in fs (transitively)"""
    seen = set(); todo = set()
    for f in fs: fatoms(f, todo)
    facts = []
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        for g in atom_facts(a):
            facts.append(g)
            fatoms(g, todo)
    return facts

# ------------------------------------------------------------------ z3 translation
class Z3T:
    def __init__(self, linear, real=False):
        self.linear = linear
        self.real = real        # rational relaxation: every unknown is a real (integrality only through _intnorm)
        self.pc = {}
        self.fc = {}
        self.ac = {}
        self.mc = {}
    def atom(self, aid):
        r = self.ac.get(aid)
        if r is not None: return r
        a = ATOMS[aid]
        if not self.linear and a.kind == 'sel':
            f = z3.Function('sel_%s_%s' % (a.args[0], a.sort), z3.IntSort(), z3.IntSort() if a.sort == 'i' else z3.RealSort())
            r = f(self.poly(a.args[1], 'i'))
        elif not self.linear and a.kind == 'fn':
            args = []
            for x in a.args[1:]:
                if isinstance(x, Poly): args.append(self.poly(x, 'r'))
            if args:
                f = z3.Function('fn_%s_%d_%s' % (a.args[0], len(args), a.sort), *([z3.RealSort()] * len(args) + [z3.IntSort() if a.sort == 'i' else z3.RealSort()]))
                r = f(*args)
            else: r = z3.Const('a%d' % aid, z3.IntSort() if a.sort == 'i' else z3.RealSort())
        else:
            r = z3.Int('a%d' % aid) if a.sort == 'i' and not self.real else z3.Real('a%d' % aid)
        self.ac[aid] = r
        return r
    def mono(self, m):
        if len(m) == 1: return self.atom(m[0])
        r = self.mc.get(m)
        if r is None:
            if self.linear:
                isint = all(ATOMS[a].sort == 'i' for a in m) and not self.real
                nm = 'm' + '_'.join(map(str, m))
                r = z3.Int(nm) if isint else z3.Real(nm)
            else:
                r = self.atom(m[0])
                for a in m[1:]: r = r * self.atom(a)
            self.mc[m] = r
        return r
    def poly(self, p, sort=None):
        if self.real: sort = 'r'
        if sort is None: sort = psort(p)
        key = (p, sort)
        r = self.pc.get(key)
        if r is None:
            ts = []
            for m, c in p.d.items():
                if sort == 'r':
                    cc = z3.RealVal(str(c) if not isinstance(c, Fraction) else '%d/%d' % (c.numerator, c.denominator))
                else: cc = z3.IntVal(c)
                if not m: ts.append(cc); continue
                x = self.mono(m)
                if sort == 'r' and z3.is_int(x): x = z3.ToReal(x)
                ts.append(x if c == 1 else cc * x)
            if not ts: r = z3.IntVal(0) if sort == 'i' else z3.RealVal(0)
            elif len(ts) == 1: r = ts[0]
            else: r = z3.Sum(ts)
            self.pc[key] = r
        return r
    def form(self, f):
        r = self.fc.get(f)
        if r is not None: return r
        k = f[0]
        if k == 'true': r = z3.BoolVal(True)
        elif k == 'false': r = z3.BoolVal(False)
        elif k == 'ge': r = self.poly(f[1]) >= 0
        elif k == 'gt': r = self.poly(f[1]) > 0
        elif k == 'eq': r = self.poly(f[1]) == 0
        elif k == 'ne': r = self.poly(f[1]) != 0
        elif k == 'and': r = z3.And([self.form(x) for x in f[1]])
        elif k == 'or': r = z3.Or([self.form(x) for x in f[1]])
        elif k == 'not': r = z3.Not(self.form(f[1]))
        elif k == 'b': r = z3.Bool('b_%s' % (repr(f),))
        else: raise ValueError(f)
        self.fc[f] = r
        return r

LIN = Z3T(True)
LRA = Z3T(True, True)
FULL = Z3T(False)

def addall(s, fs):
    c, h = s.ctx.ref(), s.solver
    for f in fs: z3.Z3_solver_assert(c, h, f.ast)

def _lits(fs):
    for f in fs:
        if f[0] == 'and':
            for x in _lits(f[1]): yield x
        else: yield f

def product_lemmas(fs, bounds, goalpolys, limit=400):
    """consequences h*W >= 0 of h >= 0, W >= 0 for the non-linear monomials that occur"""
    hyps = []; eqs = []
    for f in _lits(fs):
        if f[0] in ('ge', 'gt'): hyps.append(f[1])
        elif f[0] == 'eq': eqs.append(f[1])
    interesting = set()
    for p in goalpolys:
        for m in p.d:
            if len(m) > 1: interesting.add(m)
    for f in fs:
        l = []
        fpolys(f, l)
        for p in l:
            for m in p.d:
                if len(m) > 1: interesting.add(m)
    out = []
    done = set()
    lin_by_atom = {}
    for h in hyps:
        for m in h.d:
            if len(m) >= 1: lin_by_atom.setdefault(m, []).append((h, False))
    for h in eqs:
        for m in h.d:
            if len(m) >= 1: lin_by_atom.setdefault(m, []).append((h, True))
    frontier = list(interesting)
    rounds = 0
    while frontier and rounds < 3 and len(out) < limit:
        new = []
        for M in frontier:
            subs = set()
            for i in range(len(M)):
                subs.add((M[i],))
            if len(M) > 2:
                for i in range(len(M)):
                    for j in range(i + 1, len(M)): subs.add((M[i], M[j]))
            for s in subs:
                if s not in lin_by_atom: continue
                W = list(M)
                for a in s: W.remove(a)
                W = tuple(W)
                if not W: continue
                wl, wh = bounds.mono(W)
                for h, iseq in lin_by_atom[s]:
                    if (h, W) in done: continue
                    done.add((h, W))
                    if not iseq and wl < 0: continue
                    q = h * Poly({W: 1})
                    if max((len(m) for m in q.d), default=0) > 6: continue
                    out.append(('eq', q) if iseq else ('ge', q))
                    for m in q.d:
                        if len(m) > 1 and m not in interesting:
                            interesting.add(m); new.append(m)
                    if len(out) >= limit: break
        frontier = new
        rounds += 1
    # sign / bounds of the nonlinear monomials
    for M in interesting:
        l, h = bounds.mono(M)
        if l != -INF: out.append(('ge', Poly({M: 1}) - l))
        if h != INF: out.append(('ge', P(h) - Poly({M: 1})))
    # products of pairs (x-lo)(y-lo) handled through bounds of atoms: (a-lo)*W>=0
    for M in list(interesting)[:200]:
        for i in range(len(M)):
            W = M[:i] + M[i+1:]
            l, h = bounds.atom(M[i])
            wl, wh = bounds.mono(W)
            if wl >= 0:
                if l not in (-INF,) and l != 0: out.append(('ge', Poly({M: 1}) - Poly({W: 1}) * l))
                if h != INF: out.append(('ge', Poly({W: 1}) * h - Poly({M: 1})))
    return out

def relevant(pc, goal):
    """formulas of pc connected to the goal through shared atoms"""
    want = set()
    fatoms(goal, want)
    for a in list(want):
        for g in atom_facts(a): fatoms(g, want)
    fa = []
    for f in pc:
        s = set(); fatoms(f, s)
        for a in list(s):
            s |= set(inner_atoms(a))
        fa.append((f, s))
    for a in list(want): want |= set(inner_atoms(a))
    keep = [False] * len(fa)
    ch = True
    while ch:
        ch = False
        for i, (f, s) in enumerate(fa):
            if not keep[i] and (s & want or not s):
                keep[i] = True; want |= s; ch = True
    return [f for (f, s), k in zip(fa, keep) if k]

_inner = {}
def inner_atoms(aid):
    r = _inner.get(aid)
    if r is None:
        s = {aid}
        a = ATOMS[aid]
        if a.kind in ('div', 'ite', 'sqrt', 'inv', 'sel', 'fn'):
            for x in a.args:
                _ia(x, s)
        r = frozenset(s)
        _inner[aid] = r
    return r
def _ia(x, s):
    if isinstance(x, Poly):
        for m in x.d:
            for b in m: s |= inner_atoms(b)
    elif isinstance(x, tuple):
        for y in x: _ia(y, s)

_pcache = {}

def mkbounds(pc):
    b = Bounds()
    for _ in range(2):
        for f in pc:
            if not b.assume(f): return None
    return b

def entails(pc, goal, bounds=None, deep=True, count=True):
    """(bool, backend). pc: iterable of formulas."""
    if goal == TRUE:
        if count: stats['ring'] += 1
        return True
    if goal[0] == 'and':
        for x in goal[1]:
            if not entails(pc, x, bounds, deep, count): return False
        return True
    if bounds is None:
        bounds = mkbounds(pc)
        if bounds is None:
            if count: stats['interval'] += 1
            return True
    if goal in pc:
        if count: stats['ring'] += 1
        return True
    if goal[0] == 'eq' and real_zero(goal[1]):
        if count: stats['ring'] += 1
        return True
    q = quick(bounds, goal)
    if q is True:
        if count: stats['interval'] += 1
        return True
    if goal == FALSE and any(f == FALSE for f in pc):
        return True
    if deep and goal[0] == 'eq' and psort(goal[1]) == 'r':
        g2 = known_ites(pc, goal, bounds)
        if g2 is not goal:
            if g2 == TRUE or (g2[0] == 'eq' and real_zero(g2[1])):
                if count: stats['ring'] += 1
                return True
            goal = g2
    key = (pc if isinstance(pc, tuple) else tuple(pc), goal, deep)
    r = _pcache.get(key)
    if r is None:
        try:
            if sample.refutes(key[0], goal):
                stats['sampled'] = stats.get('sampled', 0) + 1
                r = _pcache[key] = (False, 'sampled')
        except RecursionError: pass
    if r is None:
        r = _entails(list(pc), goal, bounds, deep)
        if not r[0] and r[1] != 'sat' and deep and _split[0] < 3:
            c = open_cond(goal)
            if c is not None:
                _split[0] += 1
                try:
                    if all(entails(key[0] + (x,), goal, None, True, False) for x in (c, neg(c))): r = (True, 'split')
                finally: _split[0] -= 1
        _pcache[key] = r
    ok, be = r
    if ok and count: stats[be] = stats.get(be, 0) + 1
    return ok

_split = [0]
def open_cond(goal):
    """condition of an outermost conditional in a real equation"""
    if goal[0] != 'eq' or psort(goal[1]) != 'r': return None
    for a in sorted({a for m in goal[1].d for a in m}):
        for b in sorted(inner_atoms(a)):
            if ATOMS[b].kind == 'ite': return ATOMS[b].args[0]
    return None

class IteRes:
    """rebuild terms with the conditionals whose condition is decided replaced by the chosen arm"""
    def __init__(self, dec): self.dec, self.ca = dec, {}
    def atom(self, aid):
        r = self.ca.get(aid)
        if r is None:
            a = ATOMS[aid]
            if not has_ite(aid): r = var(a)
            elif a.kind == 'ite' and self.dec(a.args[0]) is not None:
                r = self.poly(a.args[1] if self.dec(a.args[0]) else a.args[2])
            else: r = rebuild(a, tuple(self.any(x) for x in a.args))
            self.ca[aid] = r
        return r
    def any(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, tuple): return tuple(self.any(y) for y in x)
        return x
    def poly(self, p):
        if not any(has_ite(a) for m in p.d for a in m): return p
        r = ZERO
        for m, c in p.d.items():
            t = const(c)
            for a in m: t = t * self.atom(a)
            r = r + t
        return r

_hasite = {}
def has_ite(aid):
    r = _hasite.get(aid)
    if r is None: r = _hasite[aid] = any(ATOMS[x].kind == 'ite' for x in inner_atoms(aid))
    return r

def known_ites(pc, goal, bounds):
    """the goal with every conditional resolved that the path condition decides"""
    if not any(has_ite(a) for m in goal[1].d for a in m): return goal
    lit = set(pc)
    mem = {}
    def dec(c):
        if c not in mem:
            if c in lit: mem[c] = True
            elif neg(c) in lit: mem[c] = False
            else: mem[c] = quick(bounds, c)
        return mem[c]
    p = IteRes(dec).poly(goal[1])
    return goal if p == goal[1] else eq(p)

def elim_eqs(pc, goal):
    """substitute pc equalities  sym = poly  (linear, unit coefficient) away"""
    mp = {}
    pc = list(pc)
    for _ in range(12):
        pick = None
        for i, f in enumerate(pc):
            if f[0] == 'eq':
                p = f[1]
                for m, c in p.d.items():
                    if len(m) == 1 and c in (1, -1) and ATOMS[m[0]].kind in ('sym', 'bvar'):
                        a = m[0]
                        rest = Poly({mm: cc for mm, cc in p.d.items() if mm != m}) * (-c)
                        if a in rest.vars(): continue
                        if ATOMS[a].sort == 'i' and psort(rest) == 'r': continue
                        pick = (i, a, rest); break
            if pick: break
        if not pick: break
        i, a, rest = pick
        at = ATOMS[a]
        s = Subst({a: rest})
        extra = []
        if at.lo is not None: extra.append(ge(rest - at.lo))
        if at.hi is not None: extra.append(ge(P(at.hi) - rest))
        pc = [s.form(f) for j, f in enumerate(pc) if j != i] + extra
        pc = [f for f in pc if f != TRUE]
        goal = s.form(goal)
    return pc, goal

def _entails(pc, goal, bounds, deep):
    tick()
    if any(f[0] == 'eq' for f in pc):
        pc2, goal2 = elim_eqs(pc, goal)
        if goal2 == TRUE: return (True, 'ring')
        if FALSE in pc2: return (True, 'ring')
        if goal2[0] == 'eq' and real_zero(goal2[1]): return (True, 'ring')
        b2 = mkbounds(pc2)
        if b2 is None: return (True, 'interval')
        q = quick(b2, goal2)
        if q: return (True, 'interval')
        pc, goal, bounds = pc2, goal2, b2
    rel = relevant(pc, goal) if goal != FALSE else pc
    ng = neg(goal)
    fs = rel + [ng]
    facts = close_facts(fs)
    allf = fs + facts
    t0 = time.time()
    if goal[0] == 'ge' and CFG.get('elim', True):
        if Elim(rel + facts, bounds).prove(goal[1]):
            times['elim'] = times.get('elim', 0.) + time.time() - t0
            return (True, 'elim')
        times['elim'] = times.get('elim', 0.) + time.time() - t0
        t0 = time.time()
    l = []
    fpolys(goal, l)
    nl = any(len(m) > 1 for f in allf for p in _pl(f) for m in p.d)
    if nl:
        b3 = bounds.copy()
        for f in allf:
            if not b3.assume(f):
                return (True, 'interval')
        linf = allf + product_lemmas(allf, b3, l)
    else: linf = allf
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', CFG['t_lin'])
    addall(s, [LRA.form(f) for f in linf])
    r = s.check()
    if r != z3.unsat and deep or (r != z3.unsat and not nl):
        s = z3.Solver()
        s.set('timeout', CFG['t_lin'])
        addall(s, [LIN.form(f) for f in linf])
        r = s.check()
    times['lin'] += time.time() - t0
    if r == z3.unsat: return (True, 'lin')
    if not deep: return (False, None)
    hasuf = any(ATOMS[a].kind in ('sel', 'fn') for f in allf for p in _pl(f) for a in p.atoms())
    if not nl and not hasuf: 
        if r == z3.sat: return (False, 'sat')
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', CFG['t_z3'])
    addall(s, [FULL.form(f) for f in allf])
    r = s.check()
    times['z3'] += time.time() - t0
    if r == z3.unsat: return (True, 'z3')
    if r == z3.sat: return (False, 'sat')
    if CFG['cvc5']:
        t0 = time.time()
        r = cvc5_check(s)
        times['cvc5'] += time.time() - t0
        if r == 'unsat': return (True, 'cvc5')
        if r == 'sat': return (False, 'sat')
    return (False, 'unknown')

class Elim:
    """p >= 0 by substituting, variable after variable, the extreme value its facts allow (each step is sound: the
    coefficient of the variable has a known sign); ends in interval arithmetic"""
    def __init__(self, facts, bounds):
        self.b = bounds
        self.lo = {}; self.hi = {}
        self.budget = 80
        self.seen = {}
        for f in facts:
            if f[0] == 'and':
                for x in f[1]: self.fact(x)
            else: self.fact(f)
    def fact(self, f):
        if f[0] == 'ge': self.add(f[1])
        elif f[0] == 'eq': self.add(f[1]); self.add(-f[1])
    def add(self, p):
        if len(p.d) > 12: return
        cnt = {}
        for m in p.d:
            for a in m: cnt[a] = cnt.get(a, 0) + 1
        for m, c in p.d.items():
            if len(m) == 1 and cnt[m[0]] == 1:
                a = m[0]
                rest = Poly({x: y for x, y in p.d.items() if x != m})
                if rest.isconst(): continue
                if a in rest.vars(): continue
                B = rest * (Fraction(-1) / c) if c not in (1, -1) else (-rest if c == 1 else rest)
                (self.lo if c > 0 else self.hi).setdefault(a, []).append(B)
    def prove(self, g, depth=0):
        if g in self.seen: return self.seen[g]
        if self.budget <= 0 or depth > 14: return False
        self.budget -= 1
        self.seen[g] = False
        r = self._prove(g, depth)
        self.seen[g] = r
        return r
    def const_ok(self, g):
        if self.b.poly(g)[0] >= 0: return True
        mp = {}
        for a in g.atoms():
            lo, hi = self.b.atom(a)
            if lo == -INF: 
                if hi == INF: return False
                mp[a] = P(hi) - var(ATOMS[a])
            elif lo != 0: mp[a] = P(lo) + var(ATOMS[a])
        h = Subst(mp).poly(g) if mp and not any(ATOMS[x].kind not in ('sym', 'bvar') and (set(mp) & inner_atoms(x)) - {x} for x in g.atoms()) else (g if not mp else None)
        return h is not None and all(c >= 0 for c in h.d.values())
    def _prove(self, g, depth):
        if g.isconst(): return g.cval() >= 0
        if self.const_ok(g): return True
        at = [a for a in g.atoms() if a in self.lo or a in self.hi]
        def rank(a):
            # variables that bound others come last
            n = 0
            for x in at:
                if x == a: continue
                for B in self.lo.get(x, []) + self.hi.get(x, []):
                    if a in B.d or (a,) in B.d: n += 1; break
            return n
        tried = 0
        for a in sorted(at, key=lambda a: (rank(a), -a)):
            C = {}; R = {}; ok = True
            for m, x in g.d.items():
                n = m.count(a)
                if n == 0: R[m] = x
                elif n == 1:
                    mm = list(m); mm.remove(a); C[tuple(mm)] = x
                else: ok = False; break
            if not ok: continue
            C, R = Poly(C), Poly(R)
            l, h = self.b.poly(C)
            if l >= 0: sg = 1
            elif h <= 0: sg = -1
            elif self.prove(C, depth + 1): sg = 1
            elif self.prove(-C, depth + 1): sg = -1
            else: continue
            for B in (self.lo if sg > 0 else self.hi).get(a, []):
                if self.prove(R + C * B, depth + 1): return True
            tried += 1
            if tried >= 3: break
        return False

def _pl(f):
    l = []
    fpolys(f, l)
    return l

def cvc5_check(z3solver):
    import cvc5
    try:
        tm = cvc5.Solver()
        tm.setOption('tlimit-per', str(CFG['t_cvc5']))
        tm.setLogic('ALL')
        pr = cvc5.InputParser(tm)
        txt = z3solver.to_smt2()
        pr.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = pr.getSymbolManager()
        res = None
        while True:
            c = pr.nextCommand()
            if c.isNull(): break
            if str(c).strip().startswith('(check-sat'):
                r = tm.checkSat()
                return 'unsat' if r.isUnsat() else ('sat' if r.isSat() else 'unknown')
            c.invoke(tm, sm)
    except Exception as e:
        return 'unknown'
    return 'unknown'

def refute(pc, goal, want=None):
    """model of pc & !goal : dict name->value, or None"""
    fs = list(pc) + [neg(goal)]
    allf = fs + close_facts(fs)
    s = z3.Solver()
    s.set('timeout', CFG['t_z3'])
    addall(s, [FULL.form(f) for f in allf])
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r != z3.sat: return 'unknown', None
    m = s.model()
    out = {}
    at = set()
    for f in allf: fatoms(f, at)
    for a in at:
        A = ATOMS[a]
        if A.kind == 'sym':
            v = m.eval(FULL.atom(a), model_completion=True)
            out[A.args[0]] = str(v)
    return 'sat', out

def feasible(pc, bounds=None):
    """False only if pc is provably contradictory"""
    if FALSE in pc: return False
    if bounds is None:
        bounds = mkbounds(pc)
        if bounds is None: return False
    return not entails(tuple(pc), FALSE, bounds, deep=False, count=False)

# ------------------------------------------------------------------ mixed radix
def split_weight(E, W, wc):
    """E = (wc*W)*Q + R : terms whose monomial is divisible by W with coefficient divisible by wc go to Q"""
    q = {}; r = {}
    for m, c in E.d.items():
        mm = list(m); ok = (c % wc == 0)
        if ok:
            for t in W:
                if t in mm: mm.remove(t)
                else: ok = False; break
        if ok: q[tuple(mm)] = c // wc
        else: r[m] = c
    return Poly(q), Poly(r)

def weights(E, binders):
    c = set()
    for m, co in E.d.items():
        base = tuple(a for a in m if a not in binders)
        n = len(base)
        subs = {base}
        if n > 1:
            for i in range(n): subs.add((base[i],)); subs.add(base[:i] + base[i+1:])
        subs.add(())
        for s in subs:
            for k in {1, abs(co)}:
                if s or k > 1: c.add((s, k))
    return sorted(c, key=lambda t: (any(ATOMS[a].kind == 'bvar' for a in t[0]), -len(t[0]), -t[1], t[0]))

def near(pc, g):
    """the facts that share an atom with g"""
    want = set(); fatoms(g, want)
    for a in list(want): want |= inner_atoms(a)
    out = []
    for f in pc:
        s = set(); fatoms(f, s)
        if s & want or any(inner_atoms(a) & want for a in s): out.append(f)
    return tuple(out)

def radix(E, pc, bounds, binders=frozenset(), depth=0):
    """equations implied by E = 0 under pc (list of polys), including E itself; None if contradictory"""
    f = eq(E)
    if f == FALSE: return None
    if f == TRUE: return []
    E = f[1]
    if depth > 12: return [E]
    if len(E.d) < 2: 
        # c*x = 0
        return [E]
    for W, k in weights(E, binders):
        Q, R = split_weight(E, W, k)
        if not Q.d or not R.d: continue
        w = Poly({W: k})
        # |R| < w
        g = and_(gt(w - R), gt(w + R))
        q = quick(bounds, g)
        if q is False: continue
        if q is None:
            npc = near(pc, g)
            try:
                if sample.refutes(npc, g, 32): continue
            except RecursionError: pass
            if not entails(npc, g, None, deep=False, count=False): continue
        a = radix(Q, pc, bounds, binders, depth + 1)
        if a is None: return None
        b = radix(R, pc, bounds, binders, depth + 1)
        if b is None: return None
        return a + b
    return [E]
