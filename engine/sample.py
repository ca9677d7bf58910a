"""Concrete sample points of path conditions: a goal that is false at a sample is not entailed, so no prover is called."""
import random
from fractions import Fraction
from terms import *

class Bad(Exception): pass
R = random.Random(12345)

LEAF = ('sym', 'bvar', 'sel', 'fn')
def is_leaf(a):
    return a.kind in ('sym', 'bvar', 'sel') or (a.kind == 'fn' and ('#' in str(a.args[0]) or a.args[0] in ('hv', 'fog')))

_dep = {}
def leaves(aid):
    """leaf atoms whose values are needed for this atom (leaf sym/bvar only; function leaves contribute their arguments)"""
    r = _dep.get(aid)
    if r is None:
        a = ATOMS[aid]
        s = set()
        if a.kind in ('sym', 'bvar'): s = {aid}
        else:
            if is_leaf(a): s.add(aid)
            for x in a.args: _lv(x, s)
        r = frozenset(s)
        _dep[aid] = r
    return r
def _lv(x, s):
    if isinstance(x, Poly):
        for m in x.d:
            for b in m: s |= leaves(b)
    elif isinstance(x, tuple):
        for y in x: _lv(y, s)
_fl = {}
def fleaves(f):
    r = _fl.get(f)
    if r is None:
        s = set(); _lv(f, s); r = frozenset(s); _fl[f] = r
    return r

class Pt:
    __slots__ = ('v', 'uf')
    def __init__(self, v=None, uf=None): self.v = dict(v or {}); self.uf = dict(uf or {})
    def copy(self): return Pt(self.v, self.uf)
    def atom(self, aid):
        r = self.v.get(aid)
        if r is not None: return r
        a = ATOMS[aid]
        k = a.kind
        if k in ('sym', 'bvar'):
            r = pick(a.sort, a.lo, a.hi)
            self.v[aid] = r
            return r
        if k == 'sel' or (k == 'fn' and is_leaf(a)):
            key = (k,) + tuple(self.poly(x) if isinstance(x, Poly) else x for x in a.args) + (a.sort,)
            r = self.uf.get(key)
            if r is None:
                r = pick(a.sort, a.lo, a.hi)
                self.uf[key] = r
            return r
        if k == 'div':
            p, d = self.poly(a.args[0]), self.poly(a.args[1])
            if d <= 0: raise Bad
            return p // d
        if k == 'ite': return self.poly(a.args[1]) if self.form(a.args[0]) else self.poly(a.args[2])
        if k == 'fn' and a.args[0] == 'floor': 
            x = self.poly(a.args[1]); return x.numerator // x.denominator if isinstance(x, Fraction) else x
        if k == 'fn' and a.args[0] == 'fabs': return abs(self.poly(a.args[1]))
        if k == 'inv':
            x = self.poly(a.args[0])
            if x == 0: raise Bad
            return Fraction(1) / x
        raise Bad
    def poly(self, p):
        t = 0
        for m, c in p.d.items():
            x = c
            for a in m: x = x * self.atom(a)
            t += x
        if type(t) is Fraction and t.denominator == 1: t = t.numerator
        return t
    def form(self, f):
        k = f[0]
        if k == 'true': return True
        if k == 'false': return False
        if k == 'ge': return self.poly(f[1]) >= 0
        if k == 'gt': return self.poly(f[1]) > 0
        if k == 'eq': return self.poly(f[1]) == 0
        if k == 'ne': return self.poly(f[1]) != 0
        if k == 'and': return all(self.form(x) for x in f[1])
        if k == 'or': return any(self.form(x) for x in f[1])
        if k == 'not': return not self.form(f[1])
        if k == 'b':
            r = self.uf.get(f)
            if r is None: r = R.random() < .5; self.uf[f] = r
            return r
        raise Bad

def pick(sort, lo, hi):
    u = R.random()
    if sort == 'r':
        if lo is None and hi is None: lo, hi = -3, 3
        elif lo is None: lo = hi - 4
        elif hi is None: hi = lo + 4
        elif hi - lo > 1000: hi = lo + 4
        x = Fraction(R.randint(0, 12), 12) if u < .9 else Fraction(R.randint(0, 1000), 1000)
        return lo + (hi - lo) * x
    import math
    if lo is not None: lo = math.ceil(lo)
    if hi is not None: hi = math.floor(hi)
    if lo is None and hi is None: return R.randint(-4, 4)
    if lo is None: return hi - R.randint(0, 4)
    if hi is None: return lo + R.randint(0, 4)
    if hi < lo: raise Bad
    if lo < -1000 and hi > 1000: return R.randint(-4, 4) if u < .9 else R.choice((lo, hi))
    if u < .2: return lo
    if u < .4 and hi - lo < 100000: return hi
    return R.randint(lo, min(hi, lo + (5 if u < .85 else 40)))

def solve_atom(pt, aid, fs):
    """bounds on leaf atom aid from formulas whose other leaves are assigned; then pick"""
    a = ATOMS[aid]
    lo, hi = a.lo, a.hi
    def tight(k, p):
        nonlocal lo, hi
        C = 0; rest = 0
        for m, c in p.d.items():
            n = m.count(aid)
            if n > 1: return
            if n == 1:
                x = c
                for b in m:
                    if b != aid:
                        if aid in leaves(b): return
                        x = x * pt.atom(b)
                C += x
            else:
                x = c
                for b in m:
                    if aid in leaves(b): return
                    x = x * pt.atom(b)
                rest += x
        if C == 0: return
        b = Fraction(-rest) / C
        if k == 'eq': l = h = b
        elif C > 0:
            l, h = b, None
        else: l, h = None, b
        if k == 'gt' and a.sort == 'r':
            if l is not None: l = l + Fraction(1, 24)
            if h is not None: h = h - Fraction(1, 24)
        if l is not None and (lo is None or l > lo): lo = l
        if h is not None and (hi is None or h < hi): hi = h
    for f in fs:
        if f[0] in ('ge', 'gt', 'eq'): tight(f[0], f[1])
        elif f[0] == 'or' and len(f[1]) <= 3:
            pass
    v = pick(a.sort, lo, hi)
    if a.kind in ('sym', 'bvar'): pt.v[aid] = v
    else:
        key = (a.kind,) + tuple(pt.poly(x) if isinstance(x, Poly) else x for x in a.args) + (a.sort,)
        if key in pt.uf: return
        pt.uf[key] = v

def extend(pt, fs):
    """assign all leaves of fs (unassigned ones) and check fs"""
    need = set()
    for f in fs: need |= fleaves(f)
    todo = sorted(a for a in need if a not in pt.v and (ATOMS[a].kind in ('sym', 'bvar')))
    fn = sorted(a for a in need if ATOMS[a].kind not in ('sym', 'bvar'))
    rem = set(todo)
    order = sorted(set(todo) | set(fn))
    for aid in order:
        if ATOMS[aid].kind not in ('sym', 'bvar') and (leaves(aid) - {aid}) & rem:
            for b in sorted((leaves(aid) - {aid}) & rem):
                if ATOMS[b].kind in ('sym', 'bvar'):
                    solve_atom(pt, b, [f for f in fs if b in fleaves(f) and not ((fleaves(f) - {b}) & rem - set()) - {b}]); rem.discard(b)
        if ATOMS[aid].kind in ('sym', 'bvar') and aid not in rem: continue
        rem.discard(aid)
        rel = [f for f in fs if aid in fleaves(f) and not (fleaves(f) & rem)]
        # function leaves created later than aid are unassigned too
        rel = [f for f in rel if not any(b > aid and ATOMS[b].kind not in ('sym', 'bvar') and not known(pt, b) for b in fleaves(f))]
        solve_atom(pt, aid, rel)
    return all(pt.form(f) for f in fs)

def known(pt, b):
    try:
        a = ATOMS[b]
        key = (a.kind,) + tuple(pt.poly(x) if isinstance(x, Poly) else x for x in a.args) + (a.sort,)
        return key in pt.uf
    except Bad: return False

CACHE = {}
TRIED = set()
def samples(pc, want=4):
    r = CACHE.get(pc)
    if r is not None and (want <= 4 or len(r) >= want // 2 or (pc, want) in TRIED): return r
    TRIED.add((pc, want))
    # longest cached prefix
    out = []
    n = len(pc)
    j = n - 1
    while j > 0 and pc[:j] not in CACHE and n - j < 12: j -= 1
    par = CACHE.get(pc[:j]) if j > 0 else None
    if par:
        new = pc[j:]
        for p in par:
            for _ in range(2):
                q = p.copy()
                try:
                    if extend(q, new): out.append(q)
                except Bad: pass
                if len(out) >= want: break
    tries = 0
    while len(out) < want and tries < (16 if not out else 8) * want // 4:
        tries += 1
        q = Pt()
        try:
            if extend(q, pc): out.append(q)
        except Bad: pass
    if len(CACHE) > 200000: CACHE.clear()
    CACHE[pc] = out
    return out

def refutes(pc, goal, want=4):
    """True if some sample of pc falsifies the goal"""
    for p in samples(pc, want):
        n = len(p.v); m = len(p.uf)
        try:
            for _ in range(2):
                q = p if goal[0] != 'x' else p
                q = p.copy()
                if not q.form(goal): return True
                if len(q.v) == n and len(q.uf) == m: break
        except Bad: pass
    return False
