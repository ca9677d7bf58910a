"""Hash-consed terms: polynomials with rational coefficients over atoms, and quantifier-free formulas.

Integers are mathematical integers, floating point values are mathematical reals.  An atom is a symbol, an
array read, a quotient, a reciprocal, a root, an application of an uninterpreted function, an if-then-else or
a finite sum.  Polynomials are kept in canonical (expanded, collected) form, so ring equality is syntactic."""
from fractions import Fraction
import math

class Atom:
    __slots__ = ('id', 'kind', 'args', 'sort', 'lo', 'hi', 'vars', 'depth')

ATOMS = []
TABLE = {}
INV = {}        # atom id -> id of its reciprocal atom (both directions), single-atom bases only
SQ = set()      # ids of sqrt atoms

def _syms(x, out):
    if isinstance(x, Poly):
        for m in x.d:
            for a in m:
                out |= ATOMS[a].vars
    elif isinstance(x, tuple):
        for y in x: _syms(y, out)

def mk(kind, args, sort, lo=None, hi=None):
    key = (kind, args, sort)
    a = TABLE.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS); a.kind = kind; a.args = args; a.sort = sort; a.lo = lo; a.hi = hi
    v = set()
    if kind in ('sym', 'bvar'): v = {a.id}
    _syms(args, v)
    if kind == 'sum':
        v.discard(args[0])
        v.discard(('b', args[0]))
    a.vars = frozenset(v)
    ATOMS.append(a)
    TABLE[key] = a
    return a

_fresh = [0]
def fresh(name, sort='i', lo=None, hi=None):
    _fresh[0] += 1
    return mk('sym', ('%s#%d' % (name, _fresh[0]),), sort, lo, hi)

def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c

def _mmul(a, b):
    """product of two monomials -> (mono, extra Poly or None)"""
    if not a: return b, None
    if not b: return a, None
    r = list(a)
    for x in b:
        ix = INV.get(x)
        if ix is not None and ix in r:
            r.remove(ix)
        else:
            r.append(x)
    r.sort()
    if SQ:
        ex = None
        i = 0
        while i + 1 < len(r):
            if r[i] == r[i+1] and r[i] in SQ:
                p = ATOMS[r[i]].args[0]
                ex = p if ex is None else ex * p
                del r[i:i+2]
            else: i += 1
        if ex is not None:
            return tuple(r), ex
    return tuple(r), None

class Poly:
    __slots__ = ('d', '_h', '_k')
    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d
    def __ne__(self, o): return not self == o
    def __add__(self, o):
        if isinstance(o, (int, Fraction)): o = const(o)
        if len(o.d) > len(self.d): self, o = o, self
        if not o.d: return self
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x == 0: del d[m]
            else: d[m] = _norm(x)
        return Poly(d)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o):
        if isinstance(o, (int, Fraction)): o = const(o)
        if not o.d: return self
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) - c
            if x == 0: del d[m]
            else: d[m] = _norm(x)
        return Poly(d)
    def __rsub__(self, o): return const(o) - self
    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            if o == 0: return ZERO
            if o == 1: return self
            return Poly({m: _norm(c * o) for m, c in self.d.items()})
        if len(o.d) > len(self.d): self, o = o, self
        d = {}
        extra = []
        for m2, c2 in o.d.items():
            for m1, c1 in self.d.items():
                m, ex = _mmul(m1, m2)
                if ex is not None:
                    extra.append((m, ex, c1 * c2)); continue
                x = d.get(m, 0) + c1 * c2
                if x == 0: del d[m]
                else: d[m] = _norm(x)
        r = Poly(d)
        for m, ex, c in extra:
            r = r + Poly({m: _norm(c)}) * ex
        return r
    __rmul__ = __mul__
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)
    def cval(self):
        """constant value or None"""
        if not self.d: return 0
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None
    def c0(self): return self.d.get((), 0)
    def atoms(self):
        s = set()
        for m in self.d: s.update(m)
        return s
    def vars(self):
        s = set()
        for m in self.d:
            for a in m: s |= ATOMS[a].vars
        return s
    def single(self):
        """the atom if the polynomial is exactly one atom with coefficient 1"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1: return ATOMS[m[0]]
        return None
    def __repr__(self): return show(self)
    def __bool__(self): raise TypeError('Poly truth value')

ZERO = Poly({})
_cc = {}
def const(c):
    if c == 0: return ZERO
    if type(c) is Fraction: c = _norm(c)
    p = _cc.get(c)
    if p is None:
        p = Poly({(): c})
        if len(_cc) < 100000: _cc[c] = p
    return p
ONE = const(1)
def var(a): return Poly({(a.id,): 1})
def sym(name, sort='i', lo=None, hi=None): return var(mk('sym', (name,), sort, lo, hi))
def P(x): return x if isinstance(x, Poly) else const(x)

def show(p, depth=0):
    if isinstance(p, tuple):
        k = p[0] if p else ''
        if k in ('ge', 'gt', 'eq', 'ne'): return '(%s %s 0)' % (show(p[1]), {'ge': '>=', 'gt': '>', 'eq': '==', 'ne': '!='}[k])
        if k in ('and', 'or'): return '(' + (' & ' if k == 'and' else ' | ').join(show(x) for x in p[1]) + ')'
        if k == 'not': return '!' + show(p[1])
        return str(p)
    if not p.d: return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (len(t[0]), t[0])):
        s = '*'.join(showa(ATOMS[a], depth) for a in m)
        if not m: s = str(c)
        elif c == 1: pass
        elif c == -1: s = '-' + s
        else: s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')

def showa(a, depth=0):
    if a.kind in ('sym', 'bvar'): return str(a.args[0])
    if depth > 6: return a.kind + '(..)'
    if a.kind == 'sel': return '%s[%s]' % (a.args[0], show(a.args[1], depth + 1))
    return a.kind + '(' + ', '.join(show(x, depth + 1) if isinstance(x, (Poly, tuple)) else str(x) for x in a.args) + ')'

# ------------------------------------------------------------------ constructors
def content(p):
    """(positive) rational content of the coefficients"""
    from math import gcd
    n = 0; dn = 1
    for c in p.d.values():
        if type(c) is int: n = gcd(n, c)
        else:
            n = gcd(n, c.numerator); dn = dn * c.denominator // gcd(dn, c.denominator)
    # gcd of fractions
    if dn != 1:
        n = 0
        for c in p.d.values():
            n = gcd(n, int(c * dn))
    return _norm(Fraction(n, dn)) if n else 0

def leadsign(p):
    m = max(p.d)      # canonical monomial order
    return 1 if p.d[m] > 0 else -1

def common_mono(p):
    it = iter(p.d)
    cm = list(next(it))
    for m in it:
        r = []
        mm = list(m)
        for a in cm:
            if a in mm:
                mm.remove(a); r.append(a)
        cm = r
        if not cm: break
    return tuple(cm)

def mono_div(p, cm):
    d = {}
    for m, c in p.d.items():
        mm = list(m)
        for a in cm: mm.remove(a)
        d[tuple(mm)] = c
    return Poly(d)

def inv(p):
    """reciprocal of a real polynomial"""
    c = p.cval()
    if c is not None:
        if c == 0: return var(mk('inv', (ZERO,), 'r'))
        return const(Fraction(1) / c)
    cm = common_mono(p)
    r = ONE
    if cm:
        for a in cm: r = r * inv_atom(a)
        p = mono_div(p, cm)
        c = p.cval()
        if c is not None: return r * const(Fraction(1) / c)
    k = content(p) * leadsign(p)
    if k != 1: p = p * (Fraction(1) / k)
    # reciprocal atoms inside the denominator: clear them
    bad = [a for a in p.atoms() if ATOMS[a].kind == 'inv']
    if bad:
        a = bad[0]
        q = ATOMS[a].args[0]
        n = max(m.count(a) for m in p.d)
        s = p * (q ** n)
        s2 = clear(p, a, q, n)
        return r * inv(s2) * (q ** n) * (Fraction(1) / k)
    x = p.single()
    if x is not None: return r * inv_atom(x.id) * (Fraction(1) / k)
    a = mk('inv', (p,), 'r')
    return r * var(a) * (Fraction(1) / k)

def clear(p, a, q, n):
    """p * q^n with q*inv(q) cancelled, where a is the id of inv(q)"""
    qs = [ONE]
    for _ in range(n): qs.append(qs[-1] * q)
    r = ZERO
    for m, c in p.d.items():
        k = m.count(a)
        mm = tuple(x for x in m if x != a)
        r = r + Poly({mm: c}) * qs[n - k]
    return r

def inv_atom(aid):
    at = ATOMS[aid]
    if at.kind == 'inv': return at.args[0]
    i = INV.get(aid)
    if i is None:
        b = mk('inv', (var(at),), 'r')
        INV[aid] = b.id
        INV[b.id] = aid
        i = b.id
    return var(ATOMS[i])

def real_zero(p):
    """is the real polynomial p identically zero, modulo p*inv(p)=1 ?"""
    for _ in range(60):
        if not p.d: return True
        cand = [a for a in p.atoms() if ATOMS[a].kind == 'inv' and a not in INV]
        if not cand: return False
        # clear the outermost (largest id) first
        a = max(cand)
        q = ATOMS[a].args[0]
        n = max(m.count(a) for m in p.d)
        p = clear(p, a, q, n)
    return False

def rsqrt_content(c):
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator: return Fraction(n, d)
    return None

def sqrt(p):
    c = p.cval()
    if c is not None and c >= 0:
        r = rsqrt_content(c)
        if r is not None: return const(r)
        a = mk('sqrt', (p,), 'r', lo=0); SQ.add(a.id); return var(a)
    if p.d:
        k = content(p)
        r = rsqrt_content(k)
        if r is not None and r != 1:
            return sqrt(p * (Fraction(1) / k)) * const(r)
    a = mk('sqrt', (p,), 'r', lo=0)
    SQ.add(a.id)
    return var(a)

def fn(name, args, sort='r', lo=None, hi=None):
    return var(mk('fn', (name,) + tuple(args), sort, lo, hi))

def sel(base, idx, sort, lo=None, hi=None):
    return var(mk('sel', (base, idx), sort, lo, hi))

def ite(c, a, b):
    if c == TRUE: return a
    if c == FALSE: return b
    if a == b: return a
    if c[0] in ('ne', 'not') : c, a, b = neg(c), b, a
    sort = 'r' if (psort(a) == 'r' or psort(b) == 'r') else 'i'
    ca, cb = a.cval(), b.cval()
    lo = hi = None
    if ca is not None and cb is not None: lo, hi = min(ca, cb), max(ca, cb)
    # pull out the common part
    com = {m: x for m, x in a.d.items() if b.d.get(m) == x}
    if com:
        cp = Poly(com)
        return cp + ite(c, a - cp, b - cp)
    return var(mk('ite', (c, a, b), sort, lo, hi))

def psort(p):
    for m, c in p.d.items():
        if type(c) is Fraction: return 'r'
        for a in m:
            if ATOMS[a].sort == 'r': return 'r'
    return 'i'

# ------------------------------------------------------------------ formulas
TRUE = ('true',)
FALSE = ('false',)

def _intnorm(p):
    """divide by the gcd of the non-constant coefficients; returns (poly, g) with constants kept rational"""
    from math import gcd
    g = 0
    for m, c in p.d.items():
        if m: g = gcd(g, c)
    return g

def ge(p):
    """p >= 0"""
    c = p.cval()
    if c is not None: return TRUE if c >= 0 else FALSE
    if psort(p) == 'i':
        g = _intnorm(p)
        if g > 1:
            p = Poly({m: (x // g) for m, x in p.d.items() if m or x // g != 0})
            # floor for the constant tightens
        return ('ge', p)
    k = content(p)
    if k != 1: p = p * (Fraction(1) / k)
    return ('ge', p)

def gt(p):
    c = p.cval()
    if c is not None: return TRUE if c > 0 else FALSE
    if psort(p) == 'i': return ge(p - 1)
    k = content(p)
    if k != 1: p = p * (Fraction(1) / k)
    return ('gt', p)

def eq(p):
    c = p.cval()
    if c is not None: return TRUE if c == 0 else FALSE
    if psort(p) == 'i':
        g = _intnorm(p)
        if p.c0() % g: return FALSE
        p = Poly({m: x // g for m, x in p.d.items()}) if g > 1 else p
        if leadsign(p) < 0: p = -p
        return ('eq', p)
    k = content(p) * leadsign(p)
    if k != 1: p = p * (Fraction(1) / k)
    return ('eq', p)

def ne(p): return neg(eq(p))
def le(a, b): return ge(b - a)
def lt(a, b): return gt(b - a)
def eqv(a, b): return eq(a - b)

def neg(f):
    k = f[0]
    if k == 'true': return FALSE
    if k == 'false': return TRUE
    if k == 'ge': return gt(-f[1])
    if k == 'gt': return ge(-f[1])
    if k == 'eq': return ('ne', f[1])
    if k == 'ne': return ('eq', f[1])
    if k == 'and': return or_(*[neg(x) for x in f[1]])
    if k == 'or': return and_(*[neg(x) for x in f[1]])
    if k == 'not': return f[1]
    return ('not', f)

def and_(*fs):
    out = []
    for f in fs:
        if f == TRUE: continue
        if f == FALSE: return FALSE
        if f[0] == 'and':
            for x in f[1]:
                if x not in out: out.append(x)
        elif f not in out: out.append(f)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    for x in out:
        if neg_lit(x) in out: return FALSE
    return ('and', tuple(out))

def neg_lit(x):
    if x[0] in ('and', 'or'): return None
    return neg(x)

def or_(*fs):
    out = []
    for f in fs:
        if f == FALSE: continue
        if f == TRUE: return TRUE
        if f[0] == 'or':
            for x in f[1]:
                if x not in out: out.append(x)
        elif f not in out: out.append(f)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    for x in out:
        if neg_lit(x) in out: return TRUE
    return ('or', tuple(out))

def batom(name, *args): return ('b', name) + tuple(args)

# ------------------------------------------------------------------ traversal
def fpolys(f, out):
    k = f[0]
    if k in ('ge', 'gt', 'eq', 'ne'): out.append(f[1])
    elif k in ('and', 'or'):
        for x in f[1]: fpolys(x, out)
    elif k == 'not': fpolys(f[1], out)
    elif k == 'b':
        for x in f[2:]:
            if isinstance(x, Poly): out.append(x)

def fvars(f):
    l = []
    fpolys(f, l)
    s = set()
    for p in l: s |= p.vars()
    return s

class Subst:
    def __init__(self, mp):
        self.mp = mp              # atom id -> Poly
        self.ks = frozenset(mp)
        self.ca = {}
        self.cp = {}
    def atom(self, aid):
        r = self.mp.get(aid)
        if r is not None: return r
        r = self.ca.get(aid)
        if r is not None: return r
        a = ATOMS[aid]
        if not (a.vars & self.ks):
            r = var(a)
        else:
            r = rebuild(a, tuple(self.any(x) for x in a.args))
        self.ca[aid] = r
        return r
    def any(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, tuple): return self.form(x)
        return x
    def poly(self, p):
        if not isinstance(p, Poly): return p
        r = self.cp.get(p)
        if r is not None: return r
        if not (p.vars() & self.ks):
            self.cp[p] = p
            return p
        r = ZERO
        for m, c in p.d.items():
            t = None
            keep = []
            for a in m:
                if ATOMS[a].vars & self.ks:
                    q = self.atom(a)
                    t = q if t is None else t * q
                else: keep.append(a)
            if t is None: r = r + Poly({m: c})
            else: r = r + t * Poly({tuple(keep): c})
        self.cp[p] = r
        return r
    def form(self, f):
        k = f[0] if f else None
        if k == 'ge': return ge(self.poly(f[1]))
        if k == 'gt': return gt(self.poly(f[1]))
        if k == 'eq': return eq(self.poly(f[1]))
        if k == 'ne': return ne(self.poly(f[1]))
        if k == 'and': return and_(*[self.form(x) for x in f[1]])
        if k == 'or': return or_(*[self.form(x) for x in f[1]])
        if k == 'not': return neg(self.form(f[1]))
        if k == 'b': return ('b', f[1]) + tuple(self.any(x) for x in f[2:])
        if k in ('true', 'false'): return f
        return tuple(self.any(x) for x in f)

DIVHOOK = [None]
def rebuild(a, args):
    k = a.kind
    if k == 'inv': return inv(args[0])
    if k == 'sqrt': return sqrt(args[0])
    if k == 'div': return div0(args[0], args[1])
    if k == 'ite': return ite(*args)
    if k == 'fn': return mkfn(args[0], args[1:], a.sort)
    return var(mk(k, args, a.sort, a.lo, a.hi))

def mkfn(name, args, sort):
    if name == 'pow' and args[1].cval() is not None: return powr(args[0], args[1])
    return var(mk('fn', (name,) + tuple(args), sort))

def powr(a, b):
    c = b.cval()
    if c is not None:
        if c == int(c) and 0 <= c <= 12: return a ** int(c)
        if c == int(c) and -12 <= c < 0: return inv(a) ** int(-c)
        if c == Fraction(1, 2): return sqrt(a)
    if a == ONE: return ONE
    if len(a.d) == 1:
        (m, x), = a.d.items()
        if x == 1 and len(m) == 1 and ATOMS[m[0]].kind == 'ite':
            t = ATOMS[m[0]].args
            return ite(t[0], powr(t[1], b), powr(t[2], b))
    return fn('pow', (a, b))

def div0(p, d):
    """floor division (d > 0), purely syntactic simplification"""
    c, e = p.cval(), d.cval()
    if e == 1: return p
    if e is not None and e != 0:
        # split multiples of a constant divisor
        q = {}; r = {}
        for m, x in p.d.items():
            if type(x) is int and type(e) is int:
                qq, rr = (x // e, x % e) if not m else (x // e, x - (x // e) * e)
                if m and x % e: # keep whole coefficient in remainder part, only exact multiples move
                    r[m] = x
                else:
                    if qq: q[m] = qq
                    if rr: r[m] = rr
            else: return var(mk('div', (p, d), 'i'))
        if not r: return Poly(q)
        if q: return Poly(q) + div0(Poly(r), d)
        if not [m for m in r if m]: return ZERO if 0 <= r[()] < e else const(r[()] // e)
    elif len(d.d) == 1 and p.d:
        # monomial divisor: exact multiples move out
        (dm, dc), = d.d.items()
        q = {}; r = {}
        for m, x in p.d.items():
            mm = list(m); ok = type(x) is int and x % dc == 0
            if ok:
                for t in dm:
                    if t in mm: mm.remove(t)
                    else: ok = False; break
            if ok: q[tuple(mm)] = x // dc
            else: r[m] = x
        if not r: return Poly(q)
        if q: return Poly(q) + div0(Poly(r), d)
    if p == d: return ONE
    if not p.d: return ZERO
    return var(mk('div', (p, d), 'i'))

def rationalize(x, bits):
    """the simplest rational (denominator <= 20000) that rounds to the given machine constant, else its exact value"""
    f = Fraction(x)
    if f.denominator <= 1024: return f
    eps = abs(f) * Fraction(1, 2 ** bits)
    g = f.limit_denominator(20000)
    if abs(g - f) <= eps and g != 0:
        return g
    # short decimals
    for nd in range(1, 12):
        q = Fraction(round(f * 10 ** nd), 10 ** nd)
        if q != 0 and abs(q - f) <= eps: return q
    return f
