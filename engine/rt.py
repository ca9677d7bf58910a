"""Contracts of what the code under verification calls but does not define: compiler intrinsics, libm, allocation,
and the specification primitives of the harnesses (v_*)."""
from terms import *
import solve, terms
import sx as S
from sx import Ptr, Vec, Agg, Raw, Mask, NULL, UNDEF, Unsupported, Obl
import ir
from fractions import Fraction

T = {}
def reg(*names):
    def d(f):
        for n in names: T[n] = f
        return f
    return d

PREFIX = []
def regp(p):
    def d(f):
        PREFIX.append((p, f)); return f
    return d

_cache = {}
def lookup(name):
    n = name[1:]
    r = T.get(n)
    if r is not None: return r
    if n in _cache: return _cache[n]
    r = None
    for p, f in PREFIX:
        if n.startswith(p): r = f; break
    _cache[n] = r
    return r

def vmap(f, *vs):
    if isinstance(vs[0], Vec): return Vec([f(*t) for t in zip(*vs)])
    return f(*vs)

# ---------------------------------------------------------------- spec primitives
def cstr(sx, st, p):
    o = st.mem.get(p.o)
    r = []
    i = p.f.cval()
    while True:
        c = o.cells.get(i)
        if c is None or c[1].cval() in (0, None): break
        r.append(chr(c[1].cval() % 256)); i += 1
    return ''.join(r)

@reg('v_assume')
def v_assume(sx, st, a, I):
    c = sx.boolv(st, a[0])
    if not st.assume(c): return []
    if not solve.feasible(st.pc, st.bounds): return []
    return [(st, None)]

@reg('v_assert_')
def v_assert(sx, st, a, I):
    c = sx.boolv(st, a[0])
    lab = cstr(sx, st, a[1])
    for g in (c[1] if c[0] == 'and' else (c,)):
        sx.obls.append(Obl(st.pc, g, lab, sx.where(I), 'assert'))
    st = st.fork()
    if not st.assume(c): return []
    return [(st, None)]

@reg('v_check_eq')
def v_check_eq(sx, st, a, I):
    lab = cstr(sx, st, a[4])
    x, y = a[0], a[1]
    if x is UNDEF or y is UNDEF:
        sx.obls.append(Obl(st.pc, FALSE, lab + ' (undefined value)', sx.where(I), 'assert'))
        return [(st, None)]
    sx.obls.append(Obl(st.pc, ('eq', x - y) if not (x - y).isconst() else eq(x - y), lab, sx.where(I), 'assert'))
    return [(st, None)]

@reg('v_split')
def v_split(sx, st, a, I):
    # case distinction: go on once with the condition and once with its negation
    c = sx.boolv(st, a[0])
    out = []
    for f in (c, neg(c)):
        s = st.fork()
        if s.assume(f) and solve.feasible(s.pc, s.bounds): out.append((s, None))
    return out

@reg('v_sumterm')
def v_sumterm(sx, st, a, I):
    # the k-th of n terms that add up to the given total: each sum over n iterations contributes its body at k, the rest is spread evenly
    total, k, n = a
    out, rest = ZERO, ZERO
    same = {}
    for m, c in total.d.items():
        hit = None
        for i in m:
            A = ATOMS[i]
            if A.kind != 'sum': continue
            if i not in same:
                same[i] = A.args[1] == n or (sx.prove(st, ge(A.args[1] - n)) and sx.prove(st, ge(n - A.args[1])))
            if same[i]: hit = i; break
        if hit is None: rest = rest + Poly({m: c}); continue
        q = list(m); q.remove(hit)
        out = out + Poly({tuple(q): c}) * Subst({ATOMS[hit].args[0]: k}).poly(ATOMS[hit].args[2])
    if rest.d:
        r = div_exact_var(rest, n)
        out = out + (r if r is not None else rest * fn_inv(sx, st, n))
    return [(st, Ctx(sx, st).poly(out))]

@reg('v_here')
def v_here(sx, st, a, I):
    # the same value with the case distinctions that the path decides resolved
    return [(st, Ctx(sx, st).poly(a[0]))]

class Ctx:
    """divisions and case distinctions inside a term, resolved in the context of a path"""
    def __init__(self, sx, st): self.sx, self.st, self.ca, self.cf = sx, st, {}, {}
    def poly(self, p):
        r = ZERO
        for m, c in p.d.items():
            t = Poly({(): c}); z = False
            # case distinctions first: most cases vanish
            for i in sorted(m, key=lambda i: ATOMS[i].kind != 'ite'):
                q = self.atom(i)
                if not q.d: z = True; break
                t = t * q
            if not z: r = r + t
        return r
    def atom(self, i):
        r = self.ca.get(i)
        if r is not None: return r
        A = ATOMS[i]
        if not any(ATOMS[j].kind in ('div', 'ite') for j in solve.inner_atoms(i)): r = var(A)
        elif A.kind == 'div': r = self.sx.mkdiv(self.st, self.poly(A.args[0]), self.poly(A.args[1]))
        elif A.kind == 'ite':
            c = self.form(A.args[0])
            r = self.poly(A.args[1]) if c == TRUE else self.poly(A.args[2]) if c == FALSE else ite(c, self.poly(A.args[1]), self.poly(A.args[2]))
        else: r = terms.rebuild(A, tuple(self.poly(x) if isinstance(x, Poly) else x for x in A.args))
        self.ca[i] = r
        return r
    def form(self, f):
        r = self.cf.get(f)
        if r is None:
            if f[0] in ('ge', 'gt', 'eq', 'ne'):
                g = {'ge': ge, 'gt': gt, 'eq': eq, 'ne': ne}[f[0]](self.poly(f[1]))
                r = TRUE if self.sx.prove(self.st, g) else FALSE if self.sx.prove(self.st, neg(g)) else g
            elif f[0] == 'and':
                l = []
                for x in f[1]:
                    y = self.form(x)
                    if y == FALSE: l = [FALSE]; break
                    l.append(y)
                r = and_(*l)
            elif f[0] == 'or':
                l = []
                for x in f[1]:
                    y = self.form(x)
                    if y == TRUE: l = [TRUE]; break
                    l.append(y)
                r = or_(*l)
            elif f[0] == 'not': r = neg(self.form(f[1]))
            else: r = f
            self.cf[f] = r
        return r

def div_exact_var(p, n):
    if len(n.d) != 1: return None
    (mn, cn), = n.d.items()
    o = ZERO
    for m, c in p.d.items():
        q = list(m)
        for i in mn:
            if i not in q: return None
            q.remove(i)
        o = o + Poly({tuple(q): Fraction(c) / cn})
    return o

def fn_inv(sx, st, n):
    raise Unsupported('total is not a sum over this many terms')

@reg('v_cover')
def v_cover(sx, st, a, I):
    lab = cstr(sx, st, a[0])
    sx.pathcover.setdefault(lab, []).append((st.pc, st.bounds))
    return [(st, None)]

@reg('v_ufn')
def v_ufn(sx, st, a, I): return [(st, fn(cstr(sx, st, a[0]), tuple(a[1:])))]

@reg('v_int_')
def v_int(sx, st, a, I):
    nm = cstr(sx, st, a[0])
    v = sx.skolem(nm, 'i')
    sx.inputs.append(v)
    if not st.assume(and_(ge(v - a[1]), ge(a[2] - v))): return []
    if not solve.feasible(st.pc, st.bounds): return []
    return [(st, v)]

@reg('v_any_in')
def v_any_in(sx, st, a, I):
    # for-all over lo <= i < hi ; a = name, lo, hi, &i
    nm = cstr(sx, st, a[0])
    lo, hi = a[1], a[2]
    out = []
    # the path that skips the block goes on without any assumption; the path through it ends with it
    out.append((st.fork(), ZERO))
    v = sx.skolem(nm, 'i')
    if st.assume(and_(ge(v - lo), gt(hi - v))) and solve.feasible(st.pc, st.bounds):
        for s3 in sx.store(st, ir.tint(64), v, a[3], I): out.append((s3, ONE))
    return out

@reg('v_real_')
def v_real(sx, st, a, I):
    nm = cstr(sx, st, a[0])
    v = sx.skolem(nm, 'r')
    sx.inputs.append(v)
    lo, hi = a[1].cval(), a[2].cval()
    if lo is not None and lo > -10**30: st.assume(ge(v - lo))
    if hi is not None and hi < 10**30: st.assume(ge(const(hi) - v))
    return [(st, v)]

@reg('v_choose')
def v_choose(sx, st, a, I):
    n = a[0].cval()
    return [(st.fork() if i else st, const(i)) for i in range(n)]

KINDS = {0: (8, 'r', ir.DOUBLE, None), 1: (4, 'r', ir.FLOAT, None), 2: (1, 'i', ir.tint(8), (0, 255)), 3: (4, 'i', ir.tint(32), (-2**31, 2**31 - 1)),
         4: (8, 'i', ir.tint(64), (-2**63, 2**63 - 1))}
@reg('v_array_')
def v_array(sx, st, a, I):
    nm = cstr(sx, st, a[0])
    es, sort, ty, lohi = KINDS[a[2].cval()]
    n = a[1]
    oid = sx.new_obj(st, nm, n * es, es=es, sort=sort, lohi=lohi, flt=ty)
    st.mem[oid].base = oid
    return [(st, Ptr(oid, ZERO))]

@reg('v_cells_')
def v_cells(sx, st, a, I):
    # uninitialised record object of constant size
    nm = cstr(sx, st, a[0])
    oid = sx.new_obj(st, nm, a[1])
    st.mem[oid].cells = {}
    st.mem[oid].es = None
    return [(st, Ptr(oid, ZERO))]

@reg('v_zeroed_')
def v_zeroed(sx, st, a, I):
    nm = cstr(sx, st, a[0])
    oid = sx.new_obj(st, nm, a[1])
    o = st.mem[oid]
    o.cells = {}; o.zero = True
    return [(st, Ptr(oid, ZERO))]

@reg('v_old')
def v_old(sx, st, a, I):
    p = a[0]
    o = st.mem[p.o].copy()
    sx.nobj += 1
    oid = 'old_%s.%d' % (p.o, sx.nobj)
    st.mem[oid] = o
    return [(st, Ptr(oid, p.f))]

@reg('v_fn1')
def v_fn1(sx, st, a, I):
    return [(st, fn('u_' + cstr(sx, st, a[0]), (a[1],)))]

@reg('v_dead')
def v_dead(sx, st, a, I): return []

@reg('v_prove')          # does the current path entail the condition?  (used to choose proof strategies only)
def v_prove(sx, st, a, I):
    return [(st, ONE if sx.prove(st, sx.boolv(st, a[0])) else ZERO)]

@reg('v_trace')
def v_trace(sx, st, a, I):
    print('TRACE', cstr(sx, st, a[0]), a[1]); return [(st, None)]

# ---------------------------------------------------------------- intrinsics
@regp('llvm.memcpy')
def _(sx, st, a, I): return [(s, None) for s in sx.memcpy(st, a[0], a[1], a[2], I)]
@regp('llvm.memmove')
def _(sx, st, a, I): return [(s, None) for s in sx.memcpy(st, a[0], a[1], a[2], I)]
@reg('memcpy', 'memmove', '__memcpy_chk')
def _(sx, st, a, I): return [(s, a[0]) for s in sx.memcpy(st, a[0], a[1], a[2], I)]
@regp('llvm.memset')
def _(sx, st, a, I): return [(s, None) for s in sx.memset(st, a[0], a[1], a[2], I)]
@reg('memset')
def _(sx, st, a, I): return [(s, a[0]) for s in sx.memset(st, a[0], a[1], a[2], I)]

def noop(sx, st, a, I): return [(st, None)]
for p in ('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.stackrestore', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.invariant', 'llvm.donothing', 'llvm.va_'): PREFIX.append((p, noop))
for p in ('llvm.trap', 'llvm.ubsantrap'): PREFIX.append((p, lambda sx, st, a, I: []))
@regp('llvm.expect')
def _(sx, st, a, I): return [(st, a[0])]
@regp('llvm.stacksave')
def _(sx, st, a, I): return [(st, NULL)]
@regp('llvm.objectsize')
def _(sx, st, a, I): return [(st, const(-1))]
@regp('llvm.is.constant')
def _(sx, st, a, I): return [(st, FALSE)]

def r1(f): return lambda sx, st, a, I: [(st, vmap(lambda x: UNDEF if x is UNDEF else f(sx, st, x), a[0]))]
def r2(f): return lambda sx, st, a, I: [(st, vmap(lambda x, y: UNDEF if (x is UNDEF or y is UNDEF) else f(sx, st, x, y), a[0], a[1]))]

def ufn(name):
    def f(sx, st, x):
        c = x.cval()
        if c is not None:
            if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh') and c == 0: return ZERO
            if name in ('cos', 'exp', 'cosh') and c == 0: return ONE
            if name == 'log' and c == 1: return ZERO
        if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh') and leadsign(x) < 0: return -fn(name, (-x,))
        if name in ('cos', 'cosh') and leadsign(x) < 0: return fn(name, (-x,))
        return fn(name, (x,))
    return f
for nm in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'log2', 'exp2', 'cbrt', 'tgamma', 'lgamma', 'erf', 'j0', 'j1', 'y0', 'y1', 'expm1', 'log1p'):
    h = r1(ufn(nm))
    T[nm] = h; T[nm + 'f'] = h; PREFIX.append(('llvm.%s.' % nm, h))
def rsqrt_(sx, st, x): return sqrt(x)
for n in ('sqrt', 'sqrtf'): T[n] = r1(rsqrt_)
for p in ('llvm.sqrt.', 'llvm.x86.avx.sqrt', 'llvm.x86.sse2.sqrt', 'llvm.x86.sse.sqrt'): PREFIX.append((p, r1(rsqrt_)))
for n in ('fabs', 'fabsf'): T[n] = r1(lambda sx, st, x: sx.fabs(x))
PREFIX.append(('llvm.fabs.', r1(lambda sx, st, x: sx.fabs(x))))
def fl(sx, st, x): return sx.floor(x)
for n in ('floor', 'floorf'): T[n] = r1(fl)
PREFIX.append(('llvm.floor.', r1(fl)))
cl = r1(lambda sx, st, x: -sx.floor(-x))
for n in ('ceil', 'ceilf'): T[n] = cl
PREFIX.append(('llvm.ceil.', cl))
rd = r1(lambda sx, st, x: sx.floor(x + Fraction(1, 2)))     # ties are a null set; stated in the trusted base
for n in ('round', 'roundf', 'rint', 'nearbyint', 'lround', 'lrint', 'rintf'): T[n] = rd
for p in ('llvm.round.', 'llvm.rint.', 'llvm.nearbyint.', 'llvm.roundeven', 'llvm.lround', 'llvm.lrint'): PREFIX.append((p, rd))
def x86round(sx, st, a, I):
    m = a[1].cval() & 7
    if m in (1, 9): f = lambda x: sx.floor(x)
    elif m in (2, 10): f = lambda x: -sx.floor(-x)
    elif m in (0, 8): f = lambda x: sx.floor(x + Fraction(1, 2))
    elif m == 4 or m == 12: f = lambda x: sx.floor(x + Fraction(1, 2))
    elif m in (3, 11): f = lambda x: sx.toint(st, x)
    else: raise Unsupported('round mode %d' % m)
    return [(st, vmap(lambda x: UNDEF if x is UNDEF else f(x), a[0]))]
PREFIX.append(('llvm.x86.avx.round', x86round))
PREFIX.append(('llvm.x86.sse41.round', x86round))
for n in ('trunc', 'truncf'): T[n] = r1(lambda sx, st, x: sx.toint(st, x))
PREFIX.append(('llvm.trunc.', r1(lambda sx, st, x: sx.toint(st, x))))
def fpow(sx, st, x, y): return powr(x, y)
for n in ('pow', 'powf'): T[n] = r2(fpow)
PREFIX.append(('llvm.pow.', r2(fpow)))
PREFIX.append(('llvm.powi.', lambda sx, st, a, I: [(st, vmap(lambda x: powr(x, a[1]), a[0]))]))
for n in ('atan2', 'atan2f', 'fmod', 'fmodf', 'hypot', 'hypotf', 'ldexp'):
    def mk2(nm):
        return r2(lambda sx, st, x, y: sqrt(x * x + y * y) if nm.startswith('hypot') else fn(nm.rstrip('f') if nm not in ('fmod',) else nm, (x, y)))
    T[n] = mk2(n)
def fma(sx, st, a, I):
    return [(st, vmap(lambda x, y, z: UNDEF if UNDEF in (x, y, z) else x * y + z, a[0], a[1], a[2]))]
for p in ('llvm.fma.', 'llvm.fmuladd.'): PREFIX.append((p, fma))
T['fma'] = T['fmaf'] = fma
def fmin(sx, st, x, y): return ite(ge(y - x), x, y)
def fmax(sx, st, x, y): return ite(ge(x - y), x, y)
# x86 min/max return the second operand on ties; equal values are identical reals
for p in ('llvm.minnum.', 'llvm.minimum.', 'llvm.x86.avx.min.p', 'llvm.x86.sse2.min', 'llvm.x86.sse.min'): PREFIX.append((p, r2(fmin)))
for p in ('llvm.maxnum.', 'llvm.maximum.', 'llvm.x86.avx.max.p', 'llvm.x86.sse2.max', 'llvm.x86.sse.max'): PREFIX.append((p, r2(fmax)))
for n in ('fmin', 'fminf'): T[n] = r2(fmin)
for n in ('fmax', 'fmaxf'): T[n] = r2(fmax)
@regp('llvm.copysign')
def _(sx, st, a, I):
    return [(st, vmap(lambda x, y: ite(ge(y), sx.fabs(x), -sx.fabs(x)), a[0], a[1]))]
@regp('llvm.x86.avx.blendv')
def blendv(sx, st, a, I):
    def f(x, y, m):
        if isinstance(m, Mask): return sx.sel2(m.c, y, x)
        if m is UNDEF: return UNDEF
        if isinstance(m, Poly): return sx.sel2(gt(-m), y, x)     # sign bit
        raise Unsupported('blend mask')
    return [(st, Vec([f(x, y, m) for x, y, m in zip(*a[:3])]))]
PREFIX.append(('llvm.x86.sse41.blendv', blendv))
@regp('llvm.x86.avx2.pblendvb')
def _(sx, st, a, I): raise Unsupported('pblendvb')
@regp('llvm.x86.avx.hadd.pd.256')
def _(sx, st, a, I):
    x, y = a
    return [(st, Vec([x[0] + x[1], y[0] + y[1], x[2] + x[3], y[2] + y[3]]))]
@regp('llvm.x86.avx.hadd.ps.256')
def _(sx, st, a, I):
    x, y = a
    return [(st, Vec([x[0] + x[1], x[2] + x[3], y[0] + y[1], y[2] + y[3], x[4] + x[5], x[6] + x[7], y[4] + y[5], y[6] + y[7]]))]
@regp('llvm.x86.avx.addsub')
def _(sx, st, a, I):
    x, y = a
    return [(st, Vec([p - q if i % 2 == 0 else p + q for i, (p, q) in enumerate(zip(x, y))]))]
@regp('llvm.x86.avx2.permps')
def _(sx, st, a, I):
    x, m = a
    return [(st, Vec([x[c.cval() % 8] for c in m]))]
@regp('llvm.x86.avx2.permd')
def _(sx, st, a, I):
    x, m = a
    return [(st, Vec([x[c.cval() % 8] for c in m]))]
@regp('llvm.x86.avx.vpermilvar.ps.256')
def _(sx, st, a, I):
    x, m = a
    return [(st, Vec([x[(i // 4) * 4 + c.cval() % 4] for i, c in enumerate(m)]))]
@regp('llvm.x86.avx.vpermilvar.pd.256')
def _(sx, st, a, I):
    x, m = a
    return [(st, Vec([x[(i // 2) * 2 + (c.cval() >> 1) % 2] for i, c in enumerate(m)]))]

def cmpint(name, f):
    def h(sx, st, a, I):
        n = 64 if '.i64' in I.a[0][1] else 8 if '.i8' in I.a[0][1] else 32
        def g(x, y):
            if name[0] == 's': x2, y2 = sx.srange(st, x, n), sx.srange(st, y, n)
            else: x2, y2 = sx.urange(st, x, n), sx.urange(st, y, n)
            return f(sx, st, x2, y2)
        if isinstance(a[0], Vec): return [(st, vmap(g, a[0], a[1]))]
        x, y = a[0], a[1]
        if name[0] == 's': x, y = sx.srange(st, x, n), sx.srange(st, y, n)
        else: x, y = sx.urange(st, x, n), sx.urange(st, y, n)
        c = ge(y - x)
        if name[1:] == 'max': x, y = y, x
        return [(s, v) for s, v in sx.split(st, c, x, y)]
    return h
for nm in ('smin', 'smax', 'umin', 'umax'):
    f = (lambda sx, st, x, y: ite(ge(y - x), x, y)) if nm.endswith('min') else (lambda sx, st, x, y: ite(ge(x - y), x, y))
    PREFIX.append(('llvm.%s.' % nm, cmpint(nm, f)))
@regp('llvm.abs.')
def _(sx, st, a, I):
    n = 64 if '.i64' in I.a[0][1] else 32
    def g(x):
        x = sx.srange(st, x, n)
        return ite(ge(x), x, -x)
    if isinstance(a[0], Vec): return [(st, Vec([g(x) for x in a[0]]))]
    x = sx.srange(st, a[0], n)
    return sx.split(st, ge(x), x, -x)
@reg('abs', 'labs')
def _(sx, st, a, I):
    x = sx.srange(st, a[0], 32 if I.ty.a == 32 else 64)
    return sx.split(st, ge(x), x, -x)
@regp('llvm.umul.with.overflow.i64')
def _(sx, st, a, I):
    p = a[0] * a[1]
    return [(st, Agg([p, neg(and_(ge(p), ge(const(2**64 - 1) - p)))]))]
@regp('llvm.uadd.with.overflow.i64')
def _(sx, st, a, I):
    p = a[0] + a[1]
    return [(st, Agg([p, neg(and_(ge(p), ge(const(2**64 - 1) - p)))]))]
@regp('llvm.is.fpclass')
def _(sx, st, a, I): return [(st, vmap(lambda x: FALSE, a[0]) if isinstance(a[0], Vec) else FALSE)]
@reg('__isnan', 'isnan', '__isinf', '__isnanf', '__isinff')
def _(sx, st, a, I): return [(st, ZERO)]
@reg('__finite', 'finite')
def _(sx, st, a, I): return [(st, ONE)]

# reductions
def red(f):
    def h(sx, st, a, I):
        v = a[-1]
        r = a[0] if len(a) == 2 else None
        for x in v: r = x if r is None else f(r, x)
        return [(st, r)]
    return h
PREFIX.append(('llvm.vector.reduce.fadd', red(lambda x, y: x + y)))
PREFIX.append(('llvm.vector.reduce.add', red(lambda x, y: x + y)))

# complex arithmetic helpers (only reached for NaN intermediates; excluded under real arithmetic)
@reg('__muldc3', '__mulsc3')
def _(sx, st, a, I):
    x, y, z, w = a
    r = [x * z - y * w, x * w + y * z]
    return [(st, Vec(r) if I.ty.k == 'vec' else Agg(r))]
@reg('__divdc3', '__divsc3')
def _(sx, st, a, I):
    x, y, z, w = a
    d = inv(z * z + w * w)
    r = [(x * z + y * w) * d, (y * z - x * w) * d]
    return [(st, Vec(r) if I.ty.k == 'vec' else Agg(r))]
def cparts(a): return a if len(a) == 2 else list(a[0].v if hasattr(a[0], 'v') else a[0])
@reg('cexp', 'cexpf')
def _(sx, st, a, I):
    x, y = cparts(a)
    e = ufn('exp')(sx, st, x)
    r = [e * ufn('cos')(sx, st, y), e * ufn('sin')(sx, st, y)]
    return [(st, Vec(r) if I.ty.k == 'vec' else Agg(r))]
@reg('carg', 'cargf')
def _(sx, st, a, I):
    x, y = cparts(a)
    return [(st, fn('atan2', (y, x)))]
@reg('cabs', 'cabsf')
def _(sx, st, a, I):
    x, y = cparts(a)
    return [(st, sqrt(x * x + y * y))]
@reg('sincos', 'sincosf')
def _(sx, st, a, I):
    t = ir.DOUBLE if I.a[0][1] == '@sincos' else ir.FLOAT
    out = []
    for s in sx.store(st, t, ufn('sin')(sx, st, a[0]), a[1], I):
        for s2 in sx.store(s, t, ufn('cos')(sx, s, a[0]), a[2], I): out.append((s2, None))
    return out

# ---------------------------------------------------------------- allocation
def alloc(sx, st, n, nm='heap'):
    return Ptr(sx.new_obj(st, nm, n), ZERO)
@reg('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _(sx, st, a, I): return [(st, alloc(sx, st, a[0]))]
@reg('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(sx, st, a, I): return [(st, alloc(sx, st, a[0]))]
@reg('aligned_alloc', 'memalign')
def _(sx, st, a, I): return [(st, alloc(sx, st, a[1]))]
@reg('posix_memalign')
def _(sx, st, a, I):
    p = alloc(sx, st, a[2])
    return [(s, ZERO) for s in sx.store(st, ir.PTR, p, a[0], I)]
@reg('calloc')
def _(sx, st, a, I):
    p = alloc(sx, st, a[0] * a[1])
    o = st.mem[p.o].copy()
    if o.cells is not None: o.zero = True
    else: o.base = '0'
    st.mem[p.o] = o
    return [(st, p)]
@reg('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(sx, st, a, I):
    p = a[0]
    if isinstance(p, Ptr) and p.o is not None:
        o = st.mem.get(p.o)
        if o is not None:
            if not o.alive: sx.obls.append(Obl(st.pc, FALSE, 'no double free', sx.where(I), 'safety'))
            n = o.copy(); n.alive = False
            st.mem[p.o] = n
    return [(st, None)]

# ---------------------------------------------------------------- ends of execution
def dead(sx, st, a, I):
    sx.endpaths += 1
    return []
for n in ('exit', 'abort', '_exit', '__assert_fail', '__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_bad_cast', '__cxa_pure_virtual',
          'MPI_Abort', '__stack_chk_fail', '_Unwind_Resume'): T[n] = dead
PREFIX.append(('_ZSt17__throw', dead)); PREFIX.append(('_ZSt16__throw', dead)); PREFIX.append(('_ZSt20__throw', dead)); PREFIX.append(('_ZSt19__throw', dead)); PREFIX.append(('_ZSt24__throw', dead)); PREFIX.append(('_ZSt28__throw', dead)); PREFIX.append(('_ZSt21__throw', dead)); PREFIX.append(('_ZSt25__throw', dead))

# output without effect on the verified state
def out0(sx, st, a, I): return [(st, ZERO)]
for n in ('printf', 'fprintf', 'puts', 'putchar', 'fflush', 'vprintf', 'vfprintf', 'fputs', 'fputc', 'fwrite', 'atexit', '__cxa_atexit', 'usleep', 'sleep'): T[n] = out0
for n in ('__cxa_guard_release', '__cxa_guard_abort', '__cxa_free_exception', '__cxa_end_catch'): T[n] = noop
T['__cxa_guard_acquire'] = lambda sx, st, a, I: [(st, ONE)]
T['__cxa_allocate_exception'] = lambda sx, st, a, I: [(st, alloc(sx, st, const(256)))]
T['omp_get_max_threads'] = T['omp_get_num_threads'] = lambda sx, st, a, I: [(st, ONE)]
T['omp_get_thread_num'] = lambda sx, st, a, I: [(st, ZERO)]
T['omp_set_num_threads'] = noop

@reg('strlen')
def _(sx, st, a, I):
    return [(st, const(len(cstr(sx, st, a[0]))))]
@reg('strcmp')
def _(sx, st, a, I):
    x, y = cstr(sx, st, a[0]), cstr(sx, st, a[1])
    return [(st, ZERO if x == y else (ONE if x > y else const(-1)))]
@reg('memcmp', 'bcmp')
def _(sx, st, a, I):
    n = a[2].cval()
    if n is None: raise Unsupported('memcmp')
    r = 0
    for i in range(n):
        x = sx.load1(st, ir.tint(8), a[0].o, a[0].f + i, I)[0][1].cval()
        y = sx.load1(st, ir.tint(8), a[1].o, a[1].f + i, I)[0][1].cval()
        if x is None or y is None: raise Unsupported('memcmp of symbolic bytes')
        if x % 256 != y % 256: r = 1 if x % 256 > y % 256 else -1; break
    return [(st, const(r))]

def external(sx, st, name, args, I):
    n = name[1:]
    if n.startswith('llvm.'): raise Unsupported('intrinsic ' + n)
    h = sx.cfg.get('externs', {}).get(n)
    if h == 'noop':
        sx.contracts_used[n] = 'no effect'
        return [(st, ZERO if I.ty.k == 'int' else None)]
    raise Unsupported('external function %s at %s' % (n, sx.where(I)))

# std::string and streams: opaque (names and messages only; nothing verified here depends on their contents)
def opaque(sx, st, a, I):
    sx.contracts_used.setdefault('std::string and std::ostream members', 'opaque: no effect on other objects')
    if I.ty.k == 'ptr':
        return [(st, a[0])]
    if I.ty.k == 'void': return [(st, None)]
    if I.ty.k == 'int':
        v = sx.skolem('string#', 'i')
        st.assume(ge(v))
        return [(st, v)]
    raise Unsupported('string function')
def ostr(sx, st, a, I):
    o = sx.new_obj(st, 'text', const(1)); 
    n = st.mem[o].copy(); 
    if n.cells is not None: n.zero = True
    st.mem[o] = n
    return [(st, Ptr(o, ZERO))]
for n in ('_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_str', '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4data'): PREFIX.append((n, ostr))
for n in ('_ZNSt7__cxx1112basic_string', '_ZNKSt7__cxx1112basic_string', '_ZNSt7__cxx119to_string', '_ZStplIcSt11char', '_ZNSaIcE', '_ZNSt15__new_allocatorIcE', '_ZStlsI', '_ZNSo', '_ZNSt7__cxx1118basic_stringstream', '_ZNSt7__cxx1119basic_ostringstream', '_ZNKSt7__cxx1118basic_stringstream', '_ZNSt8ios_base'): PREFIX.append((n, opaque))
