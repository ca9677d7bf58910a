"""Symbolic executor / verification condition generator over LLVM IR.

One harness entry point = one contract.  Functions reached from it are executed on their real bodies (or through a
contract registered in CONTRACTS); loops with a symbolic trip count are never unrolled: they are summarised for an
arbitrary iteration (induction variables in closed form, array writes as quantified layers, a frame condition that no
iteration reads what an earlier one wrote) so the result holds for every trip count."""
import sys, time
from fractions import Fraction
from terms import *
import terms
import ir, solve
from solve import Bounds, entails, quick, mkbounds, radix, INF

class Unsupported(Exception): pass

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('o', 'f')
    def __init__(self, o, f): self.o, self.f = o, f
    def __repr__(self): return '&%s+%s' % (self.o, self.f)
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.f == x.f
    def __hash__(self): return hash((self.o, self.f))
NULL = Ptr(None, ZERO)

class Vec(list): pass
class Agg(list): pass
MERGED = ('merged',)
class IfStops(frozenset): pass     # end of the arms of a conditional that is being merged
IFCONV = False        # merge the arms of short conditionals instead of splitting paths (set by a contracts file)

class Mask:           # all-ones / zero lane
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
class Raw:            # raw bits of a sequence of typed values (kept symbolic)
    __slots__ = ('parts',)       # list of (size, value, ty)
    def __init__(self, parts): self.parts = parts

class Lazy:           # value = contents of a snapshot at an element index
    __slots__ = ('snap', 'idx')
    def __init__(self, snap, idx): self.snap, self.idx = snap, idx

class Obj:
    """immutable description of one memory object's current contents"""
    __slots__ = ('name', 'size', 'cells', 'es', 'sort', 'base', 'layers', 'alive', 'lohi', 'ro', 'zero', 'flt')
    def __init__(self): pass
    def copy(self):
        o = Obj()
        for s in Obj.__slots__: setattr(o, s, getattr(self, s))
        return o

class W:
    """write layer: for all binders with dom: contents[addr] = val"""
    __slots__ = ('binders', 'dom', 'addr', 'val', 'kind', 'extra')
    def __init__(self, binders, dom, addr, val, kind='w', extra=None):
        self.binders, self.dom, self.addr, self.val, self.kind, self.extra = binders, dom, addr, val, kind, extra

def sub_val(s, v):
    if isinstance(v, Poly): return s.poly(v)
    if isinstance(v, Lazy): return Lazy(sub_obj(s, v.snap), s.poly(v.idx))
    if isinstance(v, Ptr): return Ptr(v.o, s.poly(v.f))
    if isinstance(v, Vec): return Vec([sub_val(s, x) for x in v])
    if isinstance(v, Agg): return Agg([sub_val(s, x) for x in v])
    if isinstance(v, Mask): return Mask(s.form(v.c))
    if isinstance(v, Raw): return Raw([(a, sub_val(s, b), c) for a, b, c in v.parts])
    if isinstance(v, tuple): return s.form(v)
    return v

def sub_w(s, w):
    # binders are unique atoms, never in the substitution's domain unless intended
    return W(w.binders, tuple(s.form(x) for x in w.dom), s.poly(w.addr), sub_val(s, w.val), w.kind, w.extra)

def sub_obj(s, o):
    if o.cells is not None:
        ch = {}
        for k, (sz, v, t) in o.cells.items():
            v2 = sub_val(s, v)
            if v2 is not v: ch[k] = (sz, v2, t)
        if not ch: return o
        n = o.copy(); n.cells = dict(o.cells); n.cells.update(ch)
        return n
    if not o.layers: return o
    n = o.copy()
    n.layers = tuple(sub_w(s, w) for w in o.layers)
    return n

class State:
    __slots__ = ('mem', 'pc', 'bounds', 'loops', 'reads', 'trace')
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.pc = self.pc; s.bounds = self.bounds; s.loops = self.loops; s.reads = self.reads; s.trace = self.trace
        return s
    def assume(self, f):
        """False if evidently contradictory"""
        if f == TRUE: return True
        if f == FALSE:
            self.pc = self.pc + (FALSE,)
            return False
        new = []
        for x in (f[1] if f[0] == 'and' else (f,)):
            if x not in self.pc: new.append(x)
        if not new: return True
        self.pc = self.pc + tuple(new)
        b = self.bounds.copy()
        self.bounds = b
        for x in new:
            if not b.assume(x): return False
        # a second sweep over recent formulas propagates bounds
        for x in self.pc[-12:]:
            if not b.assume(x): return False
        return True

class Obl:
    __slots__ = ('pc', 'goal', 'label', 'where', 'kind', 'result')
    def __init__(self, pc, goal, label, where, kind): self.pc, self.goal, self.label, self.where, self.kind, self.result = pc, goal, label, where, kind, None

CONTRACTS = {}        # name -> python function(sx, state, args, ins) -> [(state, value)]

def isint(v): return isinstance(v, Poly)

class SX:
    def __init__(self, mod, cfg=None):
        self.fused = {}
        self.m = mod
        self.cfg = cfg or {}
        self.nobj = 0
        self.obls = []
        self.used = set()          # functions executed on their real body
        self.contracts_used = {}
        self.havocs = []           # places where precision was lost
        self.assumptions = set()
        self.wlog = None; self.joins = {}
        self.choices = list(self.cfg.get('choices', []))
        self.steps = 0
        self.unroll_max = self.cfg.get('unroll', 6000)
        self.path_max = self.cfg.get('paths', 4000)
        self.binders = []          # enclosing loop binders (poly list)
        self.loopstats = []
        self.endpaths = 0
        self.pathcover = {}
        self.depth = 0
        self.inputs = []
        self.symbase = {}

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, es=None, sort=None, base=None, cells=None, lohi=None, flt=None):
        self.nobj += 1
        oid = '%s.%d' % (name, self.nobj)
        o = Obj()
        o.name = oid; o.size = size; o.es = es; o.sort = sort; o.base = base; o.layers = (); o.alive = True; o.lohi = lohi
        o.cells = cells; o.ro = False; o.zero = False; o.flt = flt
        if cells is None and es is None and size is not None and size.cval() is not None and size.cval() <= 1 << 16:
            o.cells = {}
        if o.cells is None and base is None: o.base = oid + '@init'
        st.mem[oid] = o
        return oid

    def glob(self, st, name):
        name0 = name
        if name in self.m.aliases:
            v = self.m.aliases[name]
            return self.constv(st, ir.PTR, v)
        if name in self.m.funcs: return Ptr(('fn', name), ZERO)
        if name not in self.m.globals: raise Unsupported('global ' + name)
        oid = 'G' + name
        if oid not in st.mem:
            t, init, isc = self.m.globals[name]
            o = Obj()
            sz = self.m.size(t)
            o.name = oid; o.size = const(sz); o.es = None; o.sort = None; o.base = None; o.layers = (); o.alive = True; o.lohi = None
            o.cells = {}; o.ro = isc; o.zero = False; o.flt = None
            st.mem[oid] = o
            if init is not None:
                if init[0] == 'zero': o.zero = True
                else: self.init_const(st, o, 0, t, init)
            else:
                o.zero = 'ext'
        return Ptr(oid, ZERO)

    def init_const(self, st, o, off, t, v):
        t = self.m.res(t)
        if v[0] == 'undef': return
        if t.k == 'struct':
            offs = self.m.offsets(t)
            for i, ft in enumerate(t.a):
                if v[0] == 'zero': self.init_const(st, o, off + offs[i], ft, ('zero',))
                else: self.init_const(st, o, off + offs[i], ft, v[1][i][1])
        elif t.k in ('arr', 'vec'):
            s = self.m.size(t.b)
            if v[0] == 'str':
                for i, b in enumerate(v[1]): o.cells[off + i] = (1, const(b), ir.tint(8))
                return
            if v[0] == 'zero' and t.a > 4096: o.zero = True; return
            for i in range(t.a):
                self.init_const(st, o, off + i * s, t.b, ('zero',) if v[0] == 'zero' else v[1][i][1])
        else:
            o.cells[off] = (self.m.size(t), self.constv(st, t, v), t)

    # ------------------------------------------------------------ constants
    def constv(self, st, t, v):
        k = v[0]
        if k == 'int':
            if t.k == 'int' and t.a == 1: return TRUE if v[1] else FALSE
            return const(v[1])
        if k == 'fp':
            x = float(v[1])
            return const(rationalize(x, 53 if t.k == 'double' else 23))
        if k == 'hex':
            import struct
            h = v[1]
            if h[2] in 'KMLHR': raise Unsupported('x87 constant')
            x = struct.unpack('>d', bytes.fromhex(h[2:].rjust(16, '0')))[0]
            if x != x or x in (INF, -INF): return fn('const_' + h, ())
            if x == 0: return ZERO
            # sign masks / abs masks used as bit patterns stay bit patterns only in integer vectors
            return const(rationalize(x, 53 if t.k == 'double' else 23))
        if k == 'null': return NULL
        if k == 'undef':
            t = self.m.res(t)
            if t.k == 'vec': return Vec([UNDEF] * t.a)
            if t.k == 'struct': return Agg([self.constv(st, f, v) for f in t.a])
            if t.k == 'arr': return Agg([self.constv(st, t.b, v) for _ in range(t.a)])
            return UNDEF
        if k == 'zero':
            t = self.m.res(t)
            if t.k == 'vec': return Vec([self.constv(st, t.b, v) for _ in range(t.a)])
            if t.k == 'struct': return Agg([self.constv(st, f, v) for f in t.a])
            if t.k == 'arr': return Agg([self.constv(st, t.b, v) for _ in range(t.a)])
            if t.k == 'ptr': return NULL
            if t.k == 'int' and t.a == 1: return FALSE
            return ZERO
        if k == 'agg':
            t = self.m.res(t)
            vs = [self.constv(st, a, b) for a, b in v[1]]
            return Vec(vs) if t.k == 'vec' else Agg(vs)
        if k == 'glob': return self.glob(st, v[1])
        if k == 'ce':
            if v[1] == 'getelementptr':
                _, _, sty, ops = v
                base = self.constv(st, ops[0][0], ops[0][1])
                return self.gep(st, base, sty, [(a, self.constv(st, a, b)) for a, b in ops[1:]])
            if v[1] in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                return self.constv(st, v[2], v[3])
            if v[1] == 'trunc': return self.constv(st, v[2], v[3])
        if k == 'str': return Agg([const(b) for b in v[1]])
        raise Unsupported('constant %r' % (v,))

    def val(self, st, env, t, v):
        if v[0] == 'loc':
            try: return env[v[1]]
            except KeyError: raise Unsupported('no value ' + v[1])
        return self.constv(st, t, v)

    # ------------------------------------------------------------ integers
    def prove(self, st, f, deep=False):
        if f == TRUE: return True
        if f == FALSE: return False
        q = quick(st.bounds, f)
        if q is not None: return q
        return entails(st.pc, f, st.bounds, deep=deep, count=False)

    def urange(self, st, p, n):
        """canonical unsigned representative"""
        if not isinstance(p, Poly): raise Unsupported('int expected, got %r' % (p,))
        c = p.cval()
        if c is not None: return const(c % (1 << n))
        lo, hi = st.bounds.poly(p)
        if lo >= 0 and hi < (1 << n): return p
        if lo >= -(1 << n) and hi < 0: return p + (1 << n)
        if n >= 32:
            if (lo >= 0 or self.prove(st, ge(p))):
                if hi < (1 << n) or self.prove(st, ge(const((1 << n) - 1) - p)): return p
            elif self.prove(st, ge(-p - 1)) and (lo >= -(1 << n) or self.prove(st, ge(p + (1 << n)))): return p + (1 << n)
        return self.wrapped(p, n, st, lo, hi)

    def srange(self, st, p, n):
        if not isinstance(p, Poly): raise Unsupported('int expected, got %r' % (p,))
        c = p.cval()
        h = 1 << (n - 1)
        if c is not None: return const((c + h) % (1 << n) - h)
        lo, hi = st.bounds.poly(p)
        if lo >= -h and hi < h: return p
        if lo >= h and hi < 2 * h: return p - (1 << n)
        if n >= 32 and (lo >= -h or self.prove(st, ge(p + h))) and (hi < h or self.prove(st, ge(const(h - 1) - p))): return p
        return self.wrapped(p + h, n, st, lo + h, hi + h) - h

    def wrapped(self, p, n, st=None, lo=-INF, hi=INF):
        M = 1 << n
        if st is not None and lo not in (INF, -INF) and hi not in (INF, -INF) and hi // M - lo // M <= 3:
            for q in range(int(lo // M), int(hi // M) + 1):
                if lo // M == hi // M or self.prove(st, and_(ge(p - M * q), gt(const(M * (q + 1)) - p))): return p - M * q
        self.havocs.append(('wrap', n, show(p)[:80]))
        d = const(1 << n)
        return p - d * div0(p, d)

    def mkdiv(self, st, a, b):
        """floor(a/b) for a>=0, b>0 with context-sensitive simplification"""
        c, d = a.cval(), b.cval()
        if c is not None and d is not None and d != 0: return const(c // d)
        q = div0(a, b)
        if not isinstance(q, Poly): return q
        # q = Q + div(R,b): try R in range
        out = ZERO
        for m, co in q.d.items():
            t = Poly({m: co})
            if len(m) == 1 and ATOMS[m[0]].kind == 'div' and ATOMS[m[0]].args[1] == b:
                R = ATOMS[m[0]].args[0]
                r = self.divrem_small(st, R, b)
                if r is not None: t = r * co
            out = out + t
        return out

    def divrem_small(self, st, R, b):
        if self.prove(st, and_(ge(R), gt(b - R))): return ZERO
        if self.prove(st, and_(ge(R + b), gt(-R))): return const(-1)
        if self.prove(st, and_(ge(R - b), gt(b + b - R))): return ONE
        bc = b.cval()
        if bc:
            lo, hi = st.bounds.poly(R)
            if lo not in (INF, -INF) and hi not in (INF, -INF) and hi // bc - lo // bc <= 12:
                for q in range(int(lo // bc), int(hi // bc) + 1):
                    if q not in (-1, 0, 1) and self.prove(st, and_(ge(R - b * q), gt(b * (q + 1) - R))): return const(q)
        # nested: R = div(P, c)
        # try splitting off multiples of b found by weights (R = b*Q + S)
        if len(b.d) == 1:
            return None
        # polynomial divisor: match leading terms
        (lm, lc) = max(b.d.items(), key=lambda t: (len(t[0]), t[0]))
        for m, c in R.d.items():
            mm = list(m); ok = True
            for t in lm:
                if t in mm: mm.remove(t)
                else: ok = False; break
            if ok and c % lc == 0:
                Q = Poly({tuple(mm): c // lc})
                S = R - Q * b
                if len(S.d) < len(R.d) + 1 and self.prove(st, and_(ge(S), gt(b - S))): return Q
        return None

    # ------------------------------------------------------------ pointers
    def gep(self, st, base, sty, idxs):
        if isinstance(base, Vec): raise Unsupported('vector gep')
        if isinstance(base, Poly) and base.cval() == 0: base = NULL
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.f
        t = sty
        first = True
        for it, v in idxs:
            if not isinstance(v, Poly): raise Unsupported('gep index %r' % (v,))
            if first:
                s = self.m.size(t)
                first = False
                if it.k == 'int' and it.a < 64: v = self.srange(st, v, it.a)
                off = off + v * s
                continue
            t = self.m.res(t)
            if t.k == 'struct':
                i = v.cval()
                off = off + self.m.offsets(t)[i]
                t = t.a[i]
            elif t.k in ('arr', 'vec'):
                if it.k == 'int' and it.a < 64: v = self.srange(st, v, it.a)
                off = off + v * self.m.size(t.b)
                t = t.b
            else: raise Unsupported('gep into %r' % t)
        return Ptr(base.o, off)

    def elemdiv(self, st, off, es):
        if es == 1: return off
        d = {}
        for m, c in off.d.items():
            if c % es: 
                q = self.mkdiv(st, off, const(es))
                if self.prove(st, eq(q * es - off)): return q
                return None
            d[m] = c // es
        return Poly(d)

    def where(self, I):
        f, l = ir.line_of(self.m, I.line if I is not None else 0)
        return '%s:%d' % (f.split('/repo/')[-1] if f else '?', l)

    def check_bounds(self, st, o, off, nbytes, I, what):
        if o.size is None: return
        f = and_(ge(off), ge(o.size - off - nbytes))
        if f == TRUE: return
        if quick(st.bounds, f):
            return self.obls.append(Obl(None, None, 'in-bounds %s of %s' % (what, o.name.split('.')[0]), self.where(I), 'interval'))
        self.obls.append(Obl(st.pc, f, 'in-bounds %s of %s' % (what, o.name.split('.')[0]), self.where(I), 'bounds'))

    # ------------------------------------------------------------ load / store
    def getobj(self, st, p, I):
        if not isinstance(p, Ptr): raise Unsupported('deref of %r at %s' % (p, self.where(I)))
        if p.o is None:
            self.obls.append(Obl(st.pc, FALSE, 'no null dereference', self.where(I), 'safety'))
            return None
        if isinstance(p.o, tuple): raise Unsupported('deref of function')
        o = st.mem.get(p.o)
        if o is None: raise Unsupported('unknown object %s' % p.o)
        if not o.alive:
            self.obls.append(Obl(st.pc, FALSE, 'no use after free', self.where(I), 'safety'))
            return None
        return o

    def flat(self, t):
        """scalar leaves of a type: [(offset, type)]"""
        t = self.m.res(t)
        if t.k == 'vec':
            s = self.m.size(t.b)
            return [(i * s, t.b) for i in range(t.a)]
        if t.k == 'struct':
            r = []
            for o, f in zip(self.m.offsets(t), t.a):
                r += [(o + x, y) for x, y in self.flat(f)]
            return r
        if t.k == 'arr':
            s = self.m.size(t.b); r = []
            for i in range(t.a): r += [(i * s + x, y) for x, y in self.flat(t.b)]
            return r
        return [(0, t)]

    def unflat(self, t, vals):
        t = self.m.res(t)
        if t.k == 'vec': return Vec([vals.pop(0) for _ in range(t.a)])
        if t.k == 'struct': return Agg([self.unflat(f, vals) for f in t.a])
        if t.k == 'arr': return Agg([self.unflat(t.b, vals) for _ in range(t.a)])
        return vals.pop(0)

    def flatten(self, t, v, out):
        t = self.m.res(t)
        if t.k in ('vec', 'struct', 'arr'):
            n = t.a if t.k != 'struct' else len(t.a)
            if v is UNDEF: v = [UNDEF] * n
            for i in range(n):
                self.flatten(t.b if t.k != 'struct' else t.a[i], v[i], out)
        else: out.append(v)

    def load(self, st, ty, p, I):
        """-> list of (state, value)"""
        if isinstance(p, Poly) and p.cval() == 0: p = NULL
        o = self.getobj(st, p, I)
        if o is None: return []
        leaves = self.flat(ty)
        sz = self.m.size(ty)
        self.check_bounds(st, o, p.f, sz, I, 'read')
        res = [(st, [])]
        for off, lt in leaves:
            nxt = []
            for s, vs in res:
                for s2, v in self.load1(s, lt, p.o, p.f + off, I):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return [(s, self.unflat(ty, list(vs))) for s, vs in res]

    def coerce(self, v, ty, from_ty=None):
        """value read as type ty"""
        if isinstance(v, Raw) and len(v.parts) == 1:
            v0 = v.parts[0][1]
            if ty.k in ('float', 'double', 'ptr'): return v0
            return v
        if ty.k == 'int':
            if ty.a == 1: return v if isinstance(v, tuple) else ('ne', v) if False else v
            if from_ty is not None and from_ty.k in ('float', 'double'): return Raw([(self.m.size(from_ty), v, from_ty)])
            return v
        return v

    def load1(self, st, ty, oid, off, I):
        o = st.mem[oid]
        sz = self.m.size(ty)
        if o.cells is not None:
            c = off.cval()
            if c is None:
                self.to_array(st, oid, sz, ty)
                o = st.mem[oid]
                if o.cells is not None: return self.enum_load(st, ty, oid, off, I)
            else:
                return [(st, self.cell_read(st, o, oid, c, sz, ty))]
        return self.arr_load(st, ty, oid, off, sz, I)

    def enum_load(self, st, ty, oid, off, I):
        """symbolic offset into a small record: case split over the cells"""
        o = st.mem[oid]
        keys = sorted(o.cells)
        if len(keys) > 70: raise Unsupported('symbolic offset into record %s' % oid)
        out = []
        rest = st
        for k in keys:
            if o.cells[k][0] != self.m.size(ty): continue
            f = eq(off - k)
            if f == FALSE: continue
            s = rest.fork()
            if s.assume(f) and solve.feasible(s.pc, s.bounds):
                out.append((s, self.cell_read(s, o, oid, k, self.m.size(ty), ty)))
        allf = or_(*[eq(off - k) for k in keys if o.cells[k][0] == self.m.size(ty)])
        if not entails(st.pc, allf, st.bounds, count=False): raise Unsupported('symbolic offset %s into record %s' % (off, oid))
        return out

    def cell_read(self, st, o, oid, c, sz, ty):
        x = o.cells.get(c)
        if x is not None and x[0] == sz:
            v = x[1]
            ft = x[2]
            return self.retype(st, v, ft, ty)
        if x is not None and x[0] < sz or x is None:
            # composed of smaller cells?
            parts = []
            k = c
            while k < c + sz:
                y = o.cells.get(k)
                if y is None or k + y[0] > c + sz: break
                parts.append(y); k += y[0]
            if k == c + sz and parts:
                if all(y[1] is not UNDEF and isinstance(y[1], Poly) and y[1].cval() is not None and y[2].k == 'int' for y in parts) and ty.k == 'int':
                    v = 0; sh = 0
                    for y in parts:
                        v |= (y[1].cval() % (1 << (8 * y[0]))) << sh; sh += 8 * y[0]
                    return const(v)
                return Raw([(y[0], y[1], y[2]) for y in parts])
        if x is not None and x[0] > sz:
            if isinstance(x[1], Raw):
                pp = x[1].parts
                if pp and pp[0][0] == sz: return self.retype(st, pp[0][1], pp[0][2], ty)
            if isinstance(x[1], Poly) and x[2].k == 'int' and ty.k == 'int':
                v = x[1]
                if v.cval() is not None: return const(v.cval() % (1 << (8 * sz)))
                return v
        # inside a bigger cell?
        for k, y in o.cells.items():
            if k < c < k + y[0]:
                if isinstance(y[1], Raw):
                    q = k
                    for s, v, t in y[1].parts:
                        if q == c and s == sz: return self.retype(st, v, t, ty)
                        q += s
                if isinstance(y[1], Poly) and y[1].cval() is not None and y[2].k == 'int' and ty.k == 'int':
                    return const((y[1].cval() >> (8 * (c - k))) % (1 << (8 * sz)))
                if isinstance(y[1], Poly) and y[2].k == 'int' and ty.k == 'int' and c - k + sz <= y[0]:
                    d = const(1 << (8 * (c - k)))
                    return self.mkdiv(st, self.urange(st, y[1], 8 * y[0]), d)
                raise Unsupported('partial read of cell in %s+%d' % (oid, c))
        if o.zero is True:
            return FALSE if ty.k == 'int' and ty.a == 1 else (NULL if ty.k == 'ptr' else ZERO)
        # uninitialised / external: arbitrary but fixed value
        v = self.arbitrary(st, ty, '%s+%d' % (oid, c))
        n = o.copy(); n.cells = dict(o.cells); n.cells[c] = (sz, v, ty)
        st.mem[oid] = n
        return v

    def arbitrary(self, st, ty, name):
        if ty.k == 'int':
            if ty.a == 1: return ('b', name + '#%d' % self.bump())
            h = 1 << (ty.a - 1)
            return self.symb(name, 'i', 0 if ty.a == 8 else -h, 255 if ty.a == 8 else h - 1)
        if ty.k in ('float', 'double', 'x86_fp80'): return self.symb(name, 'r')
        if ty.k == 'ptr': return UNDEF
        raise Unsupported('arbitrary %r' % ty)

    def symb(self, name, sort, lo=None, hi=None):
        terms._fresh[0] += 1
        return var(mk('sym', ('%s#%d' % (name, terms._fresh[0]),), sort, lo, hi))

    def bump(self):
        terms._fresh[0] += 1
        return terms._fresh[0]

    def skolem(self, name, sort='i', lo=None, hi=None):
        """fresh unknown that may depend on the enclosing loop iterations"""
        n = '%s#%d' % (name, self.bump())
        if not self.binders: return var(mk('sym', (n,), sort, lo, hi))
        return var(mk('fn', (n,) + tuple(self.binders), sort, lo, hi))

    def retype(self, st, v, ft, ty):
        if v is UNDEF or ft is ty: return v
        if isinstance(v, Raw):
            if ty.k in ('float', 'double', 'ptr'):
                if len(v.parts) == 1: return v.parts[0][1]
                raise Unsupported('raw bits as %r' % ty)
            return v
        if ty.k == 'int' and ft.k in ('float', 'double'):
            if isinstance(v, Mask): return v
            return Raw([(self.m.size(ft), v, ft)])
        if ty.k in ('float', 'double') and ft.k == 'int':
            if isinstance(v, Poly) and v.cval() == 0: return ZERO
            if isinstance(v, Mask): return v
            if isinstance(v, Poly) and v.cval() is not None:
                import struct
                c = v.cval()
                x = struct.unpack('<d' if ty.k == 'double' else '<f', (c % (1 << (64 if ty.k == 'double' else 32))).to_bytes(8 if ty.k == 'double' else 4, 'little'))[0]
                if x == x and abs(x) != INF: return const(rationalize(x, 53 if ty.k == 'double' else 23))
            raise Unsupported('int bits as float')
        if ty.k == 'ptr' and isinstance(v, Poly):
            return NULL if v.cval() == 0 else v
        if ty.k == 'int' and ft.k == 'int' and ty.a == 1 and isinstance(v, Poly):
            return neg(eq(v))
        if ty.k == 'int' and ty.a > 1 and isinstance(v, tuple):
            return ite(v, ONE, ZERO)
        return v

    def to_array(self, st, oid, sz, ty):
        o = st.mem[oid]
        cs = o.cells
        if any(x[0] != sz for x in cs.values()) or ty.k == 'ptr': return
        if any(isinstance(x[1], (Ptr, Raw, Mask)) for x in cs.values()): return
        if any((k % sz) for k in cs): return
        n = o.copy()
        n.cells = None; n.es = sz; n.sort = 'r' if ty.k in ('float', 'double') else 'i'; n.flt = ty
        n.base = oid + '@arr' if o.zero is not True else '0'
        lay = []
        for k in sorted(cs):
            v = cs[k][1]
            if v is UNDEF: continue
            if isinstance(v, tuple): v = ite(v, ONE, ZERO)
            lay.append(W((), (), const(k // sz), v))
        n.layers = tuple(lay)
        st.mem[oid] = n

    def set_es(self, st, oid, sz, ty):
        o = st.mem[oid]
        n = o.copy()
        n.es = sz; n.sort = 'r' if ty.k in ('float', 'double') else 'i'; n.flt = ty
        if ty.k == 'ptr': n.sort = 'p'
        st.mem[oid] = n
        return n

    def arr_load(self, st, ty, oid, off, sz, I):
        o = st.mem[oid]
        if o.es is None: o = self.set_es(st, oid, sz, ty)
        es = o.es
        if sz < es: raise Unsupported('narrow read of %s (%d<%d) at %s' % (oid, sz, es, self.where(I)))
        idx = self.elemdiv(st, off, es)
        if idx is None: raise Unsupported('misaligned read of %s at %s' % (oid, self.where(I)))
        if sz == es:
            out = []
            for s, v in self.arr_read(st, o, oid, idx):
                v = self.retype(s, v, o.flt, ty) if o.flt is not None else v
                out.append((s, v))
            return out
        n = sz // es
        res = [(st, [])]
        for i in range(n):
            nx = []
            for s, vs in res:
                for s2, v in self.arr_read(s, s.mem[oid], oid, idx + i): nx.append((s2, vs + [(es, v, o.flt)]))
            res = nx
        return [(s, Raw(vs)) for s, vs in res]

    def base_value(self, o, idx):
        if o.base == '0': return ZERO
        lo, hi = o.lohi if o.lohi else (None, None)
        return sel(o.base, idx, o.sort or 'r', lo, hi)

    def arr_read(self, st, o, oid, idx, top=None):
        """value of element idx of array contents o: list of (state, value); walks the layers from the latest"""
        layers = o.layers
        n = len(layers) if top is None else top
        out = []
        work = [(st, n)]
        while work:
            s, i = work.pop()
            hit = False
            while i > 0:
                # crossing the start of enclosing loops is recorded as a read of pre-iteration contents
                w = layers[i - 1]
                r = self.match(s, w, idx)
                if r == 'no':
                    i -= 1
                    continue
                cond, value = r
                if cond == TRUE:
                    out += self.deliver(s, value)
                    hit = True
                    break
                # fork
                s1 = s.fork(); s2 = s.fork()
                ok1 = s1.assume(cond) and solve.feasible(s1.pc, s1.bounds)
                ok2 = s2.assume(neg(cond)) and solve.feasible(s2.pc, s2.bounds)
                if ok1 and not ok2:
                    out += self.deliver(s, value); hit = True; break
                if ok1: out += self.deliver(s1, value)
                if ok2: s = s2; i -= 1; continue
                hit = True
                break
            if not hit:
                self.log_read(s, o, oid, idx)
                hv = self.havoc_read(s, o, oid, idx)
                out.append((s, hv if hv is not None else self.base_value(o, idx)))
        # reads that were answered by a layer older than an enclosing loop's start are logged in match via index
        return out

    def deliver(self, s, v):
        if isinstance(v, Lazy): return self.arr_read(s, v.snap, v.snap.name, v.idx)
        return [(s, v)]

    def log_read(self, s, o, oid, idx):
        pass

    def havoc_read(self, s, o, oid, idx): return None

    # ---- matching an index against one layer
    def match(self, st, w, idx):
        if w.kind == 'mark':        # loop boundary: content below belongs to earlier iterations
            lid, mode, oid = w.extra
            st.reads = (st.reads, (oid, idx, st.pc, st.bounds, lid))
            if mode == 'havoc':
                self.havocs.append(('havoc', oid, show(idx)[:60]))
                return (TRUE, var(mk('fn', ('hv', '%s' % (lid,), oid, idx) + tuple(self.binders), st.mem[oid].sort or 'r')))
            return 'no'
        if w.kind == 'fog':
            return (TRUE, var(mk('fn', ('fog', '%s' % (w.extra[0],), w.extra[1], idx) + tuple(self.binders), st.mem[w.extra[1]].sort or 'r')))
        if not w.binders:
            E = w.addr - idx
            f = and_(eq(E), *w.dom)
            if f == FALSE: return 'no'
            if f == TRUE: return (TRUE, w.val)
            q = quick(st.bounds, f)
            if q is False: return 'no'
            if self.prove(st, neg(f)): return 'no'
            if self.prove(st, f): return (TRUE, w.val)
            if self.refuted_by_radix(st, E): return 'no'
            return (f, w.val)
        r = self.invert(st, w, idx)
        if r == 'no': return 'no'
        if r is None:
            # could not invert: try to show that nothing matches
            raise Unsupported('cannot invert write at %s for read at %s' % (show(w.addr)[:100], show(idx)[:100]))
        mp = r
        s = Subst(mp)
        conds = [s.form(f) for f in w.dom] + [eq(s.poly(w.addr) - idx)]
        need = []
        for f in conds:
            if f == TRUE: continue
            if f == FALSE: return 'no'
            q = quick(st.bounds, f)
            if q is True: continue
            if q is False: return 'no'
            if self.prove(st, f): continue
            need.append(f)
        c = and_(*need)
        if c == FALSE: return 'no'
        if need and self.prove(st, neg(c)): return 'no'
        return (c, sub_val(s, w.val))

    def refuted_by_radix(self, st, E):
        eqs = radix(E, st.pc, st.bounds)
        if eqs is None: return True
        for p in eqs:
            if self.prove(st, neg(eq(p))): return True
        return False

    def invert(self, st, w, idx):
        """solve addr(k) = idx for the binders k under dom(k); 'no' if impossible; None if not solvable"""
        E = w.addr - idx
        if eq(E) == FALSE: return 'no'
        b = st.bounds.copy()
        dom = [f for f in w.dom]
        for _ in range(2):
            for f in dom:
                if not b.assume(f): return 'no'
        q = quick(b, eq(E))
        if q is False: return 'no'
        pc = st.pc + tuple(dom)
        bs = frozenset(w.binders)
        eqs = radix(E, pc, b, bs)
        if eqs is None: return 'no'
        # add equalities in dom
        for f in dom:
            if f[0] == 'eq': eqs = eqs + [f[1]]
        return self.solve_binders(st, eqs, set(w.binders), pc, b)

    def solve_binders(self, st, eqs, todo, pc, b):
        mp = {}
        eqs = list(eqs)
        prog = True
        while todo and prog:
            prog = False
            for i, p in enumerate(eqs):
                s = Subst(mp) if mp else None
                if s is not None:
                    p = s.poly(p)
                    if eq(p) == FALSE: return 'no'
                    eqs[i] = p
                ks = [a for a in todo if a in p.vars()]
                if len(ks) == 1:
                    k = ks[0]
                    c = p.d.get((k,))
                    rest = Poly({m: x for m, x in p.d.items() if m != (k,)})
                    if c is None or k in rest.vars():
                        # k * poly + rest: divide
                        r = self.solve_lin(st, p, k, b)
                        if r is None: continue
                        mp[k] = r
                    else:
                        v = rest * (-1 if c > 0 else 1)
                        ac = abs(c)
                        if ac == 1: mp[k] = v
                        else:
                            mp[k] = self.mkdiv_ctx(st, v, const(ac), pc, b)
                    todo.discard(k); prog = True
                    mp = {a: Subst({k: mp[k]}).poly(x) if a != k else x for a, x in mp.items()}
                    break
                if len(ks) >= 2:
                    # k1 + W*(...) = e  with k1 in [0,W)
                    E = eq(p)
                    if E in (TRUE, FALSE): continue
                    r = self.split_two(st, p, ks, pc, b)
                    if r is not None:
                        eqs[i:i+1] = r
                        prog = True
                        break
        if todo: return None
        return mp

    def mkdiv_ctx(self, st, v, d, pc, b):
        s = st.fork(); s.pc = pc; s.bounds = b
        return self.mkdiv(s, v, d)

    def solve_lin(self, st, p, k, b):
        # p = k*C + R with C free of k
        C = {}; R = {}
        for m, x in p.d.items():
            n = m.count(k)
            if n == 0: R[m] = x
            elif n == 1:
                mm = list(m); mm.remove(k); C[tuple(mm)] = x
            else: return None
        C, R = Poly(C), Poly(R)
        if k in C.vars() or k in R.vars(): return None
        lo, hi = b.poly(C)
        if lo > 0: v = self.mkdiv(st, -R, C)
        elif hi < 0: v = self.mkdiv(st, R, -C)
        else: return None
        return v

    def split_two(self, st, p, ks, pc, b):
        """k1 + W*Q - e = 0 with 0<=k1<W, e free of binders:  Q = div(e,W), k1 = e - W*div(e,W)"""
        kset = set(ks)
        for sgn in (1, -1):
            q = p * sgn
            # e: part without binders
            e = Poly({m: -c for m, c in q.d.items() if not (set().union(*[ATOMS[a].vars for a in m]) & kset if m else False)})
            kp = q + e      # kp = e
            for Wm, wc in solve.weights(kp, kset):
                Q, R = solve.split_weight(kp, Wm, wc)
                if not Q.d or not R.d: continue
                w = Poly({Wm: wc})
                if entails(pc, and_(ge(R), gt(w - R)), b, deep=False, count=False):
                    d = self.mkdiv_ctx(st, e, w, pc, b)
                    return [Q - d, R - (e - w * d)]
        return None

    # ------------------------------------------------------------ store
    def store(self, st, ty, v, p, I):
        if isinstance(p, Poly) and p.cval() == 0: p = NULL
        o = self.getobj(st, p, I)
        if o is None: return []
        self.check_bounds(st, o, p.f, self.m.size(ty), I, 'write')
        leaves = self.flat(ty)
        vals = []
        self.flatten(ty, v, vals)
        sts = [st]
        for (off, lt), x in zip(leaves, vals):
            for s in sts: self.store1(s, lt, x, p.o, p.f + off, I)
        return sts

    def store1(self, st, ty, v, oid, off, I):
        if self.wlog is not None: self.wlog.append((oid, off, ty, I))
        o = st.mem[oid]
        sz = self.m.size(ty)
        if o.cells is not None:
            c = off.cval()
            if c is None:
                self.to_array(st, oid, sz, ty)
                o = st.mem[oid]
                if o.cells is not None: raise Unsupported('symbolic store into record %s at %s' % (oid, self.where(I)))
            else:
                n = o.copy()
                n.cells = dict(o.cells)
                x = n.cells.get(c)
                if x is None or x[0] != sz: self.clear_cells(st, n, c, sz)
                n.cells[c] = (sz, v, ty)
                st.mem[oid] = n
                return
        if o.es is None: o = self.set_es(st, oid, sz, ty)
        es = o.es
        idx = self.elemdiv(st, off, es)
        if idx is None: raise Unsupported('misaligned store to %s at %s' % (oid, self.where(I)))
        if sz == es:
            if isinstance(v, Raw) and len(v.parts) == 1: v = v.parts[0][1]
            if isinstance(v, tuple): v = ite(v, ONE, ZERO)
            if v is UNDEF: v = self.skolem('undef', o.sort)
            if isinstance(v, Poly) and o.sort == 'i' and o.lohi is not None and o.lohi[0] is not None: pass
            self.add_layer(st, oid, W((), (), idx, v))
            return
        if sz > es and isinstance(v, Raw) and sum(x[0] for x in v.parts) == sz and all(x[0] == es for x in v.parts):
            for i, x in enumerate(v.parts): self.add_layer(st, oid, W((), (), idx + i, x[1]))
            return
        if sz > es and isinstance(v, Poly) and v.cval() == 0:
            for i in range(sz // es): self.add_layer(st, oid, W((), (), idx + i, ZERO))
            return
        raise Unsupported('store of %d bytes into %s with element size %d at %s' % (sz, oid, es, self.where(I)))

    def add_layer(self, st, oid, w):
        o = st.mem[oid]
        n = o.copy()
        ls = o.layers
        # drop a superseded point write to the same place
        if ls and not w.binders and not ls[-1].binders and ls[-1].kind == 'w' and ls[-1].addr == w.addr: ls = ls[:-1]
        n.layers = ls + (w,)
        st.mem[oid] = n

    def clear_cells(self, st, n, c, sz):
        for k in list(n.cells):
            s = n.cells[k][0]
            if k < c + sz and c < k + s:
                if k >= c and k + s <= c + sz: del n.cells[k]
                else:
                    # split a bigger cell
                    ss, v, t = n.cells.pop(k)
                    if isinstance(v, Raw):
                        q = k
                        for a, b, tt in v.parts:
                            if q + a <= c or q >= c + sz: n.cells[q] = (a, b, tt)
                            q += a
                    elif isinstance(v, Poly) and v.cval() is not None and t.k == 'int':
                        for j in range(ss):
                            if not (c <= k + j < c + sz): n.cells[k + j] = (1, const((v.cval() >> (8 * j)) & 255), ir.tint(8))
                    elif v is UNDEF: pass
                    else: raise Unsupported('partial overwrite')

    # ------------------------------------------------------------ memcpy / memset
    def memcpy(self, st, d, s, n, I):
        c = n.cval()
        if c == 0: return [st]
        if c is None and self.prove(st, eq(n)): return [st]
        od = self.getobj(st, d, I); os = self.getobj(st, s, I)
        if od is None or os is None: return []
        self.check_bounds(st, od, d.f, n, I, 'memcpy destination'); self.check_bounds(st, os, s.f, n, I, 'memcpy source')
        df, sf = d.f.cval(), s.f.cval()
        if od.cells is not None and os.cells is not None and c is not None and df is not None and sf is not None:
            nn = od.copy(); nn.cells = dict(od.cells)
            src = dict(os.cells)
            self.clear_cells(st, nn, df, c)
            for k, x in src.items():
                if sf <= k and k + x[0] <= sf + c: nn.cells[k - sf + df] = x
                elif k < sf + c and sf < k + x[0]:
                    if isinstance(x[1], Raw):
                        q = k
                        for a, b, tt in x[1].parts:
                            if q >= sf and q + a <= sf + c: nn.cells[q - sf + df] = (a, b, tt)
                            q += a
                    elif isinstance(x[1], Poly) and x[1].cval() is not None and x[2].k == 'int':
                        for j in range(x[0]):
                            if sf <= k + j < sf + c: nn.cells[k + j - sf + df] = (1, const((x[1].cval() >> (8 * j)) & 255), ir.tint(8))
                    else: raise Unsupported('memcpy splits a cell')
            if os.zero is True and not nn.zero:
                covered = set()
                for k, x in src.items():
                    covered.update(range(k, k + x[0]))
                for j in range(sf, sf + c):
                    if j not in covered and c <= 4096: nn.cells[j - sf + df] = (1, ZERO, ir.tint(8))
            st.mem[d.o] = nn
            return [st]
        # at least one array
        es = None; ty = None
        if os.cells is None and os.es: es, ty = os.es, os.flt
        elif od.cells is None and od.es: es, ty = od.es, od.flt
        if es is None:
            # element size from the contents of the record side
            cc = os.cells if os.cells is not None else od.cells
            if cc:
                x = next(iter(cc.values()))
                es, ty = x[0], x[2]
            else: raise Unsupported('memcpy with unknown element size at %s' % self.where(I))
        if c is not None and c // es <= 64 and c % es == 0:
            sts = [(st, 0)]
            res = [st]
            vals = [(st, [])]
            for i in range(c // es):
                nv = []
                for s_, vs in vals:
                    for s2, v in self.load1(s_, ty, s.o, s.f + i * es, I): nv.append((s2, vs + [v]))
                vals = nv
            out = []
            for s_, vs in vals:
                for i, v in enumerate(vs): self.store1(s_, ty, v, d.o, d.f + i * es, I)
                out.append(s_)
            return out
        for oid in (d.o, s.o):
            if st.mem[oid].cells is not None:
                self.to_array(st, oid, es, ty)
                if st.mem[oid].cells is not None: raise Unsupported('symbolic memcpy on record')
            if st.mem[oid].es is None: self.set_es(st, oid, es, ty)
        od = st.mem[d.o]; os = st.mem[s.o]
        if od.es != os.es: raise Unsupported('memcpy element sizes differ')
        di, si, cnt = self.elemdiv(st, d.f, es), self.elemdiv(st, s.f, es), self.elemdiv(st, n, es)
        if di is None or si is None or cnt is None: raise Unsupported('memcpy alignment at %s' % self.where(I))
        k = fresh('c', 'i')
        self.add_layer(st, d.o, W((k.id,), (ge(var(k)), ge(cnt - 1 - var(k))), di + var(k), Lazy(os, si + var(k))))
        return [st]

    def memset(self, st, d, byte, n, I):
        c = n.cval()
        if c == 0: return [st]
        o = self.getobj(st, d, I)
        if o is None: return []
        self.check_bounds(st, o, d.f, n, I, 'memset')
        b = byte.cval() if isinstance(byte, Poly) else None
        if b is None: raise Unsupported('memset byte')
        f = d.f.cval()
        if o.cells is not None and c is not None and f is not None:
            nn = o.copy(); nn.cells = dict(o.cells)
            self.clear_cells(st, nn, f, c)
            if b == 0 and f == 0 and nn.size is not None and nn.size.cval() == c: nn.zero = True; nn.cells = {}
            else:
                if c > 65536: raise Unsupported('big memset')
                k = f
                while k < f + c:
                    s = 8 if k % 8 == 0 and k + 8 <= f + c and b == 0 and False else 1
                    nn.cells[k] = (1, const(b), ir.tint(8)); k += 1
            st.mem[d.o] = nn
            return [st]
        if b != 0: raise Unsupported('memset nonzero on array')
        if o.cells is not None: raise Unsupported('memset symbolic on record')
        if o.es is None:
            # element size unknown: remember zero-fill when it covers the whole object
            if d.f.cval() == 0 and o.size is not None and self.prove(st, eq(o.size - n)):
                nn = o.copy(); nn.base = '0'; nn.layers = (); st.mem[d.o] = nn
                return [st]
            raise Unsupported('memset on untyped array')
        es = o.es
        if d.f.cval() == 0 and o.size is not None and not any(w.kind == 'mark' for w in o.layers) and self.prove(st, eq(o.size - n)):
            nn = o.copy(); nn.base = '0'; nn.layers = (); st.mem[d.o] = nn
            return [st]
        di, cnt = self.elemdiv(st, d.f, es), self.elemdiv(st, n, es)
        if di is None or cnt is None: raise Unsupported('memset alignment')
        k = fresh('c', 'i')
        self.add_layer(st, d.o, W((k.id,), (ge(var(k)), ge(cnt - 1 - var(k))), di + var(k), ZERO))
        return [st]

    # ------------------------------------------------------------ functions
    def call(self, st, name, args, I, byval=None):
        """-> list of (state, value)"""
        c = CONTRACTS.get(name)
        if c is None:
            from rt import lookup
            c = lookup(name)
        if c is not None:
            return c(self, st, args, I)
        f = self.m.funcs.get(name)
        if f is None and name in self.m.aliases:
            f = self.m.funcs.get(self.m.aliases[name][1])
        if f is None or f.declared: 
            from rt import external
            return external(self, st, name, args, I)
        ir.materialize(f)
        self.used.add(name)
        env = {}
        for (t, nm), a in zip(f.params, args): env[nm] = a
        if byval:
            for i, bt in enumerate(byval):
                if bt is not None and i < len(f.params):
                    sz = self.m.size(bt)
                    oid = self.new_obj(st, 'byval', const(sz))
                    q = self.memcpy(st, Ptr(oid, ZERO), args[i], const(sz), I)
                    env[f.params[i][1]] = Ptr(oid, ZERO)
        self.depth += 1
        if self.depth > 200: raise Unsupported('recursion in ' + name)
        outs = self.region(st, env, f, f.order[0], None, frozenset(), None)
        self.depth -= 1
        return [(s, v) for k, s, v, _, _ in outs if k == 'ret']

    def region(self, st, env, f, block, prev, stops, skipphi, limit=None):
        """run from block until a stop block or return.  outcomes: (kind, state, value, block, (prev, env, sym))"""
        outs = []
        work = [(st, env, block, prev, 0, skipphi, False)]
        counts = {}
        info = f.info
        while work:
            s, e, b, pv, i, sp, sym = work.pop()
            self.steps += 1
            if self.steps % 200 == 0: solve.tick()
            blk = f.blocks[b]
            if i == 0:
                if b in stops and sp is None:
                    outs.append(('stop', s, None, b, (pv, e, sym)))
                    if len(outs) > self.path_max: raise Unsupported('too many paths')
                    continue
                if b in info['loops'] and sp is None:
                    r = self.at_header(s, e, f, info['loops'][b], pv, counts, stops)
                    if r is not None:
                        # list of outcomes of the whole loop
                        for o in r:
                            if o[0] == 'ret': outs.append(o)
                            else: work.append((o[1], o[4][1], o[3], o[4][0], 0, None, True))
                        continue
                if sp is None and blk.phis:
                    vals = []
                    for ph in blk.phis:
                        for v, src in ph.a:
                            if src == pv:
                                vals.append(self.val(s, e, ph.ty, v)); break
                        else: raise Unsupported('phi edge')
                    e = dict(e)
                    for ph, v in zip(blk.phis, vals): e[ph.dst] = v
                else:
                    e = dict(e)
                sp = None
            ins = blk.ins
            n = len(ins)
            forked = False
            while i < n:
                I = ins[i]
                r = self.step(s, e, f, I)
                i += 1
                if r is None: continue
                # list of (state, value)
                if len(r) == 1:
                    s = r[0][0]
                    if I.dst is not None: e[I.dst] = r[0][1]
                    continue
                for s2, v in r:
                    e2 = dict(e)
                    if I.dst is not None: e2[I.dst] = v
                    work.append((s2, e2, b, pv, i, None, sym))
                forked = True
                break
            if forked: continue
            # terminator
            T = blk.term
            op = T.op
            if op == 'br': work.append((s, e, T.a[0], b, 0, None, sym))
            elif op == 'cbr':
                c = self.boolv(s, self.val(s, e, ir.tint(1), T.a[0]))
                if c == TRUE: work.append((s, e, T.a[1], b, 0, None, sym))
                elif c == FALSE: work.append((s, e, T.a[2], b, 0, None, sym))
                else:
                    if IFCONV and s.loops is not None:
                        mg = self.ifconv(s, e, f, b, stops, [(c, T.a[1]), (neg(c), T.a[2])])
                        if mg is not None:
                            if mg[3] is MERGED: outs.append(('stop', mg[0], None, mg[2], (MERGED, mg[1], True)))
                            else: work.append(mg)
                            continue
                    for s2, tgt in self.split(s, c, T.a[1], T.a[2]):
                        work.append((s2, e, tgt, b, 0, None, True))
            elif op == 'switch':
                v = self.val(s, e, T.ty, T.a[0])
                if not isinstance(v, Poly): raise Unsupported('switch on %r' % (v,))
                w = T.ty.a
                cv = v.cval()
                if cv is not None:
                    tgt = T.a[1]
                    for x, t in T.a[2]:
                        if (x - cv) % (1 << w) == 0: tgt = t; break
                    work.append((s, e, tgt, b, 0, None, sym))
                else:
                    v = self.srange(s, v, w)
                    if IFCONV:
                        cs = [(eq(v - x), t) for x, t in T.a[2]]
                        mg = self.ifconv(s, e, f, b, stops, cs + [(and_(*[neg(c) for c, t in cs]), T.a[1])])
                        if mg is not None:
                            if mg[3] is MERGED: outs.append(('stop', mg[0], None, mg[2], (MERGED, mg[1], True)))
                            else: work.append(mg)
                            continue
                    cur = s
                    alive = True
                    for x, t in T.a[2]:
                        c = eq(v - x)
                        if c == FALSE: continue
                        s2 = cur.fork()
                        if s2.assume(c) and solve.feasible(s2.pc, s2.bounds): work.append((s2, e, t, b, 0, None, True))
                        cur = cur.fork()
                        if not cur.assume(neg(c)): alive = False; break
                    if alive and solve.feasible(cur.pc, cur.bounds): work.append((cur, e, T.a[1], b, 0, None, True))
            elif op == 'ret':
                v = None
                if T.a: v = self.val(s, e, T.ty, T.a[0])
                outs.append(('ret', s, v, None, (b, e, sym)))
            elif op == 'invoke':
                r = self.do_call(s, e, T)
                for s2, v in r:
                    e2 = dict(e)
                    if T.dst is not None: e2[T.dst] = v
                    work.append((s2, e2, T.x, b, 0, None, sym))
            elif op in ('unreachable', 'resume'):
                self.endpaths += 1
            else: raise Unsupported('terminator ' + op)
            if len(work) > self.path_max: raise Unsupported('too many pending paths')
        return outs

    PLAIN = ('store', 'load', 'getelementptr', 'phi', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'fcmp', 'fadd', 'fsub', 'fmul', 'zext', 'sext', 'trunc',
             'select', 'sitofp', 'uitofp', 'bitcast', 'freeze', 'fneg', 'fpext', 'fptrunc', 'insertelement', 'extractelement', 'shufflevector')
    def joinblock(self, f, b, tgts, stops):
        """the block where the arms of a short conditional without loops and calls meet again"""
        key = (f.name, b)
        if key in self.joins:
            J = self.joins[key]
            return J if J is not None and (J not in stops or isinstance(stops, IfStops)) else None
        heads = f.info['loops']
        paths, n = [], [0]
        def plain(x):
            return all(I.op in self.PLAIN or (I.op == 'call' and I.a[0][0] == 'glob' and I.a[0][1].startswith(('@llvm.dbg', '@llvm.lifetime'))) for I in f.blocks[x].ins)
        def succ(T):
            if T.op == 'br': return [T.a[0]]
            if T.op == 'cbr': return [T.a[1], T.a[2]]
            if T.op == 'switch': return [T.a[1]] + [t for x, t in T.a[2]]
            return None
        def walk(x, path):
            n[0] += 1
            if n[0] > 200 or len(path) > 12: return False
            path = path + (x,)
            if x in stops or x in heads or x == b or not plain(x) or succ(f.blocks[x].term) is None: paths.append(path); return True
            return all(walk(y, path) for y in succ(f.blocks[x].term))
        ok = all(walk(t, ()) for t in dict.fromkeys(tgts))
        J = None
        if ok and paths:
            for x in paths[0]:
                if all(x in q for q in paths): J = x; break
            if J is not None and (J in stops and not isinstance(stops, IfStops) or J in heads or J == b): J = None
            # nothing on the way to the meeting point ends a walk early
            if J is not None and any(y in stops or y in heads or y == b or not plain(y) for q in paths for y in q[:q.index(J)]): J = None
        self.joins[key] = J
        return J

    def under(self, c, p):
        """p where c holds: an equation decides the equations that differ from it by a constant"""
        es = [x[1] for x in (c[1] if c[0] == 'and' else (c,)) if x[0] == 'eq']
        if not es: return p
        def dec(f):
            if f[0] not in ('eq', 'ne'): return None
            for x in es:
                for d in (f[1] - x, f[1] + x):
                    k = d.cval()
                    if k is not None: return (k == 0) == (f[0] == 'eq')
            return None
        r = ZERO
        for m, k in p.d.items():
            t = const(k)
            for a in m:
                A = ATOMS[a]
                q = dec(A.args[0]) if A.kind == 'ite' else None
                t = t * (var(A) if q is None else self.under(c, A.args[1 if q else 2]))
            r = r + t
        return r

    def mergeval(self, cs, vs):
        """value under exclusive conditions; None if it cannot be written as one value"""
        if all(v is vs[0] or v == vs[0] for v in vs): return vs[0]
        if all(isinstance(v, tuple) for v in vs): return or_(*[and_(c, v) for c, v in zip(cs, vs)])
        vs = [ite(v, ONE, ZERO) if isinstance(v, tuple) else v for v in vs]
        if all(isinstance(v, Poly) for v in vs):
            r = vs[-1]
            for c, v in zip(cs[:-1], vs[:-1]): r = r + ite(c, self.under(c, v - vs[-1]), ZERO)
            return r
        if all(isinstance(v, Vec) for v in vs) and len({len(v) for v in vs}) == 1:
            out = [self.mergeval(cs, [v[i] for v in vs]) for i in range(len(vs[0]))]
            return None if any(x is None for x in out) else Vec(out)
        return None

    def ifconv(self, s, e, f, b, stops, arms):
        """execute every arm of a conditional and merge the outcomes into one state"""
        live = []
        for c, t in arms:
            if c == FALSE: continue
            x = s.fork()
            if x.assume(c) and solve.feasible(x.pc, x.bounds): live.append((c, t, x))
        if len(live) == 1: return (s, e, live[0][1], b, 0, None, True)
        if not live: return None
        J = self.joinblock(f, b, [t for c, t in arms], stops)
        if J is None: return None
        nobl = len(self.obls); save = self.wlog
        ends, writes = [], {}
        for c, t, x in live:
            if t == J: ends.append((c, x, b, e)); continue
            self.wlog = []
            try: outs = self.region(x, dict(e), f, t, b, IfStops([J]), None)
            except Unsupported: outs = []
            log, self.wlog = self.wlog, save
            if len(outs) != 1 or outs[0][0] != 'stop': del self.obls[nobl:]; return None
            k, x, _, _, (pv, e2, sym) = outs[0]
            for w in log: writes[(w[0], w[1], w[2].k, self.m.size(w[2]))] = w
            ends.append((c, x, pv, e2))
        cs = [q[0] for q in ends]
        m = s.fork(); m.reads = s.reads
        out = []
        try:
            for oid, off, ty, I in writes.values():
                vals = []
                for c, x, pv, e2 in ends:
                    r = self.load1(x, ty, oid, off, I)
                    if len(r) != 1: del self.obls[nobl:]; return None
                    vals.append(r[0][1])
                v = self.mergeval(cs, vals)
                if v is None: del self.obls[nobl:]; return None
                out.append((oid, off, ty, v, I))
            e3 = dict(e)
            for ph in f.blocks[J].phis:
                vals = []
                for c, x, pv, e2 in ends:
                    if pv is MERGED: vals.append(e2[ph.dst]); continue
                    for v, src in ph.a:
                        if src == pv: vals.append(self.val(x, e2, ph.ty, v)); break
                    else: raise Unsupported('phi edge')
                v = self.mergeval(cs, vals)
                if v is None: del self.obls[nobl:]; return None
                e3[ph.dst] = v
            for oid, off, ty, v, I in out: self.store1(m, ty, v, oid, off, I)
        except Unsupported: del self.obls[nobl:]; return None
        if save is not None: save.extend(writes.values())
        for c, x, pv, e2 in ends:
            r = x.reads; add = []
            while r is not None and r is not s.reads: add.append(r[1]); r = r[0]
            for q in reversed(add): m.reads = (m.reads, q)
        return (m, e3, J, MERGED if J in stops else b, 0, True, True)

    def split(self, s, c, a, b):
        q = quick(s.bounds, c)
        if q is True: return [(s, a)]
        if q is False: return [(s, b)]
        s1 = s.fork(); s2 = s.fork()
        ok1 = s1.assume(c) and solve.feasible(s1.pc, s1.bounds)
        ok2 = s2.assume(neg(c)) and solve.feasible(s2.pc, s2.bounds)
        out = []
        if ok1 and not ok2: return [(s, a)]
        if ok2 and not ok1: return [(s, b)]
        if ok1: out.append((s1, a))
        if ok2: out.append((s2, b))
        return out

    def boolv(self, s, v):
        if isinstance(v, tuple): return v
        if isinstance(v, Poly): return neg(eq(v))
        if v is UNDEF: return ('b', 'undef#%d' % self.bump())
        raise Unsupported('condition %r' % (v,))

    def do_call(self, s, e, I):
        callee, args, bv = I.a
        if callee[0] == 'asm':
            return [(s, None)]
        if callee[0] == 'glob': name = callee[1]
        else:
            p = self.val(s, e, ir.PTR, callee)
            if not isinstance(p, Ptr) or not isinstance(p.o, tuple): raise Unsupported('indirect call through %r at %s' % (p, self.where(I)))
            name = p.o[1]
        if name.startswith('@llvm.dbg') or name.startswith('@llvm.lifetime') or name.startswith('@llvm.experimental.noalias') : return [(s, None)]
        vals = [UNDEF if t is ir.META else self.val(s, e, t, v) for t, v in args]
        return self.call(s, name, vals, I, bv if any(b is not None for b in bv) else None)

    # ------------------------------------------------------------ one instruction
    def step(self, s, e, f, I):
        op = I.op
        h = getattr(self, 'i_' + op, None)
        if h is None:
            if op in ir.BIN: h = self.binop
            elif op in ir.CAST: h = self.castop
            else: raise Unsupported('instruction %s' % op)
        return h(s, e, I)

    def i_alloca(self, s, e, I):
        n = self.val(s, e, ir.tint(64), I.a[0])
        sz = n * self.m.size(I.ty)
        oid = self.new_obj(s, I.dst[1:], sz)
        e[I.dst] = Ptr(oid, ZERO)

    def i_load(self, s, e, I):
        p = self.val(s, e, ir.PTR, I.a[0])
        return self.load(s, I.ty, p, I)

    def i_store(self, s, e, I):
        v = self.val(s, e, I.ty, I.a[0])
        p = self.val(s, e, ir.PTR, I.a[1])
        r = self.store(s, I.ty, v, p, I)
        if len(r) == 1 and r[0] is s: return None
        return [(x, None) for x in r]

    def i_getelementptr(self, s, e, I):
        base = self.val(s, e, I.a[0][0], I.a[0][1])
        e[I.dst] = self.gep(s, base, I.ty, [(t, self.val(s, e, t, v)) for t, v in I.a[1:]])

    def i_call(self, s, e, I): return self.do_call(s, e, I)

    def lanes(self, t): 
        t = self.m.res(t)
        return t.a if t.k == 'vec' else None

    def i_icmp(self, s, e, I):
        a = self.val(s, e, I.ty, I.a[0]); b = self.val(s, e, I.ty, I.a[1])
        if self.lanes(I.ty) is not None:
            e[I.dst] = Vec([self.icmp(s, I.x, I.ty.b, x, y) for x, y in zip(a, b)])
        else: e[I.dst] = self.icmp(s, I.x, I.ty, a, b)

    def icmp(self, s, pr, t, a, b):
        if t.k == 'ptr':
            if isinstance(a, Poly): a = NULL if a.cval() == 0 else a
            if isinstance(b, Poly): b = NULL if b.cval() == 0 else b
            if a is UNDEF or b is UNDEF: return ('b', 'undefptr#%d' % self.bump())
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('pointer comparison %r %r' % (a, b))
            if a.o != b.o:
                if pr == 'eq': return FALSE
                if pr == 'ne': return TRUE
                raise Unsupported('ordering of unrelated pointers')
            d = b.f - a.f
            return {'eq': eq(d), 'ne': neg(eq(d)), 'ult': gt(d), 'ule': ge(d), 'ugt': gt(-d), 'uge': ge(-d), 'slt': gt(d), 'sgt': gt(-d), 'sle': ge(d), 'sge': ge(-d)}[pr]
        n = t.a
        if n == 1:
            a, b = self.boolv(s, a), self.boolv(s, b)
            x = or_(and_(a, b), and_(neg(a), neg(b)))
            if pr == 'eq': return x
            if pr == 'ne': return neg(x)
            raise Unsupported('i1 compare')
        if a is UNDEF or b is UNDEF: return ('b', 'undefcmp#%d' % self.bump())
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.icmp(s, pr, ir.PTR, a, b)
        if isinstance(a, Raw) or isinstance(b, Raw):
            a, b = self.unraw(s, a, n), self.unraw(s, b, n)
        if isinstance(a, tuple): a = ite(a, ONE, ZERO)
        if isinstance(b, tuple): b = ite(b, ONE, ZERO)
        if isinstance(a, Mask) : a = ite(a.c, const(-1), ZERO)
        if isinstance(b, Mask) : b = ite(b.c, const(-1), ZERO)
        if pr in ('eq', 'ne'):
            d = a - b
            c = d.cval()
            if c is not None: f = TRUE if c % (1 << n) == 0 else FALSE
            else:
                # unwrap ite(c,1,0)==const
                f = self.ite_eq(d)
                if f is None:
                    lo, hi = s.bounds.poly(d)
                    if lo > -(1 << n) and hi < (1 << n): f = eq(d)
                    else: f = eq(self.srange(s, a, n) - self.srange(s, b, n))
            return f if pr == 'eq' else neg(f)
        if pr[0] == 'u': a, b = self.urange(s, a, n), self.urange(s, b, n)
        else: a, b = self.srange(s, a, n), self.srange(s, b, n)
        d = b - a
        k = pr[1:]
        return gt(d) if k == 'lt' else ge(d) if k == 'le' else gt(-d) if k == 'gt' else ge(-d)

    def ite_eq(self, d):
        ats = [a for m in d.d for a in m]
        if len(ats) == 1 and ATOMS[ats[0]].kind == 'ite':
            a = ATOMS[ats[0]]
            m = (a.id,)
            c = d.d[m]; r = d.c0()
            x, y = a.args[1].cval(), a.args[2].cval()
            if x is not None and y is not None:
                fx, fy = (c * x + r == 0), (c * y + r == 0)
                if fx and fy: return TRUE
                if fx: return a.args[0]
                if fy: return neg(a.args[0])
                return FALSE
        return None

    def unraw(self, s, v, n):
        if isinstance(v, Raw) and len(v.parts) == 1 and v.parts[0][2].k == 'int': return v.parts[0][1]
        if isinstance(v, Raw):
            # little-endian composition of integer parts
            if all(p[2].k == 'int' for p in v.parts):
                r = ZERO; sh = 0
                for sz, x, t in v.parts:
                    r = r + self.urange(s, x, 8 * sz) * (1 << sh); sh += 8 * sz
                return r
            raise Unsupported('bits of float')
        return v

    def i_fcmp(self, s, e, I):
        a = self.val(s, e, I.ty, I.a[0]); b = self.val(s, e, I.ty, I.a[1])
        if self.lanes(I.ty) is not None: e[I.dst] = Vec([self.fcmp(I.x, x, y) for x, y in zip(a, b)])
        else: e[I.dst] = self.fcmp(I.x, a, b)

    def fcmp(self, pr, a, b):
        if pr == 'ord': return TRUE
        if pr == 'uno': return FALSE
        if pr == 'true': return TRUE
        if pr == 'false': return FALSE
        if a is UNDEF or b is UNDEF: return ('b', 'undeff#%d' % self.bump())
        if isinstance(a, Mask) or isinstance(b, Mask): raise Unsupported('mask compared')
        d = self.rnorm(b - a)
        k = pr[1:]
        if k == 'eq': return eq(d)
        if k == 'ne': return neg(eq(d))
        if k == 'lt': return gt(d)
        if k == 'le': return ge(d)
        if k == 'gt': return gt(-d)
        return ge(-d)

    def rnorm(self, d): return d

    def i_select(self, s, e, I):
        ct, c, a, b = I.a
        cv = self.val(s, e, ct, c); x = self.val(s, e, I.ty, a); y = self.val(s, e, I.ty, b)
        if isinstance(cv, Vec):
            e[I.dst] = Vec([self.sel2(self.boolv(s, q), u, v) for q, u, v in zip(cv, x, y)])
            return None
        cv = self.boolv(s, cv)
        if cv == TRUE: e[I.dst] = x; return None
        if cv == FALSE: e[I.dst] = y; return None
        q = quick(s.bounds, cv)
        if q is not None: e[I.dst] = x if q else y; return None
        if x is UNDEF: e[I.dst] = y; return None
        if y is UNDEF: e[I.dst] = x; return None
        t = self.m.res(I.ty)
        if t.k in ('float', 'double') and isinstance(x, Poly) and isinstance(y, Poly):
            e[I.dst] = ite(cv, x, y); return None
        if t.k == 'int' and t.a == 1:
            x, y = self.boolv(s, x), self.boolv(s, y)
            e[I.dst] = or_(and_(cv, x), and_(neg(cv), y)) ; return None
        if x == y: e[I.dst] = x; return None
        if t.k == 'vec' : e[I.dst] = Vec([self.sel2(cv, u, v) for u, v in zip(x, y)]); return None
        if IFCONV and self.finite(x) and self.finite(y):
            r = self.split(s, cv, x, y)
            if len(r) == 2: e[I.dst] = self.mergeval([cv, neg(cv)], [x, y]); return None
            return r
        return [(s2, v) for s2, v in self.split(s, cv, x, y)]

    def sel2(self, c, a, b):
        if c == TRUE: return a
        if c == FALSE: return b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, tuple) or isinstance(b, tuple):
            return or_(and_(c, a), and_(neg(c), b))
        if isinstance(a, Mask) and isinstance(b, Mask): return Mask(or_(and_(c, a.c), and_(neg(c), b.c)))
        if not (isinstance(a, Poly) and isinstance(b, Poly)): raise Unsupported('lane select')
        return ite(c, a, b)

    def i_freeze(self, s, e, I): e[I.dst] = self.val(s, e, I.ty, I.a[0])

    def i_extractvalue(self, s, e, I):
        v = self.val(s, e, I.ty, I.a[0])
        for i in I.a[1]: v = UNDEF if v is UNDEF else v[i]
        e[I.dst] = v

    def i_insertvalue(self, s, e, I):
        v = self.val(s, e, I.ty, I.a[0]); x = self.val(s, e, I.a[1], I.a[2])
        def ins(v, ix):
            if not ix: return x
            w = Agg(v); w[ix[0]] = ins(v[ix[0]], ix[1:])
            return w
        e[I.dst] = ins(v, I.a[3])

    def i_extractelement(self, s, e, I):
        v = self.val(s, e, I.ty, I.a[0]); i = self.val(s, e, I.a[2], I.a[1])
        c = i.cval()
        if c is None: raise Unsupported('symbolic lane')
        e[I.dst] = v[c]

    def i_insertelement(self, s, e, I):
        v = self.val(s, e, I.ty, I.a[0]); x = self.val(s, e, I.a[1], I.a[2]); i = self.val(s, e, I.a[4], I.a[3])
        w = Vec(v); w[i.cval()] = x
        e[I.dst] = w

    def i_shufflevector(self, s, e, I):
        a = self.val(s, e, I.ty, I.a[0]); b = self.val(s, e, I.ty, I.a[1]); mk_ = self.constv(s, I.a[2], I.a[3])
        n = len(a)
        out = Vec()
        for x in mk_:
            if x is UNDEF: out.append(UNDEF); continue
            c = x.cval()
            out.append(a[c] if c < n else b[c - n])
        e[I.dst] = out

    def i_fneg(self, s, e, I):
        v = self.val(s, e, I.ty, I.a[0])
        ng = lambda x: x if x is UNDEF else -x
        e[I.dst] = Vec([ng(x) for x in v]) if isinstance(v, Vec) else ng(v)

    def i_landingpad(self, s, e, I): raise Unsupported('landing pad reached')
    def i_fence(self, s, e, I): return None
    def i_atomicrmw(self, s, e, I):
        p = self.val(s, e, ir.PTR, I.a[0]); v = self.val(s, e, I.ty, I.a[1])
        out = []
        for s2, o in self.load(s, I.ty, p, I):
            n = {'add': lambda: o + v, 'sub': lambda: o - v, 'xchg': lambda: v, 'fadd': lambda: o + v}[I.x]()
            for s3 in self.store(s2, I.ty, n, p, I): out.append((s3, o))
        return out

    def binop(self, s, e, I):
        a = self.val(s, e, I.ty, I.a[0]); b = self.val(s, e, I.ty, I.a[1])
        t = self.m.res(I.ty)
        if t.k == 'vec': e[I.dst] = Vec([self.bin1(s, I, t.b, x, y) for x, y in zip(a, b)])
        else: e[I.dst] = self.bin1(s, I, t, a, b)

    def bin1(self, s, I, t, a, b):
        op = I.op
        if op[0] == 'f':
            if a is UNDEF or b is UNDEF: return UNDEF
            if isinstance(a, Mask) or isinstance(b, Mask): raise Unsupported('arithmetic on mask')
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv': return a * inv(b)
            if op == 'frem': return fn('fmod', (a, b))
        n = t.a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if n == 1:
            a, b = self.boolv(s, a), self.boolv(s, b)
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op in ('xor', 'add', 'sub'): return or_(and_(a, neg(b)), and_(neg(a), b)) if b not in (TRUE, FALSE) else (neg(a) if b == TRUE else a)
            raise Unsupported('i1 ' + op)
        if isinstance(a, (Raw, Mask)) or isinstance(b, (Raw, Mask)): return self.bitlane(s, op, n, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub':
            if a.o == b.o: return a.f - b.f
            raise Unsupported('difference of unrelated pointers')
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptrint(s, op, n, a, b)
        if isinstance(a, tuple): a = ite(a, ONE, ZERO)
        if isinstance(b, tuple): b = ite(b, ONE, ZERO)
        if op == 'add': return self.red(a + b, n)
        if op == 'sub': return self.red(a - b, n)
        if op == 'mul': return self.red(a * b, n)
        ca, cb = a.cval(), b.cval()
        M = 1 << n
        if op == 'or' and (ca is None or cb is None):
            x, y = self.bitset(a), self.bitset(b)
            if x is not None and y is not None and x & y == 0: return a + b
        if op in ('and', 'or', 'xor') and (ca is None or cb is None) and self.finite(a) and self.finite(b):
            r = self.overcases({'and': lambda x, y: self.sgn(x & y, n), 'or': lambda x, y: self.sgn(x | y, n), 'xor': lambda x, y: self.sgn(x ^ y, n)}[op], a, b)
            if r is not None: return r
        if op == 'shl':
            if cb is not None: return self.red(a * (1 << cb), n)
            if ca is not None and ca == 0: return ZERO
            return self.red(a * self.pow2(s, b), n)
        if op == 'lshr':
            if cb is not None: return self.mkdiv(s, self.urange(s, a, n), const(1 << cb))
            return self.mkdiv(s, self.urange(s, a, n), self.pow2(s, b))
        if op == 'ashr':
            if cb is not None: return self.mkdiv(s, self.srange(s, a, n), const(1 << cb))
            raise Unsupported('ashr by symbolic')
        if op in ('udiv', 'urem'):
            a, b = self.urange(s, a, n), self.urange(s, b, n)
            if b.cval() == 0: self.obls.append(Obl(s.pc, FALSE, 'no division by zero', self.where(I), 'safety')); return UNDEF
            if b.cval() is None: self.obls.append(Obl(s.pc, gt(b), 'no division by zero', self.where(I), 'safety'))
            q = self.mkdiv(s, a, b)
            return q if op == 'udiv' else a - b * q
        if op in ('sdiv', 'srem'):
            a, b = self.srange(s, a, n), self.srange(s, b, n)
            if b.cval() is None: self.obls.append(Obl(s.pc, neg(eq(b)), 'no division by zero', self.where(I), 'safety'))
            if ca is not None and cb is not None:
                x, y = a.cval(), b.cval()
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return const(q if op == 'sdiv' else x - y * q)
            if b.cval() is not None and b.cval() < 0: 
                q = -self.sdivpos(s, a, -b)
            elif self.prove(s, gt(b)): q = self.sdivpos(s, a, b)
            else: raise Unsupported('signed division by possibly negative value at %s' % self.where(I))
            return q if op == 'sdiv' else a - b * q
        if op == 'and':
            if ca is not None and cb is not None: return const((ca % M) & (cb % M))
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                cb %= M
                if cb == M - 1: return a
                if cb == 0: return ZERO
                if cb & (cb + 1) == 0:       # low mask
                    d = cb + 1
                    # representative modulo d suffices
                    r = Poly({m: c % d if c % d else 0 for m, c in a.d.items()})
                    r = Poly({m: c for m, c in r.d.items() if c})
                    lo, hi = s.bounds.poly(r)
                    if lo >= 0 and hi < d: return r
                    return r - const(d) * self.mkdiv(s, r, const(d))
                z = (M - cb)
                if z & (z - 1) == 0:         # high mask
                    u = self.urange(s, a, n)
                    return const(z) * self.mkdiv(s, u, const(z))
                # contiguous field
                lowbit = cb & -cb
                if (cb // lowbit) & (cb // lowbit + 1) == 0:
                    H = cb + lowbit              # bits above the field do not matter
                    u = Poly({m: c % H for m, c in a.d.items() if type(c) is int and c % H} if all(type(c) is int for c in a.d.values()) else dict(a.d))
                    lo, hi = s.bounds.poly(u)
                    if not (lo >= 0 and hi < M): u = self.urange(s, a, n)
                    q = self.mkdiv(s, u, const(lowbit))
                    d = cb // lowbit + 1
                    if lo >= 0 and hi < H: return q * lowbit
                    return (q - const(d) * self.mkdiv(s, q, const(d))) * lowbit
            if a == b: return a
            return self.opaque(s, 'and', n, a, b)
        if op == 'or':
            if ca is not None and cb is not None: return const((ca % M) | (cb % M))
            if cb == 0: return a
            if ca == 0: return b
            if a == b: return a
            if isinstance(I.x, dict) and 'disjoint' in I.x: return a + b
            # disjoint by range: a multiple of 2^k, b < 2^k
            for x, y in ((a, b), (b, a)):
                lo, hi = s.bounds.poly(y)
                if lo >= 0 and hi != INF:
                    k = 1
                    while k <= hi: k *= 2
                    if all(c % k == 0 for c in x.d.values()): return x + y
            return self.opaque(s, 'or', n, a, b)
        if op == 'xor':
            if ca is not None and cb is not None: return const((ca % M) ^ (cb % M))
            if cb is not None and cb % M == M - 1: return -a - 1
            if ca is not None and ca % M == M - 1: return -b - 1
            if cb == 0: return a
            return self.opaque(s, 'xor', n, a, b)
        raise Unsupported(op)

    def finite(self, p, depth=0):
        """integer that depends on its inputs only through conditions: sum of if-then-elses with constant outcomes"""
        if not isinstance(p, Poly) or depth > 4: return False
        for m in p.d:
            if not m: continue
            for a in m:
                A = ATOMS[a]
                if A.kind != 'ite' or not (self.finite(A.args[1], depth + 1) and self.finite(A.args[2], depth + 1)): return False
        return True

    def bitset(self, p):
        """bits that may be set in a sum of conditional, pairwise different bits"""
        r = 0
        for m, k in p.d.items():
            if type(k) is not int or k < 0 or len(m) > 1: return None
            if m:
                A = ATOMS[m[0]]
                if A.kind != 'ite': return None
                x, y = A.args[1].cval(), A.args[2].cval()
                if y != 0 or x is None or x < 0: return None
                k *= x
            if r & k: return None
            r |= k
        return r

    def split_ite(self, p, known=()):
        """(condition, value if true, value if false) of a finite value that is no constant"""
        c = None
        for m in p.d:
            if m: c = ATOMS[m[0]].args[0]; break
        def at(q, v):
            r = ZERO
            for m, k in q.d.items():
                t = const(k)
                for a in m:
                    A = ATOMS[a]
                    if A.args[0] == c: t = t * at(A.args[1 if v else 2], v)
                    elif A.args[0] == neg(c): t = t * at(A.args[2 if v else 1], v)
                    else: t = t * var(A)
                r = r + t
            return r
        return c, at

    def overcases(self, f, *vs, depth=0):
        """f of constants, applied under the conditions of finite values"""
        for v in vs:
            if v.cval() is None: break
        else: return const(f(*[v.cval() for v in vs]))
        if depth > 6: return None
        c, at = self.split_ite(v)
        x = self.overcases(f, *[at(q, True) for q in vs], depth=depth + 1)
        y = self.overcases(f, *[at(q, False) for q in vs], depth=depth + 1)
        if x is None or y is None: return None
        return y + ite(c, x - y, ZERO) if y.cval() is not None else ite(c, x, y)

    def sgn(self, c, n):
        M = 1 << n
        return (c + M // 2) % M - M // 2

    def ptrint(self, s, op, n, a, b):
        if op == 'add' and isinstance(a, Ptr) and isinstance(b, Poly): return Ptr(a.o, a.f + b)
        if op == 'add' and isinstance(b, Ptr) and isinstance(a, Poly): return Ptr(b.o, b.f + a)
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Poly): return Ptr(a.o, a.f - b)
        # objects are taken to be 4096-aligned
        if isinstance(a, Ptr) and isinstance(b, Poly) and b.cval() is not None:
            c = b.cval()
            if op == 'urem' and 4096 % c == 0: return a.f - const(c) * self.mkdiv(s, a.f, const(c))
            if op == 'and' and 0 <= c < 4096 and c & (c + 1) == 0: return a.f - const(c + 1) * self.mkdiv(s, a.f, const(c + 1))
        raise Unsupported('integer %s on pointer' % op)

    def sdivpos(self, s, a, b):
        lo, hi = s.bounds.poly(a)
        if lo >= 0 or self.prove(s, ge(a)): return self.mkdiv(s, a, b)
        if hi <= 0 or self.prove(s, ge(-a)): return -self.mkdiv(s, -a, b)
        return ite(ge(a), self.mkdiv(s, a, b), -self.mkdiv(s, -a, b))

    def pow2(self, s, b):
        return fn('pow2', (b,), 'i', lo=1)

    def opaque(self, s, op, n, a, b):
        self.havocs.append((op, n, show(a)[:50], show(b)[:50]))
        a, b = self.urange(s, a, n), self.urange(s, b, n)
        hi = (1 << n) - 1
        if op == 'and':
            _, h1 = s.bounds.poly(a); _, h2 = s.bounds.poly(b)
            hi = min(hi, h1, h2)
        return var(mk('fn', ('bit' + op, a, b), 'i', 0, hi))

    def red(self, p, n):
        """reduce constants modulo 2^n to the representative nearest zero"""
        M = 1 << n
        if any(abs(c) >= M // 2 for c in p.d.values()):
            d = {}
            for m, c in p.d.items():
                c = (c + M // 2) % M - M // 2
                if c: d[m] = c
            return Poly(d)
        return p

    def bitlane(self, s, op, n, a, b):
        """bitwise operations on the bits of floats and on masks"""
        def isc(x, v): return isinstance(x, Poly) and x.cval() is not None and x.cval() % (1 << n) == v
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Mask):
                if isinstance(y, Mask):
                    if op == 'and': return Mask(and_(x.c, y.c))
                    if op == 'or': return Mask(or_(x.c, y.c))
                    if op == 'xor': return Mask(or_(and_(x.c, neg(y.c)), and_(neg(x.c), y.c)))
                if isc(y, (1 << n) - 1):
                    if op == 'xor': return Mask(neg(x.c))
                    if op == 'and': return x
                    if op == 'or': return y
                if isc(y, 0): return ZERO if op == 'and' else x
                if op == 'and' and isinstance(y, Raw) and all(isinstance(q[1], Mask) for q in y.parts): pass
                elif op == 'and':
                    if isinstance(y, Raw):
                        return Raw([(sz, ite(x.c, v, ZERO), t) for sz, v, t in y.parts])
                    if isinstance(y, Poly): return ite(x.c, y, ZERO)
                if op == 'or' and isinstance(y, Raw): pass
            if isinstance(x, Raw) and len(x.parts) == 1:
                sz, v, t = x.parts[0]
                if op == 'and':
                    if isc(y, (1 << (n - 1)) - 1): return Raw([(sz, self.fabs(v), t)])
                    if isc(y, (1 << n) - 1): return x
                    if isc(y, 0): return ZERO
                if op == 'xor':
                    if isc(y, 1 << (n - 1)): return Raw([(sz, -v, t)])
                    if isc(y, 0): return x
                    if isinstance(y, Raw) and len(y.parts) == 1 and isinstance(y.parts[0][1], Poly) and y.parts[0][1].cval() == 0: return x
                if op == 'or':
                    if isc(y, 0): return x
                    if isinstance(y, Raw) and len(y.parts) == 1:
                        w = y.parts[0][1]
                        # ite(c,x,0) | ite(!c,y,0)
                        r = self.or_sel(v, w)
                        if r is not None: return Raw([(sz, r, t)])
            if op == 'and' and isinstance(x, Raw) and self.finite(y) and all(isinstance(q[1], Mask) for q in x.parts):
                r, sh = ZERO, 0
                for sz, q, t in x.parts:
                    b = 8 * sz
                    h = self.overcases(lambda c: (c >> sh) % (1 << b) << sh, y)
                    if h is None: break
                    r = r + ite(q.c, h, ZERO); sh += b
                else:
                    r = self.overcases(lambda c: self.sgn(c, n), r)
                    if r is not None: return r
        raise Unsupported('bit operation %s on float lanes' % op)

    def or_sel(self, v, w):
        if v.cval() == 0: return w
        if w.cval() == 0: return v
        ca = self.as_guard(v); cb = self.as_guard(w)
        if ca and cb and ca[0] == neg(cb[0]): return v + w
        return None

    def as_guard(self, p):
        g = None
        for m in p.d:
            ok = False
            for a in m:
                A = ATOMS[a]
                if A.kind == 'ite':
                    x, y = A.args[1].cval(), A.args[2].cval()
                    c = A.args[0] if y == 0 else neg(A.args[0]) if x == 0 else None
                    if c is not None and (g is None or g == c): g = c; ok = True; break
            if not ok: return None
        return (g,) if g else None

    def fabs(self, v):
        c = v.cval()
        if c is not None: return const(abs(c))
        return fn('fabs', (v,), 'r', lo=0) if leadsign(v) > 0 else fn('fabs', (-v,), 'r', lo=0)

    def castop(self, s, e, I):
        t, v = I.a
        v = self.val(s, e, t, v)
        d = self.m.res(I.ty)
        t = self.m.res(t)
        if I.op in ('bitcast',) and (d.k == 'vec' or t.k == 'vec'):
            e[I.dst] = self.bitcast(s, t, d, v); return None
        if d.k == 'vec': e[I.dst] = Vec([self.cast1(s, I.op, t.b, d.b, x, I) for x in v])
        else: e[I.dst] = self.cast1(s, I.op, t, d, v, I)

    def bitcast(self, s, t, d, v):
        ta, da = (t.b, t.a) if t.k == 'vec' else (t, 1), (d.b, d.a) if d.k == 'vec' else (d, 1)
        vs = list(v) if t.k == 'vec' else [v]
        et, n1 = ta; ed, n2 = da
        if et.k == 'int' and et.a == 1:
            # mask vector to integer (movemask style)
            r = ZERO
            for i, c in enumerate(vs): r = r + ite(self.boolv(s, c), const(1 << i), ZERO)
            return r
        if n1 == n2:
            out = [self.bits1(s, et, ed, x) for x in vs]
        else:
            s1, s2 = self.m.size(et), self.m.size(ed)
            parts = []
            if s1 < s2:
                k = s2 // s1
                for i in range(n2):
                    grp = vs[i*k:(i+1)*k]
                    if all(isinstance(x, Mask) for x in grp) and all(x.c == grp[0].c for x in grp): parts.append(grp[0]); continue
                    if all(isinstance(x, Poly) and x.cval() == 0 for x in grp): parts.append(ZERO); continue
                    q = self.joinbits(grp, s1, s2)
                    if q is not None and ed.k == 'int': parts.append(q); continue
                    if any(x is UNDEF for x in grp): parts.append(UNDEF); continue
                    fl = []
                    for x in grp:
                        if isinstance(x, Raw): fl += x.parts
                        else: fl.append((s1, x, et))
                    parts.append(Raw(fl))
                out = [x if isinstance(x, Poly) and ed.k == 'int' and x.cval() is None and self.finite(x) else self.bits1(s, ed if not isinstance(x, Raw) else ir.tint(8 * s2), ed, x) if not isinstance(x, Mask) else x for x in parts]
            else:
                k = s1 // s2
                out = []
                for x in vs:
                    if isinstance(x, Mask): out += [x] * k; continue
                    if x is UNDEF: out += [UNDEF] * k; continue
                    if isinstance(x, Raw) and len(x.parts) == k:
                        for sz, v0, tt in x.parts: out.append(self.bits1(s, tt, ed, v0))
                        continue
                    if isinstance(x, Poly) and x.cval() is not None and et.k == 'int':
                        c = x.cval() % (1 << (8 * s1))
                        for j in range(k): out.append(self.bits1(s, ir.tint(8 * s2), ed, const((c >> (8 * s2 * j)) % (1 << (8 * s2)))))
                        continue
                    if isinstance(x, Poly) and et.k == 'int' and ed.k == 'int' and self.finite(x):
                        hs = [self.overcases(lambda c: self.sgn(c >> (8 * s2 * j), 8 * s2), x) for j in range(k)]
                        if all(h is not None for h in hs): out += hs; continue
                    if isinstance(x, (Raw, Poly)):
                        # halves of a wider value: keep as tagged pieces
                        src = x.parts[0][1] if isinstance(x, Raw) and len(x.parts) == 1 else x
                        st_ = x.parts[0][2] if isinstance(x, Raw) and len(x.parts) == 1 else et
                        for j in range(k): out.append(Piece(src, st_, j, k))
                        continue
                    raise Unsupported('bitcast split')
                # nothing
        # recombine pieces
        if n1 > n2:
            pass
        return Vec(out) if d.k == 'vec' else out[0]

    def joinbits(self, grp, s1, s2):
        """bits of adjacent integers, each known up to conditions, as one integer"""
        vs, some = [], False
        for x in grp:
            if isinstance(x, Raw) and len(x.parts) == 1 and x.parts[0][2].k == 'int' and self.finite(x.parts[0][1]): x = x.parts[0][1]; some = True
            elif isinstance(x, Poly) and x.cval() == 0: pass
            else: return None
            vs.append(x)
        if not some: return None
        M = 1 << 8 * s1
        return self.overcases(lambda *c: self.sgn(sum((q % M) << 8 * s1 * j for j, q in enumerate(c)), 8 * s2), *vs)

    def bits1(self, s, a, b, v):
        if v is UNDEF: return v
        if isinstance(v, Mask): return v
        if isinstance(v, Piece): return v
        if isinstance(v, Raw):
            if len(v.parts) == 1:
                sz, x, t = v.parts[0]
                if isinstance(x, Piece): return v
                if b.k in ('float', 'double'): return x if t.k == b.k else self.retype(s, x, t, b)
            elif all(isinstance(p[1], Piece) for p in v.parts):
                ps = [p[1] for p in v.parts]
                if all(p.v is ps[0].v or p.v == ps[0].v for p in ps) and [p.j for p in ps] == list(range(len(ps))) and len(ps) == ps[0].k:
                    return self.bits1(s, ps[0].t, b, ps[0].v)
            if b.k in ('float', 'double') and all(isinstance(p[1], Poly) and p[1].cval() is not None and p[2].k == 'int' for p in v.parts):
                c = 0; sh = 0
                for sz, x, t in v.parts:
                    c |= (x.cval() % (1 << 8 * sz)) << sh; sh += 8 * sz
                return self.retype(s, const(c), ir.tint(sh), b)
            return v
        if a.k == b.k: return v
        if b.k == 'int' and a.k in ('float', 'double'):
            if v.cval() == 0: return ZERO
            return Raw([(self.m.size(a), v, a)])
        if b.k in ('float', 'double') and a.k == 'int':
            if isinstance(v, Poly):
                c = v.cval()
                n = a.a
                if c == 0: return ZERO
                if c is not None:
                    if c % (1 << n) == (1 << n) - 1: return Mask(TRUE)
                    if c % (1 << n) == 1 << (n - 1): return NegZero()
                    if c % (1 << n) == (1 << (n - 1)) - 1: return AbsMask()
                at = v.single()
                g = self.ite_mask(v, n)
                if g is not None: return Mask(g)
                if c is None and self.finite(v): return Raw([(n // 8, v, a)])
            return self.retype(s, v, a, b)
        if b.k == 'ptr' or a.k == 'ptr': return v
        return v

    def ite_mask(self, v, n):
        # ite(c,-1,0) in expanded form: polynomial  +-1*ite + const
        at = [m for m in v.d if m]
        if len(at) == 1 and len(at[0]) == 1 and ATOMS[at[0][0]].kind == 'ite':
            a = ATOMS[at[0][0]]
            x, y = a.args[1].cval(), a.args[2].cval()
            if x is not None and y is not None:
                c = v.d[at[0]]; r = v.c0()
                vx, vy = (c * x + r) % (1 << n), (c * y + r) % (1 << n)
                ones = (1 << n) - 1
                if (vx, vy) == (ones, 0): return a.args[0]
                if (vx, vy) == (0, ones): return neg(a.args[0])
        return None

    def cast1(self, s, op, t, d, v, I):
        if v is UNDEF: return UNDEF
        if op == 'trunc':
            if isinstance(v, Raw):
                if len(v.parts) > 1 and self.m.size(d) == v.parts[0][0]: return self.bits1(s, v.parts[0][2], d, v.parts[0][1])
                if len(v.parts) == 1 and v.parts[0][2].k == 'int': v = v.parts[0][1]
                elif all(p[2].k == 'int' for p in v.parts): v = self.unraw(s, v, t.a)
                else: raise Unsupported('trunc of raw bits')
            if isinstance(v, Mask): return v.c if d.a == 1 else v
            if isinstance(v, tuple): v = ite(v, ONE, ZERO)
            if isinstance(v, Ptr): return v
            if d.a == 1:
                c = v.cval()
                if c is not None: return TRUE if c % 2 else FALSE
                f = self.ite_eq(v - 1)
                if f is not None:
                    return f
                lo, hi = s.bounds.poly(v)
                if lo >= 0 and hi <= 1: return eq(v - 1)
                r = v - const(2) * div0(v, const(2))
                return neg(eq(r))
            return self.red(v, d.a)
        if op == 'zext':
            if isinstance(v, tuple): return ite(v, ONE, ZERO)
            if isinstance(v, Raw): 
                if all(p[2].k == 'int' for p in v.parts): return self.urange(s, self.unraw(s, v, t.a), t.a)
                return Raw(v.parts + [(self.m.size(d) - self.m.size(t), ZERO, ir.tint(8 * (self.m.size(d) - self.m.size(t))))])
            if isinstance(v, Mask): return ite(v.c, const((1 << t.a) - 1), ZERO)
            return self.urange(s, v, t.a)
        if op == 'sext':
            if isinstance(v, tuple): return Mask(v) if v not in (TRUE, FALSE) else (const(-1) if v == TRUE else ZERO)
            if isinstance(v, Mask): return v
            return self.srange(s, v, t.a)
        if op in ('fptrunc', 'fpext'): return v
        if op == 'sitofp': 
            if isinstance(v, Mask): v = ite(v.c, const(-1), ZERO)
            if isinstance(v, tuple): return ite(v, const(-1), ZERO)
            return self.srange(s, v, t.a)
        if op == 'uitofp':
            if isinstance(v, tuple): return ite(v, ONE, ZERO)
            return self.urange(s, v, t.a)
        if op in ('fptosi', 'fptoui'):
            return self.toint(s, v)
        if op == 'ptrtoint': return v
        if op == 'inttoptr':
            if isinstance(v, Poly) and v.cval() == 0: return NULL
            if isinstance(v, Raw) and len(v.parts) == 1: v = v.parts[0][1]
            return v
        if op in ('bitcast', 'addrspacecast'): return self.bits1(s, t, d, v)
        raise Unsupported(op)

    def toint(self, s, v):
        """C truncation of a real towards zero"""
        if psort(v) == 'i': return v
        c = v.cval()
        if c is not None: return const(int(c))
        # split off an integer part:  v = n + r, 0<=r<1, v>=0
        ip = Poly({m: x for m, x in v.d.items() if type(x) is int and all(ATOMS[a].sort == 'i' for a in m)})
        if ip.d and ip != v:
            r = v - ip
            if self.prove(s, and_(ge(r), gt(const(1) - r), ge(ip))): return ip
        fl = self.floor(v)
        lo, hi = s.bounds.poly(v)
        if lo >= 0 or self.prove(s, ge(v)): return fl
        return ite(ge(v), fl, -self.floor(-v))

    def floor(self, v):
        if psort(v) == 'i': return v
        c = v.cval()
        if c is not None: 
            import math
            return const(math.floor(c))
        ip = Poly({m: x for m, x in v.d.items() if type(x) is int and all(ATOMS[a].sort == 'i' for a in m)})
        r = v - ip
        a = mk('fn', ('floor', r), 'i')
        return ip + var(a)

    # ------------------------------------------------------------ loops
    def at_header(self, s, e, f, L, pv, counts, stops):
        """None: execute the header normally (unrolling); else the outcomes of the summarised loop"""
        h = L.header
        key = h
        # probe the header with the actual values
        mark = len(self.obls)
        hs = s.fork()
        oldreads = hs.reads
        try:
            r = self.region_probe(hs, dict(e), f, h, pv, L)
        finally:
            del self.obls[mark:]
        if r == 'const':
            counts[key] = counts.get(key, 0) + 1
            if counts[key] > self.unroll_max: raise Unsupported('unroll limit at %s' % h)
            return None
        from loops import summarise
        return summarise(self, s, e, f, L, pv)

    def region_probe(self, s, e, f, h, pv, L):
        """'const' if control through the header block (up to its terminator) is decided without any symbolic condition"""
        blk = f.blocks[h]
        for ph in blk.phis:
            for v, src in ph.a:
                if src == pv: e['!' + ph.dst] = self.val(s, e, ph.ty, v); break
        for ph in blk.phis: e[ph.dst] = e.pop('!' + ph.dst, UNDEF)
        T = blk.term
        if T.op == 'cbr' and not (T.a[1] in L.blocks and T.a[2] in L.blocks):
            cur = s
            for I in blk.ins:
                r = self.step(cur, e, f, I)
                if r is None: continue
                if len(r) != 1: return 'sym'
                cur = r[0][0]
                if I.dst is not None: e[I.dst] = r[0][1]
            c = self.boolv(cur, self.val(cur, e, ir.tint(1), T.a[0]))
            return 'const' if c in (TRUE, FALSE) else 'sym'
        # exits elsewhere: find whether the exit conditions depend on symbolic data is unknown -> use annotation
        return 'const' if not self.cfg.get('sum_rotated', True) else self.probe_deep(s, e, f, h, L)

    def probe_deep(self, s, e, f, h, L):
        """rotated or multi-exit loop: run one iteration; 'const' if a single path with no symbolic decision"""
        if self.cfg.get('noprobe'): return 'const'
        stops = frozenset([h]) | frozenset(b for b in f.blocks if b not in L.blocks)
        try:
            outs = self.region(s, e, f, h, None, stops, True)
        except Unsupported:
            return 'const'
        if len(outs) == 1 and not outs[0][4][2]: return 'const'
        return 'sym'

class Piece:
    """j-th of k equal slices of a value's bits"""
    __slots__ = ('v', 't', 'j', 'k')
    def __init__(self, v, t, j, k): self.v, self.t, self.j, self.k = v, t, j, k
class NegZero: pass
class AbsMask: pass
