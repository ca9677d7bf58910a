"""Loop summaries: an arbitrary iteration is executed once; the loop's effect is a closed form for every trip count."""
from terms import *
import terms
import ir, solve
from solve import quick, entails, radix, INF
import sx as S

def defs(f):
    d = f.info.get('defs')
    if d is None:
        d = {}
        for b in f.order:
            blk = f.blocks[b]
            for I in blk.phis + blk.ins + ([blk.term] if blk.term.dst else []):
                d[I.dst] = (b, I)
        f.info['defs'] = d
    return d

def static_step(sx, s, e, f, L, ph):
    """closed-form increment of a header phi per iteration, or None"""
    D = defs(f)
    def inv_val(t, v):
        if v[0] == 'loc':
            if v[1] in D and D[v[1]][0] in L.blocks: return None
            x = e.get(v[1])
            return x if isinstance(x, Poly) else None
        try:
            x = sx.constv(s, t, v)
        except S.Unsupported: return None
        return x if isinstance(x, Poly) else None
    def walk(v, depth=0):
        if v[0] != 'loc' or depth > 20: return None
        if v[1] == ph.dst: return ZERO
        if v[1] not in D: return None
        b, I = D[v[1]]
        if b not in L.blocks: return None
        if I.op in ('add', 'sub'):
            a, c = I.a
            w = walk(a, depth + 1)
            if w is not None:
                x = inv_val(I.ty, c)
                if x is None: return None
                return w + x if I.op == 'add' else w - x
            if I.op == 'add':
                w = walk(c, depth + 1)
                if w is not None:
                    x = inv_val(I.ty, a)
                    return None if x is None else w + x
            return None
        if I.op == 'getelementptr':
            w = walk(I.a[0][1], depth + 1)
            if w is None: return None
            idx = []
            for t, c in I.a[1:]:
                x = inv_val(t, c)
                if x is None: return None
                idx.append((t, x))
            return w + sx.gep(s, S.Ptr('tmp', ZERO), I.ty, idx).f
        if I.op == 'phi':
            # merge inside the loop: all arms must agree
            r = None
            for v2, src in I.a:
                w = walk(v2, depth + 1)
                if w is None: return None
                if r is not None and r != w: return None
                r = w
            return r
        return None
    st = None
    for v, src in ph.a:
        if src not in L.blocks: continue
        w = walk(v)
        if w is None: return None
        if st is not None and st != w: return None
        st = w
    return st

def shape_havoc(sx, v, tag, made, ty=None):
    if isinstance(v, Poly) or v is S.UNDEF:
        sort = 'r'
        t = ty
        if t is not None and t.k == 'int': sort = 'i'
        elif t is None and isinstance(v, Poly): sort = psort(v)
        if t is not None and t.k == 'int' and t.a == 1:
            return ('b', 'hv%d' % sx.bump())
        if t is not None and t.k == 'ptr': return S.UNDEF
        a = fresh('h_' + tag, sort)
        made.append(a)
        return var(a)
    if isinstance(v, S.Vec): return S.Vec([shape_havoc(sx, x, tag, made, ty.b if ty is not None and ty.k == 'vec' else None) for x in v])
    if isinstance(v, S.Agg): return S.Agg([shape_havoc(sx, x, tag, made) for x in v])
    if isinstance(v, tuple): return ('b', 'hv%d' % sx.bump())
    if isinstance(v, S.Ptr): return S.UNDEF
    if isinstance(v, S.Raw): return S.Raw([(a, shape_havoc(sx, b, tag, made, c), c) for a, b, c in v.parts])
    return S.UNDEF

def leaves(v, out):
    if isinstance(v, (S.Vec, S.Agg)):
        for x in v: leaves(x, out)
    elif isinstance(v, S.Raw):
        for x in v.parts: leaves(x[1], out)
    else: out.append(v)

def unleaves(v, vals):
    if isinstance(v, S.Vec): return S.Vec([unleaves(x, vals) for x in v])
    if isinstance(v, S.Agg): return S.Agg([unleaves(x, vals) for x in v])
    if isinstance(v, S.Raw): return S.Raw([(a, unleaves(b, vals), c) for a, b, c in v.parts])
    return vals.pop(0)

# ------------------------------------------------------------------ sums
def canon_sum(kid, T, body, sort):
    """canonical Sum_{k=0}^{T-1} body(k)"""
    tot = ZERO
    groups = {}
    for m, c in body.d.items():
        dep = tuple(a for a in m if kid in ATOMS[a].vars)
        out = tuple(a for a in m if kid not in ATOMS[a].vars)
        groups.setdefault(dep, []).append((out, c))
    for dep, outs in groups.items():
        co = Poly({})
        for o, c in outs: co = co + Poly({o: c})
        if not dep:
            tot = tot + co * T
            continue
        b = Poly({dep: 1})
        if dep == (kid,):
            tot = tot + co * (T * (T - 1)) * Fraction(1, 2); continue
        # split if-then-else on index conditions is left to the reader; canonical binder name
        lvl = 0
        for a in dep:
            lvl = max(lvl, sum_level(a))
        cb = mk('bvar', ('$%d' % (lvl + 1),), 'i')
        b2 = Subst({kid: var(cb)}).poly(b)
        tot = tot + co * var(mk('sum', (cb.id, T, b2), sort))
    return tot

from fractions import Fraction
_sl = {}
def sum_level(aid):
    r = _sl.get(aid)
    if r is not None: return r
    a = ATOMS[aid]
    r = 0
    if a.kind == 'sum':
        r = int(ATOMS[a.args[0]].args[0][1:])
    def go(x):
        nonlocal r
        if isinstance(x, Poly):
            for m in x.d:
                for b in m: r = max(r, sum_level(b))
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(a.args)
    _sl[aid] = r
    return r

# ------------------------------------------------------------------ address separation
def digit_sub(kid, polys):
    """k counted in mixed radix: when the polys contain floor(k + c, D), floor(that, E), ... write k = x + D*(y + E*z) - c;
    (substitution, facts about the digits, [digit atoms], D*E*..., c) or None"""
    ids = set()
    for p in polys:
        for m in p.d:
            for a in m:
                if ATOMS[a].kind == 'div' and kid in ATOMS[a].vars: ids.add(a)
                elif kid in ATOMS[a].vars and a != kid: return None
    chain = []
    todo = set(ids)
    while todo:
        a = todo.pop()
        ch = []
        while True:
            at = ATOMS[a]
            ch.append(a)
            if kid in at.args[1].vars(): return None
            inn = sorted({x for m in at.args[0].d for x in m if kid in ATOMS[x].vars})
            if inn == [kid]: break
            if len(inn) != 1 or ATOMS[inn[0]].kind != 'div' or at.args[0] != var(ATOMS[inn[0]]): return None
            a = inn[0]
        ch.reverse()
        if len(ch) > len(chain):
            if chain != ch[:len(chain)]: return None
            chain = ch
        elif chain[:len(ch)] != ch: return None
    if not chain: return None
    n, D = ATOMS[chain[0]].args
    c = n.d.get((kid,))
    if c is None or any(kid in m and m != (kid,) for m in n.d) or type(c) is not int or c <= 0: return None
    if any(type(x) is not int or x % c for x in list(n.d.values()) + list(D.d.values())): return None
    off = Poly({m: x // c for m, x in n.d.items() if m != (kid,)}); D = Poly({m: x // c for m, x in D.d.items()})
    nm = str(ATOMS[kid].args[0])
    rad = [D] + [ATOMS[a].args[1] for a in chain[1:]]
    key = (kid, tuple(chain))
    dg = DIGITS.get(key)
    if dg is None: dg = DIGITS[key] = [mk('bvar', ('%s.%d.%d' % (nm, len(DIGITS), i),), 'i', None if i == len(rad) else 0, None) for i in range(len(rad) + 1)]
    facts = []
    for d, r in zip(dg, rad): facts += [ge(var(d)), ge(r - 1 - var(d))]
    mp = {}
    q = var(dg[-1]); M = ONE
    for i in range(len(rad) - 1, -1, -1):
        mp[chain[i]] = q
        q = var(dg[i]) + rad[i] * q
    for r in rad: M = M * r
    mp[kid] = q - off
    return Subst(mp), facts, dg, M, off
DIGITS = {}

def split_digits(w, kid):
    """the write with its binder kid replaced by the digits its address is made of"""
    if w.kind != 'w': return w
    ds = digit_sub(kid, [w.addr])
    if ds is None: return w
    s, facts, dg, M, off = ds
    nw = S.sub_w(s, w)
    dom = [digit_range(f, g, kid, dg[-1], M, off) for f, g in zip(w.dom, nw.dom)]
    return S.W(tuple(d.id for d in dg) + tuple(b for b in nw.binders if b != kid), tuple(dict.fromkeys(facts + dom)), nw.addr, nw.val, nw.kind, nw.extra)

def digit_range(f, g, kid, top, M, off):
    """the fact f about k, g once k is written in digits: 0 <= k + off < M*T bounds the top digit alone"""
    if kid in fvars(f) and g[0] == 'ge':
        top = var(top)
        p = f[1] - var(ATOMS[kid])
        if f[1].d.get((kid,)) == 1 and p == off: return ge(top)
        t = divide(off - p, M)
        if f[1].d.get((kid,)) == 1 and t is not None: return ge(top - t)
        t = divide(f[1] + var(ATOMS[kid]) + 1 + off, M)
        if f[1].d.get((kid,)) == -1 and t is not None: return ge(t - 1 - top)
    return g

def divide(p, M):
    """p / M for a one-term M, if exact"""
    if len(M.d) != 1: return None
    (dm, dc), = M.d.items()
    q = {}
    for m, x in p.d.items():
        mm = list(m)
        if type(x) is not int or x % dc: return None
        for t in dm:
            if t in mm: mm.remove(t)
            else: return None
        q[tuple(mm)] = x // dc
    return Poly(q)

def distinct(sx, pc, A, B, extra):
    """addresses A and B can never be equal under pc + extra"""
    for P in (A, B):
        for v in [v for v in P.vars() if ATOMS[v].kind == 'bvar']:
            ds = digit_sub(v, [P])
            if ds is None: continue
            A, B = ds[0].poly(A), ds[0].poly(B)
            pc = tuple(digit_range(x, ds[0].form(x), v, ds[2][-1], ds[3], ds[4]) for x in pc) + tuple(ds[1])
    E = A - B
    if eq(E) == FALSE: return True
    b = solve.mkbounds(pc)
    if b is None: return True
    q = quick(b, eq(E))
    if q is False: return True
    if E.d and eq(E) == TRUE: return False
    eqs = radix(E, pc, b)
    if eqs is None: return True
    fs = pc + tuple(eq(p) for p in eqs)
    if FALSE in fs: return True
    return entails(fs, FALSE, None, deep=False, count=False)

def ordered_common(lists):
    if not lists: return []
    sets = [set(l) for l in lists[1:]]
    return [x for x in lists[0] if all(x in t for t in sets)]

class Fail(Exception): pass

def summarise(sx, s, e, f, L, pv):
    h = L.header
    blk = f.blocks[h]
    inits = {}
    for ph in blk.phis:
        for v, src in ph.a:
            if src == pv: inits[ph.dst] = sx.val(s, e, ph.ty, v); break
    steps = {}
    for ph in blk.phis:
        if isinstance(inits[ph.dst], (Poly, S.Ptr)):
            st = static_step(sx, s, e, f, L, ph)
            if st is not None and (isinstance(inits[ph.dst], S.Ptr) or ph.ty.k == 'int'): steps[ph.dst] = st
    exits = set()
    for b in L.blocks:
        for t in ir.succs(f.blocks[b]):
            if t not in L.blocks: exits.add(t)
    stops = frozenset(exits | {h})
    cellphi = {}        # (oid, off) -> ('aff', step) | ('acc',) | ('last',)
    havoc_objs = set()
    phikind = {}        # phi -> 'acc' | 'last' | 'same'
    convert = {}
    nohyp = set()       # counters whose no-wrap hypothesis is not inductive
    entry = s
    for attempt in range(12):
        sx.bump()
        lid = 'L%d' % sx.bump()
        k = mk('bvar', ('k%d' % sx.bump(),), 'i', 0, None)
        kv = var(k)
        s1 = entry.fork()
        s1.assume(ge(kv))
        for oid, (sz, ty) in convert.items():
            sx.to_array(s1, oid, sz, ty)
            sx.to_array(entry, oid, sz, ty)
        hav = []             # (kind, key, leaf atoms)
        e1 = dict(e)
        starts = {}
        for ph in blk.phis:
            v0 = inits[ph.dst]
            if ph.dst in steps:
                c = steps[ph.dst]
                e1[ph.dst] = S.Ptr(v0.o, v0.f + c * kv) if isinstance(v0, S.Ptr) else v0 + c * kv
            elif phikind.get(ph.dst) == 'same': e1[ph.dst] = v0
            else:
                made = []
                e1[ph.dst] = shape_havoc(sx, v0, ph.dst[1:], made, sx.m.res(ph.ty))
            starts[ph.dst] = e1[ph.dst]
        for oid in list(s1.mem):
            o = s1.mem[oid]
            if o.cells is None:
                n = o.copy()
                n.layers = o.layers + (S.W((), (), ZERO, kv, 'mark', (lid, 'havoc' if oid in havoc_objs else 'opt', oid)),)
                s1.mem[oid] = n
        cstart = {}
        for (oid, off), kd in cellphi.items():
            o = s1.mem[oid]
            n = o.copy(); n.cells = dict(o.cells)
            sz, v0, ty = cell0(sx, entry, oid, off, kd[2])
            if kd[0] == 'aff': nv = S.Ptr(v0.o, v0.f + kd[1] * kv) if isinstance(v0, S.Ptr) else v0 + kd[1] * kv
            else:
                made = []
                nv = shape_havoc(sx, v0, 'cell', made, ty)
            n.cells[off] = (sz, nv, ty)
            s1.mem[oid] = n
            cstart[(oid, off)] = nv
        # no-wrap hypotheses on the counters (shown inductive below)
        hyps = []
        for ph in blk.phis:
            if ph.dst in steps and isinstance(inits[ph.dst], Poly) and ph.ty.k == 'int' and ph.ty.a >= 16:
                hyps.append((ph.dst, inits[ph.dst], steps[ph.dst], ph.ty.a))
        for key, kd in cellphi.items():
            if kd[0] == 'aff' and isinstance(cstart[key], Poly) and kd[2].k == 'int' and kd[2].a >= 16:
                hyps.append((key, cell0(sx, entry, key[0], key[1], kd[2])[1], kd[1], kd[2].a))
        hyp = []
        for key, i0, stp, n in hyps:
            for mode in (0, 1):
                if (key, mode) in nohyp: continue
                lo, hi = (0, (1 << (n - 1)) - 1) if mode == 0 else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
                if not sx.prove(entry, and_(ge(i0 - lo), ge(const(hi) - i0))): continue
                hyp.append((key, mode, lo, hi, i0, stp))
                s1.assume(and_(ge(i0 + stp * kv - lo), ge(const(hi) - i0 - stp * kv)))
                break
        base = len(s1.pc)
        start_mem = dict(s1.mem)
        mark = len(sx.obls); hmark = len(sx.havocs)
        sx.binders.append(kv)
        sx.loopdepth = getattr(sx, 'loopdepth', 0) + 1
        try:
            outs = sx.region(s1, e1, f, h, None, stops, True)
        finally:
            sx.binders.pop(); sx.loopdepth -= 1
        LO = [o for o in outs if o[0] == 'stop' and o[3] == h]
        EO = [o for o in outs if not (o[0] == 'stop' and o[3] == h)]
        again = False
        # ---- cells modified by the body
        newcells = {}
        conv2 = {}
        for o in LO:
            for oid, ob in o[1].mem.items():
                sb = start_mem.get(oid)
                if sb is None or sb is ob: continue
                if sb.cells is not None and ob.cells is None:
                    conv2[oid] = (ob.es, ob.flt)
                elif sb.cells is not None:
                    for off, c in ob.cells.items():
                        c0 = sb.cells.get(off)
                        if c0 is not None and (c0 is c or same(c0[1], c[1])): continue
                        if c0 is None and c[2] is not None and not changed_uninit(sb, off, c): continue
                        newcells[(oid, off)] = c
        if conv2:
            new = {o: x for o, x in conv2.items() if o not in convert}
            if new:
                convert.update(new); again = True
        for key, c in newcells.items():
            if key not in cellphi:
                cellphi[key] = ('unk', None, c[2], c[0]); again = True
        if again:
            del sx.obls[mark:]; del sx.havocs[hmark:]
            continue
        hatoms = set()
        for v in list(starts.values()) + list(cstart.values()):
            l = []; leaves(v, l)
            for x in l:
                if isinstance(x, Poly):
                    a = x.single()
                    if a is not None and a.kind == 'sym' and str(a.args[0]).startswith('h_'): hatoms.add(a.id)
        # ---- classify cells
        for key, kd in list(cellphi.items()):
            if kd[0] == 'aff': continue
            nxt = []
            for o in LO:
                c = o[1].mem[key[0]].cells.get(key[1])
                nxt.append(c[1] if c is not None else None)
            cls = classify(cstart[key], nxt, k.id, hatoms)
            if cls[0] == 'aff':
                cellphi[key] = ('aff', cls[1], kd[2], kd[3]); again = True
            elif cls[0] == 'last' and isinstance(cstart[key], Poly) and all(isinstance(x, Poly) for x in nxt):
                c0 = cell0(sx, entry, key[0], key[1], kd[2])[1]
                if isinstance(c0, Poly) and c0.cval() is not None and all(x == c0 for x in nxt):
                    cellphi[key] = ('aff', ZERO, kd[2], kd[3]); again = True      # every iteration restores it
        for ph in blk.phis:
            if ph.dst in steps or phikind.get(ph.dst) == 'same': continue
            nxt = [phi_next(sx, o, ph) for o in LO]
            cls = classify(starts[ph.dst], nxt, k.id, hatoms)
            if cls[0] == 'aff' and isinstance(inits[ph.dst], (Poly,)):
                steps[ph.dst] = cls[1]; again = True
            elif cls[0] == 'same':
                phikind[ph.dst] = 'same'; again = True
            elif cls[0] == 'acc0':
                # all latch values equal the initial value: invariant
                pass
            if cls[0] == 'other' and all(same(x, inits[ph.dst]) for x in nxt):
                phikind[ph.dst] = 'same'; again = True
        if again:
            del sx.obls[mark:]; del sx.havocs[hmark:]
            continue
        for key, mode, lo, hi, i0, stp in hyp:
            nx = i0 + stp * (kv + 1)
            for o in LO:
                if not entails(o[1].pc, and_(ge(nx - lo), ge(const(hi) - nx)), o[1].bounds, deep=False, count=False):
                    nohyp.add((key, mode)); again = True; break
        if again:
            del sx.obls[mark:]; del sx.havocs[hmark:]
            continue
        # ---- reads of earlier iterations' writes
        writes = collect_writes(LO, start_mem, base)
        bad = conflicts(sx, s1, k, base, LO, EO, writes, lid, havoc_objs)
        if bad - havoc_objs:
            if getattr(sx, 'debug', 0): print('  havoc', bad, 'in loop', h, 'of', f.name[:60])
            for b in bad - havoc_objs: sx.havocs.append(('recurrence', b, h))
            havoc_objs |= bad
            m2 = sx.havocs[hmark:]
            del sx.obls[mark:]
            continue
        break
    else:
        raise S.Unsupported('loop summary did not converge in %s' % f.name)
    sx.loopstats.append((f.name, h, len(LO), len(EO)))
    if not LO:
        sub = Subst({k.id: ZERO})
        res = []
        for o in EO: res.append(finish(sx, entry, e, e1, o, sub, {}, start_mem, base, lid, None))
        return [x for x in res if x is not None]
    return close(sx, entry, e, e1, f, L, blk, inits, starts, steps, cellphi, cstart, k, lid, base, start_mem, LO, EO, writes, phikind)

def changed_uninit(sb, off, c):
    return True

def cell0(sx, st, oid, off, ty):
    o = st.mem[oid]
    c = o.cells.get(off)
    if c is not None: return c
    for q, x in o.cells.items():
        if q < off < q + x[0]: raise S.Unsupported('cell split across loop')
    v = sx.cell_read(st, o, oid, off, sx.m.size(ty), ty)
    return (sx.m.size(ty), v, ty)

def same(a, b):
    if a is b: return True
    if type(a) != type(b): return False
    if isinstance(a, (Poly, tuple, S.Ptr)): return a == b
    if isinstance(a, (S.Vec, S.Agg)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, S.Raw): return len(a.parts) == len(b.parts) and all(same(x[1], y[1]) for x, y in zip(a.parts, b.parts))
    if isinstance(a, S.Mask): return a.c == b.c
    return False

def phi_next(sx, o, ph):
    pv, e, _ = o[4]
    for v, src in ph.a:
        if src == pv: return sx.val(o[1], e, ph.ty, v)
    raise S.Unsupported('phi latch')

def depends(v, ids):
    l = []; leaves(v, l)
    for x in l:
        if isinstance(x, Poly) and (x.vars() & ids): return True
        if isinstance(x, tuple) and (fvars(x) & ids): return True
        if isinstance(x, S.Ptr) and (x.f.vars() & ids): return True
    return False

def classify(start, nxt, kid, hatoms):
    """('aff', step) | ('same',) | ('acc', [delta leaves per path]) | ('last',) | ('other',)"""
    if not nxt: return ('same',)
    if all(same(x, start) for x in nxt): return ('same',)
    if isinstance(start, Poly) and all(isinstance(x, Poly) for x in nxt):
        ds = [x - start for x in nxt]
        bad = hatoms | {kid}
        if all(d == ds[0] for d in ds) and not (ds[0].vars() & bad):
            return ('aff', ds[0])
    l0 = []; leaves(start, l0)
    acc = []
    ok = True
    for x in nxt:
        l = []; leaves(x, l)
        if len(l) != len(l0): ok = False; break
        row = []
        for a, b in zip(l, l0):
            if not (isinstance(a, Poly) and isinstance(b, Poly)): ok = False; break
            d = a - b
            if d.vars() & hatoms: ok = False; break
            row.append(d)
        if not ok: break
        acc.append(row)
    if ok: return ('acc', acc)
    if not any(depends(x, hatoms) for x in nxt): return ('last',)
    return ('other',)

def collect_writes(LO, start_mem, base):
    """oid -> list per latch path of (path, [new layers])"""
    r = {}
    for pi, o in enumerate(LO):
        for oid, ob in o[1].mem.items():
            sb = start_mem.get(oid)
            if sb is None or sb is ob or ob.cells is not None: continue
            if sb.cells is not None: continue
            new = ob.layers[len(sb.layers):]
            if ob.layers[:len(sb.layers)] != sb.layers and len(sb.layers) and ob.layers[len(sb.layers)-1] is not sb.layers[-1]:
                raise S.Unsupported('layer order')
            if new: r.setdefault(oid, []).append((pi, new))
    return r

def suffix(o, base): return o[1].pc[base:]

def rename(binders):
    # primed copies occur in separation queries only and never persist
    return Subst({b: var(mk('bvar', (str(ATOMS[b].args[0]) + "'",), ATOMS[b].sort, ATOMS[b].lo, ATOMS[b].hi)) for b in binders})

def terms_bump():
    terms._fresh[0] += 1
    return terms._fresh[0]

def all_reads(outs, stop):
    seen = {}
    for o in outs:
        r = o[1].reads
        while r is not None and r is not stop:
            r, x = r
            key = (x[0], x[1], x[4])
            y = seen.get(key)
            if y is None: seen[key] = x
            elif y[2] is not x[2]:
                st = set(x[2])
                seen[key] = (x[0], x[1], tuple(q for q in y[2] if q in st), None, x[4])
    return list(seen.values())

def conflicts(sx, s1, k, base, LO, EO, writes, lid, havoc_objs):
    bad = set()
    reads = [r for r in all_reads(LO + EO, s1.reads) if r[4] == lid]
    if not reads or not writes: return bad
    common = ordered_common([list(suffix(o, base)) for o in LO])
    classes = {}
    for oid, lst in writes.items():
        for pi, new in lst:
            for w in new:
                if w.kind == 'mark': continue
                classes.setdefault(oid, {}).setdefault((w.addr, w.binders), []).append((pi, w))
    for oid, idx, pc, _, _ in reads:
        if oid in havoc_objs or oid in bad or oid not in classes: continue
        for (addr, binders), lst in classes[oid].items():
            if len(lst) == 1: dom = list(suffix(LO[lst[0][0]], base)) + list(lst[0][1].dom)
            else: dom = common + ordered_common([list(w.dom) for _, w in lst])
            rn = rename((k.id,) + binders)
            k2 = rn.mp[k.id]
            facts = tuple(rn.form(x) for x in dom) + (ge(k2),)
            full = tuple(pc) + facts + (gt(var(k) - k2),)
            if not distinct(sx, full, idx, rn.poly(addr), None):
                if sx.cfg.get('debug'): print('conflict', oid, show(idx), show(rn.poly(addr)))
                bad.add(oid); break
    return bad

def close(sx, entry, e, e1, f, L, blk, inits, starts, steps, cellphi, cstart, k, lid, base, start_mem, LO, EO, writes, phikind):
    kv = var(k)
    common = ordered_common([list(suffix(o, base)) for o in LO])
    outs = []
    cand = []
    if len(EO) == 1:
        sf = list(suffix(EO[0], base))
        D = [x for x in sf if x not in common]
        T = None
        if len(D) == 1: T = closed_T(sx, entry, D[0], k)
        if T is not None:
            for extra, t in T: cand.append((EO[0], extra, t, False))
    if not cand:
        for o in EO:
            T = sx.skolem('T', 'i', 0, None)
            cand.append((o, [], T, True))
    # write-write order
    status = {}
    for oid, lst in writes.items():
        status[oid] = order_status(sx, entry, k, base, LO, lst, common)
    multi = len(cand) > 1
    for o, extra, T, general in cand:
        st = o[1].fork()
        # start again from the entry path condition
        st.pc = entry.pc; st.bounds = entry.bounds
        ok = True
        for x in extra:
            if not st.assume(x): ok = False; break
        if not ok or (extra and not solve.feasible(st.pc, st.bounds)): continue
        st.assume(ge(T))
        if T.cval() == 0:
            sub = Subst({k.id: ZERO})
            fin = {}
            mp = {k.id: ZERO}
            for ph in blk.phis:
                if ph.dst in steps or phikind.get(ph.dst) == 'same': continue
                bindleaves(starts[ph.dst], inits[ph.dst], mp)
            for key, kd in cellphi.items():
                if kd[0] == 'aff': continue
                bindleaves(cstart[key], cell0(sx, entry, key[0], key[1], kd[2])[1], mp)
            r = finish(sx, entry, e, e1, o, Subst(mp), {}, start_mem, base, lid, st)
            if r is not None: outs.append(r)
            continue
        # final values of the remaining variables
        mp = {k.id: T}
        hatoms = {}
        def final(start, init, nxt):
            l0 = []; leaves(start, l0)
            li = []; leaves(init, li)
            if len(li) != len(l0): li = [S.UNDEF] * len(l0)
            cls = classify(start, nxt, k.id, allh)
            for j, a in enumerate(l0):
                if not isinstance(a, Poly): continue
                at = a.single()
                if at is None or at.id not in allh: continue
                if cls[0] == 'acc' and isinstance(li[j], Poly):
                    body = combine([row[j] for row in cls[1]], LO, base, common)
                    if body is not None:
                        mp[at.id] = li[j] + canon_sum(k.id, T, body, at.sort)
                        continue
                if cls[0] == 'last':
                    ls = [];
                    for x in nxt:
                        q = []; leaves(x, q); ls.append(q[j])
                    if all(isinstance(x, Poly) and x == ls[0] for x in ls) and sx.prove(st, gt(T)):
                        mp[at.id] = Subst({k.id: T - 1}).poly(ls[0]); continue
                mp[at.id] = sx.skolem('after', at.sort)
                sx.havocs.append(('loopvar', f.name, str(at.args[0])))
        allh = set()
        for v in list(starts.values()) + list(cstart.values()):
            l = []; leaves(v, l)
            for x in l:
                if isinstance(x, Poly):
                    a = x.single()
                    if a is not None and a.kind == 'sym' and str(a.args[0]).startswith('h_'): allh.add(a.id)
        for ph in blk.phis:
            if ph.dst in steps or phikind.get(ph.dst) == 'same': continue
            final(starts[ph.dst], inits[ph.dst], [phi_next(sx, x, ph) for x in LO])
        for key, kd in cellphi.items():
            if kd[0] == 'aff': continue
            final(cstart[key], cell0(sx, entry, key[0], key[1], kd[2])[1], [x[1].mem[key[0]].cells[key[1]][1] for x in LO])
        # inside layers the havoc'd variables are unknown functions of the iteration
        lmp = {}
        for h in allh:
            A = ATOMS[h]
            lmp[h] = var(mk('fn', ('it_%s' % A.args[0],) + tuple(sx.binders) + (kv,), A.sort))
        # prefix sums are known exactly
        for ph in blk.phis:
            if ph.dst in steps or phikind.get(ph.dst) == 'same': continue
            prefix(starts[ph.dst], inits[ph.dst], classify(starts[ph.dst], [phi_next(sx, x, ph) for x in LO], k.id, allh), lmp, allh, k, LO, base, common)
        for key, kd in cellphi.items():
            if kd[0] == 'aff': continue
            prefix(cstart[key], cell0(sx, entry, key[0], key[1], kd[2])[1], classify(cstart[key], [x[1].mem[key[0]].cells[key[1]][1] for x in LO], k.id, allh), lmp, allh, k, LO, base, common)
        lsub = Subst(lmp) if lmp else None
        lay = {}
        for oid, lst in writes.items():
            lay[oid] = build_layers(sx, st, entry, oid, lst, status[oid], k, T, general, LO, base, lsub, lid)
        r = finish(sx, entry, e, e1, o, Subst(mp), lay, start_mem, base, lid, st, LO=LO)
        if r is None: continue
        if general:
            fs = r[1]
            # the loop body's continuation condition held in the previous iteration
            for at_, pre in ((T - 1, gt(T)), (ZERO, gt(T))):
                sb = Subst(dict(lmp, **{k.id: at_})) if True else None
                alt = or_(*[and_(*[sb.form(x) for x in suffix(lo, base)]) for lo in LO])
                fs.assume(or_(neg(pre), alt))
            if not solve.feasible(fs.pc, fs.bounds): continue
        outs.append(r)
    return outs

def prefix(start, init, cls, lmp, allh, k, LO, base, common):
    if cls[0] != 'acc': return
    l0 = []; leaves(start, l0); li = []; leaves(init, li)
    if len(li) != len(l0): return
    for j, a in enumerate(l0):
        if not isinstance(a, Poly): continue
        at = a.single()
        if at is None or at.id not in allh or not isinstance(li[j], Poly): continue
        body = combine([row[j] for row in cls[1]], LO, base, common)
        if body is None: continue
        k2 = mk('bvar', ('k%d' % terms_bump(),), 'i')
        lmp[at.id] = li[j] + canon_sum(k2.id, var(k), Subst({k.id: var(k2)}).poly(body), at.sort)

def bindleaves(start, init, mp):
    l0 = []; leaves(start, l0); li = []; leaves(init, li)
    if len(l0) != len(li): return
    for a, b in zip(l0, li):
        if isinstance(a, Poly) and isinstance(b, Poly):
            at = a.single()
            if at is not None: mp[at.id] = b

def combine(ds, LO, base, common):
    """one expression for a path-dependent value"""
    if all(d == ds[0] for d in ds): return ds[0]
    rows = []
    for d, o in zip(ds, LO):
        c = [x for x in suffix(o, base) if x not in common]
        rows.append((and_(*c), d))
    r = ZERO
    # sum of guarded values (paths are mutually exclusive and cover every iteration)
    for c, d in rows: r = r + guard(c, d)
    return r

def guard(c, d):
    if not d.d: return ZERO
    if c == TRUE: return d
    if c == FALSE: return ZERO
    return ite(c, ONE, ZERO) * d

def closed_T(sx, st, D, k):
    """number of iterations for exit condition D(k); list of (assumptions, T)"""
    G = neg(D)
    if G[0] in ('ge', 'ne', 'eq') and psort(G[1]) == 'i':
        p = G[1]
        b = p.d.get((k.id,))
        rest = Poly({m: c for m, c in p.d.items() if m != (k.id,)})
        if k.id in rest.vars():
            # symbolic coefficient:  a - s*k >= 0
            C = {}; R = {}
            for m, x in p.d.items():
                n = m.count(k.id)
                if n == 1:
                    mm = list(m); mm.remove(k.id); C[tuple(mm)] = x
                elif n == 0: R[m] = x
                else: return None
            C, R = Poly(C), Poly(R)
            if k.id in C.vars() or k.id in R.vars() or G[0] != 'ge': return None
            if not sx.prove(st, gt(-C)): return None
            s_ = -C
            out = []
            if sx.prove(st, ge(R)): return [([], sx.mkdiv(st, R, s_) + 1)]
            if sx.prove(st, gt(-R)): return [([], ZERO)]
            s2 = st.fork(); s2.assume(ge(R))
            return [([ge(R)], sx.mkdiv(s2, R, s_) + 1), ([gt(-R)], ZERO)]
        if b is None:
            return None
        if G[0] == 'ge':
            if b > 0: return None
            c = -b
            a = rest
            if c == 1:
                if sx.prove(st, ge(a + 1)): return [([], a + 1)]
                if sx.prove(st, gt(-a)): return [([], ZERO)]
                return [([ge(a)], a + 1), ([gt(-a)], ZERO)]
            if sx.prove(st, ge(a + c)):      # then floor(a/c)+1 = floor((a+c)/c) >= 0
                return [([], sx.mkdiv(st, a + c, const(c)))]
            s2 = st.fork(); s2.assume(ge(a))
            return [([ge(a)], sx.mkdiv(s2, a + c, const(c))), ([gt(-a)], ZERO)]
        if G[0] == 'ne':
            a = -rest if b > 0 else rest
            c = abs(b)
            T = sx.mkdiv(st, a, const(c)) if c != 1 else a
            if not sx.prove(st, eq(T * c - a)): return None
            if not sx.prove(st, ge(T)): return None
            return [([], T)]
    return None

def order_status(sx, entry, k, base, LO, lst, common):
    """per write class: 'inj' (different iterations write different places) or 'rep' (every iteration rewrites the same
    places); None when neither can be shown"""
    classes = {}
    for pi, new in lst:
        for w in new:
            if w.kind == 'mark': continue
            if w.kind == 'fog': return None
            classes.setdefault((w.addr, w.binders), []).append((pi, w))
    items = []
    for (addr, binders), l in classes.items():
        if len(l) == 1: dom = list(suffix(LO[l[0][0]], base)) + list(l[0][1].dom)
        else: dom = common + ordered_common([list(w.dom) for _, w in l])
        items.append([addr, binders, tuple(dom), [(addr, binders)], len({pi for pi, _ in l}) == len(LO)])
    # address classes up to binder renaming are compared pairwise
    canon = {}
    for it in items:
        addr, binders, dom, keys, every = it
        cb = Subst({b: var(mk('bvar', ('c%d' % i,), ATOMS[b].sort, ATOMS[b].lo, ATOMS[b].hi)) for i, b in enumerate(binders)})
        key = (cb.poly(addr), tuple(sorted(map(repr, (cb.form(x) for x in dom)))) if binders else ())
        if key not in canon: canon[key] = it
        else:
            c0 = canon[key]
            c0[3] += keys
            c0[4] = False
            if not binders: c0[2] = tuple(x for x in c0[2] if x in set(dom))
    items = list(canon.values())
    if len(items) > 40: return None
    st = {}
    rep = []
    for it in items:
        addr, binders, dom, keys, every = it
        if every and k.id not in addr.vars() and not any(k.id in fvars(x) for x in dom if x not in common and x[0] != 'true' and x != ge(var(k))):
            rep.append(True)
        else: rep.append(False)
    for i in range(len(items)):
        for j in range(i, len(items)):
            if i == j and rep[i]: continue
            if rep[i] and rep[j]:
                # both rewritten every iteration: the last iteration's order decides
                continue
            a1, b1, d1 = items[i][:3]; a2, b2, d2 = items[j][:3]
            rn = rename((k.id,) + tuple(b2))
            # both orders of the two iterations
            for rel in ((gt(var(k) - rn.mp[k.id]),) if i == j else (gt(var(k) - rn.mp[k.id]), gt(rn.mp[k.id] - var(k)))):
                pc = entry.pc + (ge(var(k)),) + tuple(d1) + tuple(rn.form(x) for x in d2) + (ge(rn.mp[k.id]), rel)
                if not distinct(sx, pc, a1, rn.poly(a2), None):
                    import os
                    if os.environ.get('DBG'): print('ND', a1, '|||', rn.poly(a2), '|||', [repr(x) for x in pc][:40]); 
                    return None
    for it, r in zip(items, rep):
        for kk in it[3]: st[kk] = 'rep' if r else 'inj'
    return st

def build_layers(sx, st, entry, oid, lst, status, k, T, general, LO, base, lsub, lid):
    kv = var(k)
    out = []
    if status is not None and 'rep' in status.values() and not sx.prove(st, gt(T)):
        status = None
    for pi, new in lst:
        sf = suffix(LO[pi], base)
        for w in new:
            if w.kind == 'mark': continue
            dom = [ge(kv)] + ([ge(T - 1 - kv)] if general else []) + list(sf) + list(w.dom)
            nw = S.W((k.id,) + w.binders, tuple(dom), w.addr, w.val, w.kind, w.extra)
            if lsub is not None: nw = S.sub_w(lsub, nw)
            # drop loop marks buried in lazy snapshots
            if isinstance(nw.val, S.Lazy): nw = S.W(nw.binders, nw.dom, nw.addr, S.Lazy(strip(nw.val.snap, lid), nw.val.idx), nw.kind, nw.extra)
            if status is not None and status[(w.addr, w.binders)] == 'rep':
                sb = Subst({k.id: T - 1})
                nw = S.sub_w(sb, nw)
                nw = S.W(w.binders, tuple(x for x in nw.dom if x != TRUE), nw.addr, nw.val, nw.kind, nw.extra)
            elif status is None:
                sx.havocs.append(('overlapping writes', oid, ''))
                return [S.W((), (), ZERO, ZERO, 'fog', (lid, oid))]
            out.append(fuse(sx, st, split_digits(nw, k.id)))
    return out

def range_of(w, b):
    """n with dom containing 0 <= b < n, b and n independent; with the two facts"""
    lo = ge(var(ATOMS[b]))
    if lo not in w.dom: return None
    for f in w.dom:
        if f[0] == 'ge' and f[1].d.get((b,)) == -1:
            n = f[1] + var(ATOMS[b]) + 1
            if b not in n.vars(): return n, (lo, f)
    return None

def val_has(v, b):
    if isinstance(v, Poly): return b in v.vars()
    return True

def fuse(sx, st, w):
    """blocked loops: binders (a, b) with 0<=b<n that occur only as b + n*a are one binder t = b + n*a in [0, n*A)"""
    if w.kind != 'w' or len(w.binders) < 2 or not isinstance(w.val, Poly): return w
    a = w.binders[0]
    ra = range_of(w, a)
    if ra is None: return w
    A, fa = ra
    for b in w.binders[1:]:
        rb = range_of(w, b)
        if rb is None: continue
        n, fb = rb
        if a in n.vars() or n.isconst() and n.cval() == 1 or b in A.vars(): continue
        t = sx.fused.get((a, b))
        if t is None: t = sx.fused[(a, b)] = mk('bvar', ('t%d' % sx.bump(),), 'i', 0, None)
        s = Subst({b: var(t) - n * var(ATOMS[a])})
        addr = s.poly(w.addr)
        if a in addr.vars(): continue
        val = s.poly(w.val)
        if a in val.vars(): continue
        rest = [s.form(f) for f in w.dom if f not in fa and f not in fb]
        if any(a in fvars(f) for f in rest): continue
        rest = [ge(var(t))] + rest
        up = ge(n * A - 1 - var(t))
        if not solve.entails(st.pc + tuple(rest), up, deep=False, count=False): rest.append(up)
        return fuse(sx, st, S.W(tuple(x for x in w.binders if x not in (a, b)) + (t.id,), tuple(dict.fromkeys(rest)), addr, val, w.kind, w.extra)) 
    return w

def strip(o, lid):
    if o.cells is None and any(w.kind == 'mark' and w.extra[0] == lid for w in o.layers):
        n = o.copy()
        n.layers = tuple(w for w in o.layers if not (w.kind == 'mark' and w.extra[0] == lid))
        return n
    return o

def finish(sx, entry, e, e1, o, sub, lay, start_mem, base, lid, st, LO=()):
    """outcome after the loop for exit path o with k := T (sub)"""
    kind, s0, v, b, (pv, env, sym) = o
    if st is None:
        st = entry.fork()
    else:
        st = st.fork()
    for x in s0.pc[base:]:
        y = sub.form(x)
        if not st.assume(y): return None
    if FALSE in st.pc: return None
    mem = {}
    for oid, ob in s0.mem.items():
        sb = start_mem.get(oid)
        if sb is None:
            mem[oid] = strip(S.sub_obj(sub, ob), lid); continue
        if ob.cells is not None:
            eo = entry.mem.get(oid)
            if ob is sb and eo is ob: mem[oid] = ob
            else: mem[oid] = S.sub_obj(sub, ob)
            continue
        eo = entry.mem[oid]
        if eo.cells is not None:
            raise S.Unsupported('record became array in loop')
        own = ob.layers[len(sb.layers):]
        q = lay.get(oid, [])
        if not own and not q:
            if ob.es != eo.es:
                n = eo.copy(); n.es, n.sort, n.flt = ob.es, ob.sort, ob.flt
                mem[oid] = n
            else: mem[oid] = eo
            continue
        n = ob.copy()
        n.layers = eo.layers + tuple(q) + tuple(S.sub_w(sub, w) for w in own if w.kind != 'mark')
        mem[oid] = n
    # objects whose element type was learned only on latch paths
    for lo in LO:
        for oid, ob in lo[1].mem.items():
            if oid in mem and oid in lay:
                if mem[oid].cells is None and mem[oid].es is None and ob.es is not None:
                    n = mem[oid].copy(); n.es, n.sort, n.flt = ob.es, ob.sort, ob.flt
                    mem[oid] = n
    for oid, ob in entry.mem.items():
        if oid not in mem: mem[oid] = ob
    st.mem = mem
    # reads seen by enclosing loops
    rd = entry.reads
    for x in all_reads([o] + list(LO), entry.reads):
        if x[4] == lid: continue
        rd = (rd, x)
    st.reads = rd
    ne = {}
    for name, val in env.items():
        old = e.get(name)
        if old is val: ne[name] = val
        else: ne[name] = S.sub_val(sub, val)
    if kind == 'ret': return ('ret', st, S.sub_val(sub, v) if v is not None else None, None, (pv, ne, True))
    return ('stop', st, None, b, (pv, ne, True))
