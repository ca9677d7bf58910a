"""Textual LLVM-18 IR reader: modules, types, globals, functions, instructions.

Everything is parsed into small tuples/objects; nothing is dropped except metadata, attributes and
debug locations (line numbers are kept for reporting)."""
import re, sys
sys.setrecursionlimit(20000)

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>[%@][-a-zA-Z$._0-9]+|[%@]"[^"]*")
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<comdat>\$[-a-zA-Z$._0-9]+|\$"[^"]*")
 | (?P<word>[a-zA-Z_.][-a-zA-Z_.0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|;^])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ValueError('tokenize: %r' % s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k == 'p' and t == ';':
            break
        if k == 'loc' and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append(t)
    return out

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'b', 'sz', 'al', 'offs')
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self.sz = self.al = self.offs = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k in ('arr', 'vec'): return '%s[%d x %r]' % (self.k, self.a, self.b)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.a))
        if self.k == 'named': return self.a
        return self.k

INT = {}
def tint(n):
    if n not in INT: INT[n] = Ty('int', n)
    return INT[n]
VOID, FLOAT, DOUBLE, PTR, X87, LABEL, META, HALF = (Ty(k) for k in ('void', 'float', 'double', 'ptr', 'x86_fp80', 'label', 'metadata', 'half'))
BASE = {'void': VOID, 'float': FLOAT, 'double': DOUBLE, 'ptr': PTR, 'x86_fp80': X87, 'label': LABEL, 'metadata': META, 'half': HALF, 'token': VOID}

class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}      # name -> (ty, init const or None, isconst)
        self.funcs = {}        # name -> Func
        self.aliases = {}
        self.dilines = {}      # metadata id -> line
        self.discopes = {}

    def res(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def layout(self, t):
        """(size, align) in bytes"""
        if t.sz is not None:
            return t.sz, t.al
        k = t.k
        if k == 'int':
            b = (t.a + 7) // 8
            s = 1
            while s < b: s *= 2
            r = (s, min(s, 16))
        elif k == 'float': r = (4, 4)
        elif k == 'half': r = (2, 2)
        elif k in ('double', 'ptr'): r = (8, 8)
        elif k == 'x86_fp80': r = (16, 16)
        elif k == 'named':
            r = self.layout(self.types[t.a]) if t.a in self.types else (0, 1)
        elif k == 'arr':
            s, a = self.layout(t.b)
            r = (s * t.a, a)
        elif k == 'vec':
            s, a = self.layout(t.b)
            if t.b.k == 'int' and t.b.a == 1:
                s = 1
                r = (max(1, t.a // 8), max(1, t.a // 8))
            else:
                z = s * t.a
                r = (z, z)
        elif k == 'struct':
            o, al, offs = 0, 1, []
            packed = t.b
            for f in t.a:
                s, a = self.layout(f)
                if not packed:
                    o = (o + a - 1) // a * a
                    al = max(al, a)
                offs.append(o)
                o += s
            if not packed: o = (o + al - 1) // al * al
            t.offs = offs
            r = (o, al)
        elif k in ('void', 'opaque', 'func'): r = (0, 1)
        else: raise ValueError('layout %r' % t)
        t.sz, t.al = r
        return r

    def size(self, t): return self.layout(t)[0]
    def offsets(self, t):
        t = self.res(t)
        self.layout(t)
        return t.offs

class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'vararg', 'declared', 'info', 'lines', 'raw', 'mod', 'retattrs', 'byval')
    def __init__(self): self.info = None; self.raw = None

class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'idx')

class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'x')
    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x
        self.line = 0
    def __repr__(self): return '%s = %s %r %r' % (self.dst, self.op, self.ty, self.a)

ATTRW = set('''noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned inreg nest
 immarg nofree swiftself swifterror noinline allocptr allocalign inalloca local_unnamed_addr unnamed_addr dso_local
 internal private linkonce_odr linkonce weak weak_odr external common appending available_externally hidden protected default
 fast nnan ninf nsz arcp contract afn reassoc nsw nuw exact inbounds inrange disjoint nneg volatile tail musttail notail
 fastcc ccc coldcc mustprogress thread_local extern_weak externally_initialized constant_x writable dead_on_unwind dso_preemptable'''.split())
PARENATTR = {'dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'elementtype', 'byref', 'preallocated', 'memory', 'allocsize', 'addrspace', 'inalloca', 'captures', 'range', 'vscale_range', 'nofpclass', 'initializes'}

class P:
    """token cursor with type / constant parsing"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise ValueError('expected %r got %r in %s' % (x, y, ' '.join(self.t)))
    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    def attrs(self):
        """skip attributes; returns set of seen (byval/sret recorded with type)"""
        seen = {}
        while True:
            x = self.peek()
            if x is None: return seen
            if x in PARENATTR:
                self.next()
                if x == 'align' and self.peek() != '(':
                    self.next(); continue
                if x in ('byval', 'sret'):
                    self.expect('('); seen[x] = self.type(); self.expect(')')
                elif self.peek() == '(':
                    self.skip_parens()
            elif x in ATTRW:
                seen[x] = True
                self.next()
                if x == 'thread_local' and self.peek() == '(': self.skip_parens()
            elif x.startswith('#') or x == 'dso_local_equivalent':
                self.next()
            elif x[0] == '"' :
                self.next()
                if self.accept('='): self.next()
            else:
                return seen
    def type(self):
        x = self.next()
        if x in BASE: t = BASE[x]
        elif x[0] == 'i' and x[1:].isdigit(): t = tint(int(x[1:]))
        elif x[0] == '%': t = Ty('named', x)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); fs = self.types('}'); self.expect('>')
                t = Ty('struct', fs, True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', n, e)
        elif x == '{':
            t = Ty('struct', self.types('}'), False)
        elif x == 'opaque': t = Ty('opaque')
        else: raise ValueError('type? %r in %s' % (x, ' '.join(self.t)))
        if self.peek() == 'addrspace':
            self.next(); self.skip_parens()
        while self.peek() == '(':       # function type
            self.next()
            ar = []; va = False
            while not self.accept(')'):
                if self.accept('...'): va = True
                else: ar.append(self.type()); self.attrs()
                self.accept(',')
            t = Ty('func', ar, t)
        return t
    def types(self, end):
        r = []
        while not self.accept(end):
            r.append(self.type()); self.accept(',')
        return r
    # values: ('loc',name) ('glob',name) ('int',n) ('fp',float|bits) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)]) ('str',bytes) ('ce',op,...)
    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%': return ('loc', x)
        if c == '@': return ('glob', x)
        if x in ('true', 'false'): return ('int', 1 if x == 'true' else 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'none': return ('undef',)
        if x[:2] == '0x': return ('hex', x, ty.k)
        if c.isdigit() or c == '-':
            if ty.k == 'int': return ('int', int(x))
            return ('fp', x)
        if x[:2] == 'c"': return ('str', unesc(x[2:-1]))
        if x in '[{<':
            packed = False
            if x == '<' and self.peek() == '{': self.next(); x = '{'; packed = True
            end = {'[': ']', '{': '}', '<': '>'}[x]
            r = []
            while not self.accept(end):
                t = self.type(); r.append((t, self.value(t))); self.accept(',')
            if packed: self.expect('>')
            return ('agg', r)
        if x == 'getelementptr':
            self.attrs()
            while self.peek() != '(': self.next()
            self.expect('(')
            st = self.type(); self.expect(',')
            ops = []
            while True:
                self.attrs()
                t = self.type(); ops.append((t, self.value(t)))
                if not self.accept(','): break
            self.expect(')')
            return ('ce', 'getelementptr', st, ops)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ce', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'shl', 'and', 'or', 'lshr', 'ashr'):
            self.attrs(); self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('ce', x, t, a, b)
        if x in ('icmp',):
            pr = self.next(); self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('ce', 'icmp', pr, t, a, b)
        if x in ('dso_local_equivalent', 'no_cfi'): return self.value(ty)
        if x == 'blockaddress': self.skip_parens(); return ('undef',)
        if x == 'asm':
            while self.peek() and self.peek()[0] != '"': self.next()
            a = self.next(); self.expect(','); b = self.next()
            return ('asm', a, b)
        if x[0] == '!': # metadata operand
            return ('undef',)
        raise ValueError('value? %r in %s' % (x, ' '.join(self.t)))
    def tyval(self):
        t = self.type(); self.attrs()
        if t is META:
            # skip a metadata operand
            d = 0
            while self.peek() is not None and not (d == 0 and self.peek() in (',', ')')):
                y = self.next()
                if y in '([{': d += 1
                if y in ')]}': d -= 1
            return (t, ('undef',))
        return (t, self.value(t))

def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1', 'replace'); i += 1
    return bytes(out)

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptosi fptoui sitofp uitofp ptrtoint inttoptr bitcast addrspacecast'.split())

def parse_ins(mod, line):
    dbg = 0
    md = re.search(r', !dbg !(\d+)', line)
    if md: dbg = int(md.group(1))
    k = line.find(', !')
    if k >= 0 and 'metadata' not in line: line = line[:k]
    elif k >= 0:
        line = re.sub(r', !dbg !\d+.*$', '', line)
    p = P(mod, tokenize(line))
    dst = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        dst = p.next(); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    I = None
    if op in BIN:
        fl = p.attrs(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        I = Ins(op, dst, t, (a, b), fl)
    elif op == 'fneg':
        p.attrs(); t = p.type(); I = Ins(op, dst, t, (p.value(t),))
    elif op in CAST:
        p.attrs(); t = p.type(); v = p.value(t); p.expect('to'); I = Ins(op, dst, p.type(), (t, v))
    elif op == 'load':
        at = p.accept('atomic'); p.attrs(); t = p.type(); p.expect(','); p.type(); v = p.value(PTR); I = Ins(op, dst, t, (v,))
    elif op == 'store':
        p.accept('atomic'); p.attrs(); t = p.type(); v = p.value(t); p.expect(','); p.type(); q = p.value(PTR); I = Ins(op, None, t, (v, q))
    elif op == 'getelementptr':
        fl = p.attrs(); t = p.type(); p.expect(',')
        ops = []
        while True:
            ops.append(p.tyval())
            if not p.accept(','): break
        I = Ins(op, dst, t, ops)
    elif op in ('icmp', 'fcmp'):
        p.attrs(); pr = p.next()
        while pr in ATTRW: pr = p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        I = Ins(op, dst, t, (a, b), pr)
    elif op == 'br':
        if p.peek() == 'label': p.next(); I = Ins('br', None, None, (p.next(),))
        else:
            t = p.type(); c = p.value(t); p.expect(','); p.next(); a = p.next(); p.expect(','); p.next(); b = p.next()
            I = Ins('cbr', None, None, (c, a, b))
    elif op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.next(); d = p.next(); p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type(); c = p.value(t2); p.expect(','); p.next(); cs.append((c[1], p.next()))
        I = Ins('switch', None, t, (v, d, cs))
    elif op == 'ret':
        t = p.type(); I = Ins('ret', None, t, () if t is VOID else (p.value(t),))
    elif op in ('call', 'invoke'):
        p.attrs(); t = p.type(); fty = None
        if t.k == 'func': fty = t; t = t.b
        callee = p.value(PTR); p.expect('(')
        args = []; bv = []
        while not p.accept(')'):
            ty = p.type(); at = p.attrs()
            if ty is META:
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    if y in '([{': d += 1
                    if y in ')]}': d -= 1
                args.append((ty, ('undef',)))
            else: args.append((ty, p.value(ty)))
            bv.append(at.get('byval'))
            p.accept(',')
        x = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.next(); x = p.next()
            while p.peek() and p.peek() != 'unwind': p.next()
        I = Ins(op, dst, t, (callee, args, bv), x)
    elif op == 'phi':
        p.attrs(); t = p.type(); inc = []
        while p.accept('['):
            v = p.value(t); p.expect(','); b = p.next(); p.expect(']'); inc.append((v, b)); p.accept(',')
        I = Ins('phi', dst, t, inc)
    elif op == 'select':
        p.attrs(); ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
        I = Ins('select', dst, t, (ct, c, a, b))
    elif op == 'alloca':
        p.accept('inalloca'); t = p.type(); n = ('int', 1); nt = tint(64)
        if p.accept(','):
            if p.peek() != 'align': nt = p.type(); n = p.value(nt)
        I = Ins(op, dst, t, (n,))
    elif op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.accept(','): ix.append(int(p.next()))
        I = Ins(op, dst, t, (v, ix))
    elif op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2, v2 = p.tyval(); ix = []
        while p.accept(','): ix.append(int(p.next()))
        I = Ins(op, dst, t, (v, t2, v2, ix))
    elif op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); t2, v2 = p.tyval()
        I = Ins(op, dst, t, (v, v2, t2))
    elif op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); t2, v2 = p.tyval(); p.expect(','); t3, v3 = p.tyval()
        I = Ins(op, dst, t, (v, t2, v2, v3, t3))
    elif op == 'shufflevector':
        t = p.type(); v = p.value(t); p.expect(','); p.type(); v2 = p.value(t); p.expect(','); mt = p.type(); mk = p.value(mt)
        I = Ins(op, dst, t, (v, v2, mt, mk))
    elif op == 'freeze':
        t = p.type(); I = Ins(op, dst, t, (p.value(t),))
    elif op == 'unreachable': I = Ins(op, None, None, ())
    elif op in ('landingpad', 'resume', 'cleanupret', 'catchret', 'catchswitch', 'catchpad', 'cleanuppad'): I = Ins(op, dst, None, ())
    elif op == 'fence': I = Ins(op, None, None, ())
    elif op == 'atomicrmw':
        p.attrs(); o = p.next(); p.type(); q = p.value(PTR); p.expect(','); t = p.type(); v = p.value(t)
        I = Ins(op, dst, t, (q, v), o)
    elif op == 'cmpxchg':
        p.accept('weak'); p.attrs(); p.type(); q = p.value(PTR); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
        I = Ins(op, dst, t, (q, a, b))
    else:
        I = Ins('unknown:' + op, dst, None, ())
    I.line = dbg
    return I

DEFRE = re.compile(r'^define\b')

def parse_module(path):
    mod = Module()
    lines = open(path, encoding='latin1').read().split('\n')
    i = 0
    n = len(lines)
    pend = []
    while i < n:
        L = lines[i]
        if L.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            pend.append((L, lines[i+1:j]))
            i = j + 1
            continue
        if L.startswith('%') and ' = type ' in L:
            nm, rest = L.split(' = type ', 1)
            if nm[1] == '"': nm = '%' + nm[2:-1]
            mod.types[nm] = P(mod, tokenize(rest)).type()
        elif L.startswith('@'):
            pend.append((L, None))
        elif L.startswith('declare'):
            pend.append((L, 0))
        elif L.startswith('!') and ' = ' in L:
            m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)(?:, inlinedAt: !(\d+))?', L)
            if m: mod.dilines[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
            else:
                m = re.match(r'!(\d+) = (?:distinct )?!DI(Subprogram|LexicalBlock|LexicalBlockFile|File)\((.*)\)$', L)
                if m:
                    mod.discopes[int(m.group(1))] = (m.group(2), m.group(3))
        i += 1
    for L, body in pend:
        if body is None: parse_global(mod, L)
        else: parse_func(mod, L, body)
    return mod

def parse_global(mod, L):
    k = L.find(', !')
    if k >= 0 and not 'c"' in L: L = L[:k]
    try:
        toks = tokenize(L)
    except ValueError:
        return
    p = P(mod, toks)
    nm = p.next(); p.expect('=')
    a = p.attrs()
    ext = 'external' in a or 'extern_weak' in a
    while p.peek() == 'addrspace': p.next(); p.skip_parens()
    w = p.next()
    if w == 'alias':
        t = p.type(); p.expect(','); p.type(); v = p.value(PTR)
        mod.aliases[nm] = v
        return
    if w not in ('global', 'constant'):
        return
    t = p.type()
    init = None
    if not ext:
        init = p.value(t)
    mod.globals[nm] = (t, init, w == 'constant')

def parse_func(mod, L, body):
    toks = tokenize(L.rstrip('{ '))
    p = P(mod, toks)
    p.next()
    while p.peek() and p.peek()[0] == '!': p.next(); p.next()
    p.attrs()
    while p.peek() == 'cc': p.next(); p.next()
    f = Func()
    f.mod = mod
    f.ret = p.type()
    f.name = p.next()
    f.vararg = False
    f.params = []
    f.byval = []
    p.expect('(')
    while not p.accept(')'):
        if p.accept('...'): f.vararg = True
        else:
            t = p.type(); a = p.attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%': nm = p.next()
            f.params.append((t, nm)); f.byval.append(a.get('byval'))
        p.accept(',')
    f.declared = body == 0
    f.blocks = {}
    f.order = []
    f.raw = body
    mod.funcs[f.name] = f

def materialize(f):
    """parse the body lazily"""
    if f.raw is None or f.raw == 0: return f
    body, f.raw = f.raw, None
    mod = f.mod
    # unnamed params number from 0
    cur = None
    cnt = 0
    for idx, (t, nm) in enumerate(f.params):
        if nm is None:
            f.params[idx] = (t, '%' + str(cnt)); cnt += 1
        elif nm[1:].isdigit():
            cnt = max(cnt, int(nm[1:]) + 1)
    first = '%' + str(cnt)
    i = 0
    n = len(body)
    while i < n:
        L = body[i].rstrip()
        i += 1
        if not L or L.lstrip().startswith(';'): continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', L)
        if m:
            nm = m.group(1)
            if nm[0] == '"': nm = nm[1:-1]
            cur = Block(); cur.name = '%' + nm; cur.phis = []; cur.ins = []; cur.term = None; cur.idx = len(f.order)
            f.blocks[cur.name] = cur; f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block(); cur.name = first; cur.phis = []; cur.ins = []; cur.term = None; cur.idx = 0
            f.blocks[first] = cur; f.order.append(first)
        s = L.strip()
        if s.startswith('switch') or ' = switch' in s:
            while ']' not in s:
                s += ' ' + body[i].strip(); i += 1
        elif s.startswith('invoke') or ' = invoke' in s:
            s += ' ' + body[i].strip(); i += 1
        elif 'landingpad' in s[:40]:
            while i < n and body[i].strip().split(' ')[0] in ('catch', 'cleanup', 'filter'): i += 1
        try:
            I = parse_ins(mod, s)
        except Exception as e:
            I = Ins('unknown:parse ' + s + ' ' + str(e), None, None, ())
        if I.op == 'phi': cur.phis.append(I)
        elif I.op in ('br', 'cbr', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
            cur.term = I
        else: cur.ins.append(I)
    analyse(f)
    return f

def succs(b):
    t = b.term
    if t.op == 'br': return [t.a[0]]
    if t.op == 'cbr': return [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.a[1]] + [x for _, x in t.a[2]]
    if t.op == 'invoke': return [t.x]
    return []

class Loop:
    __slots__ = ('header', 'blocks', 'parent', 'latches')

def analyse(f):
    """dominators + natural loops"""
    entry = f.order[0]
    # reachable, rpo
    seen = set(); order = []
    stack = [(entry, iter(succs(f.blocks[entry])))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succs(f.blocks[s])))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(f.blocks[b]): preds[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None: new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succs(f.blocks[b]):
            if num[s] <= num[b] and dom(s, b):
                lp = loops.get(s)
                if lp is None:
                    lp = Loop(); lp.header = s; lp.blocks = {s}; lp.latches = []; lp.parent = None
                    loops[s] = lp
                lp.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in lp.blocks: continue
                    lp.blocks.add(x)
                    work += preds[x]
    f.info = {'loops': loops, 'preds': preds, 'idom': idom, 'num': num}

def line_of(mod, dbg):
    """(file-ish function, line)"""
    if not dbg or dbg not in mod.dilines: return ('?', 0)
    line, sc = mod.dilines[dbg]
    for _ in range(50):
        if sc not in mod.discopes: return ('?', line)
        k, txt = mod.discopes[sc]
        if k == 'Subprogram':
            fm = re.search(r'file: !(\d+)', txt)
            if fm and int(fm.group(1)) in mod.discopes:
                ft = mod.discopes[int(fm.group(1))][1]
                fn = re.search(r'filename: "([^"]*)"', ft)
                if fn: return (fn.group(1), line)
            return ('?', line)
        fm = re.search(r'file: !(\d+)', txt)
        if fm and int(fm.group(1)) in mod.discopes:
            fn = re.search(r'filename: "([^"]*)"', mod.discopes[int(fm.group(1))][1])
            if fn: return (fn.group(1), line)
        m = re.search(r'scope: !(\d+)', txt)
        if not m: return ('?', line)
        sc = int(m.group(1))
    return ('?', line)
