"""Lazy parser for textual LLVM IR (opaque pointers, LLVM 17+ syntax)."""
import re, struct

# ---- types: ('i',n) ('f',32) ('f',64) ('ptr',) ('arr',n,t) ('vec',n,t) ('st',(ts),packed) ('void',) ...
VOID = ('void',); PTR = ('ptr',); F32 = ('f', 32); F64 = ('f', 64); META = ('meta',); LABEL = ('label',)
def I(n): return ('i', n)

class Unsupported(Exception):
    pass

_sz = {}
def size_align(t):
    r = _sz.get(t)
    if r is None:
        r = _size_align(t); _sz[t] = r
    return r
def _size_align(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        p = 1
        while p < n: p *= 2
        a = min(p, 16)
        return ((n + a - 1) // a * a, a)
    if k == 'f': return (t[1] // 8, t[1] // 8)
    if k == 'ptr': return (8, 8)
    if k == 'arr':
        s, a = size_align(t[2]); return (s * t[1], a)
    if k == 'vec':
        if t[2] == ('i', 1): 
            n = max(1, (t[1] + 7)//8); return (n, n)
        s, a = size_align(t[2]); n = s * t[1]; p = 1
        while p < n: p *= 2
        return (n, p)
    if k == 'st':
        off = 0; al = 1
        for e in t[1]:
            s, a = size_align(e)
            if t[2]: a = 1
            off = (off + a - 1) // a * a + s; al = max(al, a)
        return ((off + al - 1) // al * al, al)
    raise Unsupported('size of %r' % (t,))
def offset(t, i):
    if t[0] == 'st':
        off = 0
        for j, e in enumerate(t[1]):
            s, a = size_align(e)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off
            off += s
        raise Unsupported('gep index')
    return size_align(t[2])[0] * i

TOK = re.compile(r'''\s*(?:
   (c?"(?:[^"\\]|\\.)*") |
   ([%@]"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+) |
   (f0x[0-9A-Fa-f]+|0x[HKLMR]?[0-9A-Fa-f]+|[-+](?:inf|[qs]?nan(?:\(0x[0-9a-fA-F]+\))?)(?![a-zA-Z_])|-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|-?[0-9]+(?![a-zA-Z_])) |
   (![a-zA-Z0-9_.]*(?:\([^)]*\))?) |
   (\#[0-9]+) |
   ([a-zA-Z_$][a-zA-Z0-9_.$]*) |
   (\.\.\.|[\[\](){}<>,=*:|]) |
   (;.*|/\*.*?\*/)
 )''', re.X)
KSTR, KNAME, KNUM, KMETA, KATTR, KWORD, KPUNC, KCOM = range(8)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while True:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise Unsupported('token at: ' + s[i:i+80])
        k = m.lastindex - 1
        if k != KCOM: out.append((k, m.group(m.lastindex)))
        i = m.end()
        if i >= n: break
    return out

def unq(nm):
    nm = nm[1:]
    if nm.startswith('"'): nm = nm[1:-1]
    return nm

def cstr(s):
    s = s[2:-1] if s.startswith('c"') else s[1:-1]
    if '\\' not in s: return s.encode('latin1')
    return re.sub(rb'\\([0-9A-Fa-f]{2}|\\)', lambda m: b'\\' if m.group(1) == b'\\' else bytes([int(m.group(1), 16)]), s.encode('latin1'))

def f2b(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]
def b2f(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]
def d2b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def b2d(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]

def flt(v): return float('nan') if 'nan' in v else float(v)

BINC = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
FBIN = {'fadd','fsub','fmul','fdiv','frem'}
CASTS = {'zext','sext','trunc','ptrtoint','ptrtoaddr','inttoptr','bitcast','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','addrspacecast'}
FLAGS = {'nuw','nsw','exact','disjoint','nneg','samesign','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','inbounds','nusw'}
PARAM_ATTR_PAREN = {'dereferenceable','dereferenceable_or_null','range','captures','nofpclass','memory','align','sret','byval','initializes','allocsize','elementtype','dead_on_return','inalloca','byref','alignstack'}
VALSTART = {'true','false','null','undef','poison','zeroinitializer','getelementptr','splat','blockaddress','asm','none'} | BINC | CASTS

class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm', 'fn')
    def __init__(self, toks, mod, fn=None):
        self.t = toks; self.i = 0; self.m = mod; self.fn = fn
    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def eat(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        if not self.eat(s):
            raise Unsupported('expected %s at %s' % (s, ' '.join(x[1] for x in self.t[max(0,self.i-5):self.i+8])))
    def skip_paren(self):
        self.expect('('); d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
    def type(self):
        x = self.next()
        if x == 'ptr': t = PTR
        elif x == 'void': t = VOID
        elif x == 'float': t = F32
        elif x == 'double': t = F64
        elif x == 'metadata': t = META
        elif x == 'label': t = LABEL
        elif x[0] == 'i' and x[1:].isdigit(): t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); ts = self._types('}'); self.expect('>'); t = ('st', ts, True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        elif x == '{':
            t = ('st', self._types('}'), False)
        elif x[0] == '%':
            t = self.m.named_type(unq(x))
        else:
            raise Unsupported('type ' + x)
        if self.peek() == 'addrspace':
            self.next(); self.skip_paren()
        return t
    def _types(self, end):
        ts = []
        if self.eat(end): return ()
        while True:
            ts.append(self.type())
            if self.eat(end): return tuple(ts)
            self.expect(',')
    def skip_attrs(self):
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == KWORD and v not in VALSTART:
                self.i += 1
                if self.peek() == '(' : self.skip_paren()
                elif v == 'align' and self.kind() == KNUM: self.i += 1
            elif k == KATTR: self.i += 1
            elif k == KSTR and not v.startswith('c"'):
                self.i += 1
                if self.eat('='): self.i += 1
            else: return
    def operand(self, ty):
        """returns ('r',slot) or ('c',value)"""
        k, v = self.t[self.i]
        if k == KNAME and v[0] == '%':
            self.i += 1
            return ('r', self.fn.slot(v))
        return ('c', self.const(ty))
    def const(self, ty):
        k, v = self.t[self.i]; self.i += 1
        if k == KNAME:
            return self.m.addr_of(unq(v))
        if k == KNUM:
            if ty[0] == 'i':
                return int(v, 0) & ((1 << ty[1]) - 1)
            if ty == F64:
                if v.startswith('f0x'): return b2d(int(v[3:], 16))
                return b2d(int(v, 16)) if v.startswith('0x') else flt(v)
            if ty == F32:
                if v.startswith('f0x'): return b2f(int(v[3:], 16))
                return b2d(int(v, 16)) if v.startswith('0x') else flt(v)
            raise Unsupported('number of type %r' % (ty,))
        if k == KSTR: 
            return tuple(cstr(v))
        if v == 'true': return 1
        if v == 'false': return 0
        if v in ('null', 'none'): return 0
        if v in ('undef', 'poison', 'zeroinitializer'): return zero(ty)
        if v == 'splat':
            self.expect('('); t = self.type(); c = self.const(t); self.expect(')')
            return tuple([c] * ty[1])
        if v == '<':
            if self.peek() == '{':
                self.next(); r = self._consts('}'); self.expect('>'); return r
            return self._consts('>')
        if v == '{': return self._consts('}')
        if v == '[': return self._consts(']')
        if v == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                if self.next() == 'inrange': self.skip_paren()
            self.expect('('); st = self.type(); self.expect(','); self.type(); base = self.const(PTR)
            first = True; t = st
            while self.eat(','):
                self.eat('inrange'); it = self.type(); ix = sgn(self.const(it), it[1])
                if first: base += ix * size_align(st)[0]; first = False
                else:
                    base += offset(t, ix)
                    t = t[1][ix] if t[0] == 'st' else t[2]
            self.expect(')')
            return base & (2**64 - 1)
        if v in CASTS:
            self.expect('('); t = self.type(); c = self.const(t); self.expect('to'); t2 = self.type(); self.expect(')')
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr'):
                w = 64 if t2 == PTR else t2[1]
                return c & ((1 << w) - 1)
            if v == 'trunc': return c & ((1 << t2[1]) - 1)
            if v == 'zext': return c
            raise Unsupported('const ' + v)
        if v in BINC:
            while self.peek() in FLAGS: self.next()
            self.expect('('); t = self.type(); a = self.const(t); self.expect(','); t = self.type(); b = self.const(t); self.expect(')')
            m = (1 << t[1]) - 1
            if v == 'add': return (a + b) & m
            if v == 'sub': return (a - b) & m
            if v == 'xor': return a ^ b
            if v == 'mul': return a * b & m
            raise Unsupported('const ' + v)
        raise Unsupported('const ' + v)
    def _consts(self, end):
        r = []
        if self.eat(end): return ()
        while True:
            t = self.type(); r.append(self.const(t))
            if self.eat(end): return tuple(r)
            self.expect(',')

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def zero(t):
    k = t[0]
    if k in ('i', 'ptr'): return 0
    if k == 'f': return 0.0
    if k in ('arr', 'vec'): return tuple([zero(t[2])] * t[1])
    if k == 'st': return tuple(zero(x) for x in t[1])
    if k in ('meta', 'void'): return 0
    raise Unsupported('zero %r' % (t,))

class Global:
    __slots__ = ('name', 'ty', 'init', 'addr', 'size', 'const', 'tls', 'data')

class Function:
    def __init__(self, name):
        self.name = name
        self.slots = {}
        self.params = []
        self.blocks = []       # list of list of instr tuples
        self.labels = {}
        self.code = None
    def slot(self, nm):
        s = self.slots.get(nm)
        if s is None:
            s = len(self.slots); self.slots[nm] = s
        return s

class Module:
    GBASE = 0x10000000
    FBASE = 0x01000000
    def __init__(self, text):
        self.text = text
        self.fdefs = {}; self.fdecl = {}; self.gdefs = {}; self.types = {}; self.aliases = {}
        self.funcs = {}; self.globals = {}; self.faddr = {}; self.addrf = {}
        self.next_g = self.GBASE; self.next_f = self.FBASE
        self.gobjs = []       # Global objects in creation order
        self.on_global = None
        pos = 0
        for m in re.finditer(r'^(define|declare|@|%[^ ]+ = type)[^\n]*$', text, re.M):
            line = m.group(0)
            if line.startswith('define'):
                nm = self._fname(line)
                end = text.index('\n}', m.end())
                self.fdefs[nm] = (m.start(), end)
            elif line.startswith('declare'):
                self.fdecl[self._fname(line)] = line
            elif line[0] == '@':
                mm = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', line)
                nm = mm.group(1)
                if nm[0] == '"': nm = nm[1:-1]
                self.gdefs[nm] = mm.group(2)
            else:
                mm = re.match(r'%("?[^ "]+"?) = type (.*)$', line)
                self.types[mm.group(1).strip('"')] = mm.group(2)
    @staticmethod
    def _fname(line):
        mm = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', line)
        nm = mm.group(1)
        return nm[1:-1] if nm[0] == '"' else nm
    def named_type(self, n):
        return P(tokenize(self.types[n]), self).type()
    def addr_of(self, nm):
        if nm in self.gdefs: return self.get_global(nm).addr
        return self.func_addr(nm)
    def func_addr(self, nm):
        a = self.faddr.get(nm)
        if a is None:
            a = self.next_f; self.next_f += 16
            self.faddr[nm] = a; self.addrf[a] = nm
        return a
    def get_global(self, nm):
        g = self.globals.get(nm)
        if g: return g
        toks = tokenize(self.gdefs[nm])
        p = P(toks, self)
        tls = False; const = False; ext = False; alias = False
        while True:
            v = p.peek()
            if v == 'thread_local':
                tls = True; p.next()
                if p.peek() == '(': p.skip_paren()
            elif v in ('global', 'constant'):
                const = v == 'constant'; p.next(); break
            elif v == 'alias':
                p.next(); alias = True; break
            elif v == 'external' or v == 'extern_weak':
                ext = v; p.next()
            elif v == 'addrspace': p.next(); p.skip_paren()
            else: p.next()
        ty = p.type()
        g = Global(); g.name = nm; g.ty = ty; g.tls = tls; g.const = const
        if alias:
            p.expect(','); p.type()
            g.addr = p.const(PTR); self.globals[nm] = g; return g
        if ext == 'extern_weak':
            g.addr = 0; g.size = 0; g.data = None; self.globals[nm] = g; return g
        g.size = size_align(ty)[0]
        g.addr = self.next_g; self.next_g += (g.size // (1 << 20) + 1) << 20
        self.globals[nm] = g
        if ext:
            g.data = bytearray(g.size)
        else:
            init = p.const(ty)
            buf = bytearray(g.size); self._emit(buf, 0, ty, init); g.data = buf
        self.gobjs.append(g)
        if self.on_global: self.on_global(g)
        return g
    def _emit(self, buf, off, ty, v):
        k = ty[0]
        if k == 'i':
            n = size_align(ty)[0]; buf[off:off+n] = v.to_bytes(n, 'little')
        elif k == 'ptr': buf[off:off+8] = v.to_bytes(8, 'little')
        elif k == 'f':
            buf[off:off+ty[1]//8] = struct.pack('<f' if ty[1] == 32 else '<d', v)
        elif k in ('arr', 'vec'):
            if ty[2] == ('i', 8) : buf[off:off+ty[1]] = bytes(v)
            else:
                s = size_align(ty[2])[0]
                for i, e in enumerate(v): self._emit(buf, off + i * s, ty[2], e)
        elif k == 'st':
            for i, e in enumerate(v): self._emit(buf, off + offset(ty, i), ty[1][i], e)
        else: raise Unsupported('emit')

    # ---- functions
    def get_func(self, nm):
        f = self.funcs.get(nm)
        if f: return f
        s, e = self.fdefs[nm]
        f = Function(nm); self.funcs[nm] = f
        lines = self.text[s:e].split('\n')
        toks = tokenize(lines[0])
        p = P(toks, self, f)
        # find '@name' token then '('
        while not (p.kind() == KNAME and p.peek()[0] == '@' and p.t[p.i+1][1] == '('): p.next()
        p.next(); p.expect('(')
        if not p.eat(')'):
            while True:
                if p.eat('...'): p.expect(')'); break
                t = p.type(); p.skip_attrs()
                if p.kind() == KNAME: f.params.append((t, f.slot(p.next())))
                else: f.params.append((t, f.slot('%' + str(len(f.params)))))
                if p.eat(')'): break
                p.expect(',')
        # join continuation lines (switch, landingpad, invoke)
        stm = []; i = 1
        n = len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if not ln.strip(): continue
            if ln[0] != ' ':
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                if m: stm.append(('L', m.group(1).strip('"')))
                continue
            s_ = ln.lstrip()
            if s_.startswith('#dbg'): continue
            if s_.startswith('switch ') and not s_.rstrip().split(', !')[0].rstrip().endswith(']'):
                while True:
                    l2 = lines[i]; i += 1; s_ += ' ' + l2.strip()
                    if l2.strip().startswith(']'): break
            elif ' invoke ' in ' ' + s_ and i < n and lines[i].strip().startswith('to label'):
                s_ += ' ' + lines[i].strip(); i += 1
            elif ('landingpad' in s_):
                while i < n and (lines[i].strip().startswith('cleanup') or lines[i].strip().startswith('catch') or lines[i].strip().startswith('filter')): i += 1
            elif s_.startswith('indirectbr') : raise Unsupported('indirectbr')
            stm.append(('I', s_))
        if not stm or stm[0][0] != 'L':
            # implicit entry label = number of unnamed params
            stm.insert(0, ('L', '#entry'))
        cur = None
        for k, v in stm:
            if k == 'L':
                f.labels[v] = len(f.blocks); cur = []; f.blocks.append(cur)
            else: cur.append(v)
        # parse lazily per block
        f.raw = f.blocks
        f.blocks = [None] * len(f.raw)
        # numeric implicit entry label
        f.mod = self
        return f

    def block(self, f, bi):
        b = f.blocks[bi]
        if b is None:
            b = [self.parse_instr(f, s) for s in f.raw[bi]]
            f.blocks[bi] = b
        return b

    def label(self, f, nm):
        nm = unq(nm)
        r = f.labels.get(nm)
        if r is None:
            if '#entry' in f.labels: return f.labels['#entry']
            raise Unsupported('label ' + nm)
        return r

    def parse_instr(self, f, s):
        toks = tokenize(s)
        p = P(toks, self, f)
        dst = None
        if p.kind() == KNAME and p.t[1][1] == '=':
            dst = f.slot(p.next()); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in BINC or op in FBIN:
            while p.peek() in FLAGS: p.next()
            t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
            return (op, dst, t, a, b)
        if op in CASTS:
            while p.peek() in FLAGS: p.next()
            t = p.type(); a = p.operand(t); p.expect('to'); t2 = p.type()
            return ('cast', dst, op, t, a, t2)
        if op == 'fneg':
            while p.peek() in FLAGS: p.next()
            t = p.type(); return ('fneg', dst, t, p.operand(t))
        if op == 'freeze':
            t = p.type(); return ('freeze', dst, t, p.operand(t))
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            pr = p.next(); t = p.type(); a = p.operand(t); p.expect(','); b = p.operand(t)
            return (op, dst, pr, t, a, b)
        if op == 'select':
            while p.peek() in FLAGS: p.next()
            ct = p.type(); c = p.operand(ct); p.expect(','); t = p.type(); a = p.operand(t); p.expect(','); p.type(); b = p.operand(t)
            return ('select', dst, ct, c, t, a, b)
        if op == 'load':
            at = p.eat('atomic'); p.eat('volatile')
            t = p.type(); p.expect(','); p.type(); a = p.operand(PTR)
            return ('load', dst, t, a)
        if op == 'store':
            p.eat('atomic'); p.eat('volatile')
            t = p.type(); v = p.operand(t); p.expect(','); p.type(); a = p.operand(PTR)
            return ('store', None, t, v, a)
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type(); n = ('c', 1)
            if p.eat(',') :
                if p.peek() != 'align':
                    nt = p.type(); n = p.operand(nt)
            return ('alloca', dst, t, n)
        if op == 'getelementptr':
            while p.peek() in FLAGS or p.peek() == 'inrange':
                if p.next() == 'inrange': p.skip_paren()
            st = p.type(); p.expect(','); bt = p.type(); base = p.operand(bt)
            if bt[0] == 'vec': raise Unsupported('vector gep')
            idx = []
            while p.eat(','):
                if p.kind() == KMETA: break
                it = p.type(); idx.append((it, p.operand(it)))
            const = 0; var = []; t = st
            for j, (it, o) in enumerate(idx):
                if j == 0: sc = size_align(st)[0]
                elif t[0] == 'st':
                    ix = o[1]; const += offset(t, ix); t = t[1][ix]; continue
                else:
                    sc = size_align(t[2])[0]; t = t[2]
                if o[0] == 'c': const += sc * sgn(o[1], it[1])
                else: var.append((sc, it[1], o[1]))
            return ('gep', dst, base, const, tuple(var))
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return ('jmp', None, self.label(f, p.next()))
            t = p.type(); c = p.operand(t); p.expect(','); p.expect('label'); a = self.label(f, p.next())
            p.expect(','); p.expect('label'); b = self.label(f, p.next())
            return ('br', None, c, a, b)
        if op == 'switch':
            t = p.type(); v = p.operand(t); p.expect(','); p.expect('label'); d = self.label(f, p.next()); p.expect('[')
            cases = []
            while not p.eat(']'):
                t2 = p.type(); c = p.const(t2); p.expect(','); p.expect('label'); cases.append((c, self.label(f, p.next())))
            return ('switch', None, t, v, d, cases)
        if op == 'phi':
            while p.peek() in FLAGS: p.next()
            t = p.type(); inc = {}
            while True:
                p.expect('['); v = p.operand(t); p.expect(','); lb = p.next(); p.expect(']')
                inc[self.label(f, lb)] = v
                if not (p.eat(',') and p.peek() == '['): break
            return ('phi', dst, t, inc)
        if op == 'ret':
            t = p.type()
            if t == VOID: return ('ret', None, t, None)
            return ('ret', None, t, p.operand(t))
        if op == 'unreachable': return ('unreachable', None)
        if op in ('call', 'invoke'):
            # flags, cc, ret attrs
            while True:
                v = p.peek(); k = p.kind()
                if k == KWORD and v not in ('ptr','void','float','double','metadata','label') and not (v[0] == 'i' and v[1:].isdigit()):
                    p.next()
                    if p.peek() == '(' : p.skip_paren()
                    elif v == 'align': p.next()
                    elif v in ('cc',): p.next()
                else: break
            rt = p.type()
            if p.peek() == '(':   # function type
                p.skip_paren()
            if p.peek() == 'asm':
                p.next()
                while p.kind() == KWORD: p.next()
                tmpl = p.next(); p.expect(','); cons = p.next()
                callee = ('asm', tmpl, cons)
            elif p.kind() == KNAME and p.peek()[0] == '@':
                callee = ('g', unq(p.next()))
                if callee[1] in self.gdefs:
                    callee = ('p', ('c', self.addr_of(callee[1])))
            else:
                callee = ('p', p.operand(PTR))
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    if t == META:
                        d = 0
                        while True:
                            v = p.peek()
                            if d == 0 and v in (',', ')'): break
                            if v == '(': d += 1
                            if v == ')': d -= 1
                            p.next()
                        args.append((t, ('c', 0)))
                    else:
                        p.skip_attrs()
                        args.append((t, p.operand(t)))
                    if p.eat(')'): break
                    p.expect(',')
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next(); p.expect('label'); nl = self.label(f, p.next())
                return ('invoke', dst, rt, callee, args, nl)
            return ('call', dst, rt, callee, args)
        if op == 'extractvalue':
            t = p.type(); v = p.operand(t); ix = []
            while p.eat(','):
                if p.kind() == KMETA: break
                ix.append(int(p.next()))
            return ('extractvalue', dst, v, tuple(ix))
        if op == 'insertvalue':
            t = p.type(); v = p.operand(t); p.expect(','); t2 = p.type(); e = p.operand(t2); ix = []
            while p.eat(','):
                if p.kind() == KMETA: break
                ix.append(int(p.next()))
            return ('insertvalue', dst, v, e, tuple(ix))
        if op == 'extractelement':
            t = p.type(); v = p.operand(t); p.expect(','); t2 = p.type(); i = p.operand(t2)
            return ('extractelement', dst, v, i)
        if op == 'insertelement':
            t = p.type(); v = p.operand(t); p.expect(','); t2 = p.type(); e = p.operand(t2); p.expect(','); t3 = p.type(); i = p.operand(t3)
            return ('insertelement', dst, v, e, i)
        if op == 'shufflevector':
            t = p.type(); a = p.operand(t); p.expect(','); p.type(); b = p.operand(t); p.expect(','); mt = p.type(); m = p.const(mt)
            return ('shufflevector', dst, a, b, m, t)
        if op == 'atomicrmw':
            p.eat('volatile'); o = p.next(); p.type(); a = p.operand(PTR); p.expect(','); t = p.type(); v = p.operand(t)
            return ('atomicrmw', dst, o, t, a, v)
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile'); p.type(); a = p.operand(PTR); p.expect(','); t = p.type(); c = p.operand(t); p.expect(','); p.type(); n = p.operand(t)
            return ('cmpxchg', dst, t, a, c, n)
        if op == 'fence': return ('fence', None)
        if op in ('landingpad', 'resume', 'cleanuppad', 'catchswitch'):
            return ('bad', None, op)
        raise Unsupported('instr ' + s[:120])
