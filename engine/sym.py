"""Symbolic executor for LLVM IR (the compiled real code), forking on undecided branches."""
import struct, math, os, time, re
import llparse as L
import terms as T
from terms import Term, isT, F32, F64, mask
import realctx

RS = 20                                  # region size (bits): every object lives in its own 1 MiB aligned region(s)

class Fork(Exception):
    def __init__(self, alts): self.alts = alts      # list of (cond | None, {key: value})
class PathEnd(Exception):
    def __init__(self, kind, info=''): self.kind = kind; self.info = info
class Unsup(Exception):
    pass

class Obj:
    __slots__ = ('base', 'size', 'data', 'sym', 'tok')
    def __init__(self, base, size, data, sym, tok):
        self.base = base; self.size = size; self.data = data; self.sym = sym; self.tok = tok

class Frame:
    __slots__ = ('fn', 'R', 'bi', 'si', 'ip', 'segs', 'allocas', 'dst')
    def copy(self):
        f = Frame(); f.fn = self.fn; f.R = self.R[:]; f.bi = self.bi; f.si = self.si; f.ip = self.ip
        f.segs = self.segs; f.allocas = self.allocas[:]; f.dst = self.dst
        return f

class State:
    __slots__ = ('frames', 'mem', 'tok', 'pc', 'known', 'nextr', 'inputs', 'obs', 'steps', 'harness', 'nch', 'cover', 'tainted', 'choices', 'ext')
    def fork(self):
        s = State(); s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.tok = object(); self.tok = object()
        s.pc = self.pc[:]; s.known = dict(self.known); s.nextr = self.nextr; s.inputs = self.inputs[:]; s.obs = self.obs[:]
        s.steps = self.steps; s.harness = self.harness; s.nch = self.nch; s.cover = set(self.cover); s.tainted = self.tainted
        s.choices = self.choices[:]; s.ext = dict(self.ext)
        return s

M64 = (1 << 64) - 1
def sortof(ty):
    k = ty[0]
    if k == 'i': return ty[1]
    if k == 'ptr': return 64
    if k == 'f': return -ty[1]
    raise Unsup('sort %r' % (ty,))

PANIC = re.compile(r'core9panicking|unwrap_failed|expect_failed|slice_(start|end|index)\w*_fail|slice5index\w*fail|raw_vec12handle_error|raw_vec17capacity_overflow|capacity_overflow|handle_alloc_error|rust_begin_unwind|begin_panic|panic_fmt|panic_bounds|alloc_error|str16slice_error_fail|panicking|assert_failed|_fail\b|option13expect|len_mismatch|_Unwind_Resume|process5abort|intrinsics5abort')

class Executor:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.stats = realctx.Stats()
        self.fresh_ctx()
        self.gmem = {}
        mod.on_global = self.new_global
        for g in mod.gobjs: self.new_global(g)
        self.compiled = {}
        self.st = None
        self.mem = None
        self.funcs_seen = {}
        self.maxsteps = self.opts.get('maxsteps', 20_000_000)
        self.results = None
        self.forksel = self.forktab = False
        self.intr = {}
        self.user = {}
        import intrin
        intrin.install(self)

    # ------------------------------------------------------------------ memory
    def late(self): return False
    def fresh_ctx(self): self.ctx = realctx.Ctx(self.stats, self.opts.get('timeout', 8000))
    def new_global(self, g):
        if g.data is None: return
        o = Obj(g.addr, g.size, g.data, None, None)
        for k in range(g.addr >> RS, (g.addr + max(g.size, 1) - 1 >> RS) + 1): self.gmem[k] = o
    def alloc(self, size, zero=True):
        st = self.st
        if size > (1 << 28): raise Unsup('huge allocation %d' % size)
        base = st.nextr << RS
        n = (size >> RS) + 1
        st.nextr += n
        o = Obj(base, size, bytearray(size), None, st.tok)
        k = base >> RS
        st.mem[k] = o
        for i in range(1, n): st.mem[k + i] = o
        return base
    def free(self, addr):
        o = self.obj(addr)
        if o.base != addr: raise PathEnd('memfault', 'free of interior pointer')
        for k in range(o.base >> RS, (o.base + o.size >> RS) + 1): self.mem.pop(k, None)
    def obj(self, addr):
        o = self.mem.get(addr >> RS)
        if o is None:
            o = self.gmem.get(addr >> RS)
            if o is None: raise PathEnd('memfault', 'access to invalid address %#x' % addr)
        return o
    def wobj(self, addr):
        o = self.mem.get(addr >> RS)
        tok = self.st.tok
        if o is not None and o.tok is tok: return o
        if o is None:
            o = self.gmem.get(addr >> RS)
            if o is None: raise PathEnd('memfault', 'store to invalid address %#x' % addr)
        o = Obj(o.base, o.size, bytearray(o.data), dict(o.sym) if o.sym else None, tok)
        for k in range(o.base >> RS, (o.base + max(o.size, 1) - 1 >> RS) + 1): self.mem[k] = o
        return o
    def bounds(self, o, off, n):
        if off < 0 or off + n > o.size: raise PathEnd('memfault', 'out-of-bounds access: offset %d size %d of object size %d' % (off, n, o.size))

    def load_sym(self, o, off, n, sort):
        """load n bytes with some symbolic bytes"""
        S = o.sym
        e = S.get(off)
        if e is not None and e[1] == 0:
            t = e[0]; tw = abs(t.s); tn = (tw + 7) // 8
            if tn == n:
                ok = True
                for i in range(1, n):
                    x = S.get(off + i)
                    if x is None or x[0] is not t or x[1] != i: ok = False; break
                if ok: return conv(t, sort)
        parts = []; anys = False
        for i in range(n):
            x = S.get(off + i)
            if x is None: parts.append((o.data[off + i], 8))
            else:
                anys = True
                t, k = x
                w = abs(t.s)
                b = T.tobits(t.s, t) if t.s < 0 else t
                rem = w - 8 * k
                if rem >= 8: parts.append((T.ext(b, w, 8 * k, 8), 8))
                else:
                    parts.append((T.ext(b, w, 8 * k, rem), rem)); parts.append((0, 8 - rem))
        v = T.cat(parts)
        w = 8 * n
        if sort < 0:
            return T.frombits(sort, v)
        if sort < w: v = T.ext(v, w, 0, sort)
        return v
    def store_sym(self, o, off, n, t):
        S = o.sym
        if S is None: S = o.sym = {}
        for i in range(n): S[off + i] = (t, i)

    def caddr(self, a):
        """concretise a symbolic address"""
        return self.concretize(a, 64, 64)

    def mk_load(self, ty):
        k = ty[0]; E = self
        if k in ('i', 'ptr'):
            w = 64 if k == 'ptr' else ty[1]; n = (w + 7) // 8
            if n not in (1, 2, 4, 8, 16): n2 = n
            msk = mask(w); full = w == 8 * n
            def ld(a):
                if type(a) is not int: 
                    r = E.load_symaddr(a, ty, n, w)
                    if r is not None: return r
                    a = E.caddr(a)
                o = E.mem.get(a >> RS)
                if o is None: o = E.obj(a)
                off = a - o.base
                if off + n > o.size: E.bounds(o, off, n)
                if o.sym:
                    S = o.sym
                    for i in range(off, off + n):
                        if i in S: return E.load_sym(o, off, n, w)
                v = int.from_bytes(o.data[off:off + n], 'little')
                return v if full else v & msk
            return ld
        if k == 'f':
            n = ty[1] // 8; s = -ty[1]; fmt = struct.Struct('<f' if n == 4 else '<d').unpack_from
            def ld(a):
                if type(a) is not int:
                    r = E.load_symaddr(a, ty, n, s)
                    if r is not None: return r
                    a = E.caddr(a)
                o = E.mem.get(a >> RS)
                if o is None: o = E.obj(a)
                off = a - o.base
                if off + n > o.size: E.bounds(o, off, n)
                if o.sym:
                    S = o.sym
                    for i in range(off, off + n):
                        if i in S: return E.load_sym(o, off, n, s)
                return fmt(o.data, off)[0]
            return ld
        if k in ('arr', 'vec'):
            el = E.mk_load(ty[2]); sz = L.size_align(ty[2])[0]; cnt = ty[1]
            if k == 'vec' and ty[2] == ('i', 1):
                li = E.mk_load(('i', cnt))
                return lambda a: bits_to_vec(li(a), cnt)
            def ld(a):
                if type(a) is not int: a = E.caddr(a)
                return tuple([el(a + i * sz) for i in range(cnt)])
            return ld
        if k == 'st':
            els = [(L.offset(ty, i), E.mk_load(e)) for i, e in enumerate(ty[1])]
            def ld(a):
                if type(a) is not int: a = E.caddr(a)
                return tuple([f(a + o) for o, f in els])
            return ld
        raise Unsup('load %r' % (ty,))

    def mk_store(self, ty):
        k = ty[0]; E = self
        if k in ('i', 'ptr', 'f'):
            if k == 'f': n = ty[1] // 8; s = -ty[1]; pk = struct.Struct('<f' if n == 4 else '<d').pack_into
            else: n = 8 if k == 'ptr' else (ty[1] + 7) // 8
            isf = k == 'f'; w = 64 if k == 'ptr' else ty[1]
            def stf(a, v):
                if type(a) is not int: a = E.caddr(a)
                o = E.mem.get(a >> RS)
                if o is None or o.tok is not E.st.tok: o = E.wobj(a)
                off = a - o.base
                if off + n > o.size: E.bounds(o, off, n)
                if type(v) is Term:
                    if not isf and w != 8 * n: v = T.zext(v, w, 8 * n)
                    if type(v) is Term:
                        E.store_sym(o, off, n, v); return
                if o.sym:
                    S = o.sym
                    for i in range(off, off + n): S.pop(i, None)
                if isf: pk(o.data, off, v)
                else: o.data[off:off + n] = v.to_bytes(n, 'little')
            return stf
        if k in ('arr', 'vec'):
            el = E.mk_store(ty[2]); sz = L.size_align(ty[2])[0]
            if k == 'vec' and ty[2] == ('i', 1):
                si = E.mk_store(('i', ty[1]))
                return lambda a, v: si(a, vec_to_bits(v))
            def stf(a, v):
                if type(a) is not int: a = E.caddr(a)
                for i, x in enumerate(v): el(a + i * sz, x)
            return stf
        if k == 'st':
            els = [(L.offset(ty, i), E.mk_store(e)) for i, e in enumerate(ty[1])]
            def stf(a, v):
                if type(a) is not int: a = E.caddr(a)
                for (o, f), x in zip(els, v): f(a + o, x)
            return stf
        raise Unsup('store %r' % (ty,))

    def load_symaddr(self, a, ty, n, sort):
        """load through base + scale*idx with concrete contents: one 'table' term; None -> enumerate"""
        if a.id in self.st.known or ('v', a.id) in self.st.known: return None
        if a.op == 'ite': return None
        base, c = T.linterm(a, 64)
        scale = 1; idx = base
        if isT(base) and base.op == 'mul' and not isT(base.args[1]): idx, scale = base.args[0], base.args[1]
        elif isT(base) and base.op == 'cat' and base.args[0] == 0 and not isT(base.args[0]):
            # shifted index
            sh = base.p[0]; scale = 1 << sh
            idx = T.binop('lshr', 64, base, sh)
        if not isT(idx) or scale % n and n % scale: return None
        # strip the zero extension
        k = self.mem.get(c >> RS) or self.gmem.get(c >> RS)
        if k is None or scale >= 1 << 20: return None
        lo = -((c - k.base) // scale); hi = (k.base + k.size - n - c) // scale
        s0, s1 = T.srange(idx, 64)
        nl, nh = max(lo, s0), min(hi, s1)
        if nl > nh: return None
        if nh - nl > 20000: return None
        if s0 < nl or s1 > nh:
            bad = T.bor(T.icmp('slt', 64, idx, nl & M64), T.icmp('sgt', 64, idx, nh & M64))
            if self.feasible(bad):
                raise PathEnd('memfault', 'symbolic out-of-bounds access')
            # tighten with the path condition
            if nh - nl > 40: nl, nh = self.ctx_bounds(idx, nl, nh)
        if self.forktab and nh > nl: nl, nh = self.ctx_bounds(idx, nl, nh)
        if nh - nl + 1 <= 1: return None
        if self.forktab: raise Fork([(T.icmp('eq', 64, idx, v & M64), {('v', a.id): (c + v * scale) & M64}) for v in range(nl, nh + 1)])
        ld = self.mk_load_cached(ty)
        es = []
        for i in range(nl, nh + 1):
            v = ld(c + i * scale)
            if isT(v) or isinstance(v, tuple): return None
            es.append(v)
        if nl < 0: return None
        iw = 64
        if idx.op == 'cat' and len(idx.args) == 2 and not isT(idx.args[1]) and idx.args[1] == 0 and isT(idx.args[0]):
            idx = idx.args[0]
        return T.table(sort, idx, nl, es)
    def ctx_bounds(self, idx, lo, hi):
        self.ctx.sync(self.st.pc)
        return self.ctx.intbounds(idx, lo, hi)
    _ldc = None
    def mk_load_cached(self, ty):
        if self._ldc is None: self._ldc = {}
        f = self._ldc.get(ty)
        if f is None: f = self._ldc[ty] = self.mk_load(ty)
        return f
    def mk_store_cached(self, ty):
        if not hasattr(self, '_stc'): self._stc = {}
        f = self._stc.get(ty)
        if f is None: f = self._stc[ty] = self.mk_store(ty)
        return f
    def read_bytes(self, a, n):
        o = self.obj(a); off = a - o.base; self.bounds(o, off, n)
        if o.sym:
            for i in range(off, off + n):
                if i in o.sym: raise Unsup('symbolic bytes')
        return bytes(o.data[off:off + n])
    def write_bytes(self, a, b):
        if not b: return
        o = self.wobj(a); off = a - o.base; self.bounds(o, off, len(b))
        if o.sym:
            for i in range(off, off + len(b)): o.sym.pop(i, None)
        o.data[off:off + len(b)] = b
    def memcpy(self, d, s, n):
        if n == 0: return
        so = self.obj(s); soff = s - so.base; self.bounds(so, soff, n)
        syms = None
        if so.sym:
            S = so.sym
            if n < len(S): syms = [(i, S[soff + i]) for i in range(n) if soff + i in S]
            else: syms = [(i - soff, x) for i, x in S.items() if soff <= i < soff + n]
        data = bytes(so.data[soff:soff + n])
        do = self.wobj(d); doff = d - do.base; self.bounds(do, doff, n)
        do.data[doff:doff + n] = data
        if do.sym:
            D = do.sym
            if n < len(D):
                for i in range(doff, doff + n): D.pop(i, None)
            else:
                for i in [i for i in D if doff <= i < doff + n]: del D[i]
        if syms:
            if do.sym is None: do.sym = {}
            for i, x in syms: do.sym[doff + i] = x
    def memset(self, d, v, n):
        if n == 0: return
        do = self.wobj(d); doff = d - do.base; self.bounds(do, doff, n)
        if isT(v):
            for i in range(n): self.store_sym(do, doff + i, 1, v)
            return
        do.data[doff:doff + n] = bytes([v]) * n
        if do.sym:
            for i in range(doff, doff + n): do.sym.pop(i, None)

    # ------------------------------------------------------------------ decisions
    def feasible(self, cond):
        if not isT(cond): return bool(cond)
        self.ctx.sync(self.st.pc)
        return self.ctx.feasible(cond)
    def decide(self, c):
        if type(c) is not Term: return c
        k = self.st.known.get(c.id)
        if k is not None: return k
        n = T.bnot(c)
        if isT(n):
            k = self.st.known.get(n.id)
            if k is not None: return 1 - k
        self.ctx.sync(self.st.pc)
        ft = self.ctx.feasible(c); ff = self.ctx.feasible(n)
        if ft and ff: raise Fork([(c, {c.id: 1}), (n, {c.id: 0})])
        if not ft and not ff: raise PathEnd('infeasible')
        v = 1 if ft else 0
        self.st.known[c.id] = v
        return v
    def concretize(self, t, w, limit):
        if type(t) is int: return t
        k = self.st.known.get(('v', t.id))
        if k is not None: return k
        if t.op == 'ite':
            c = self.decide(t.args[0])
            return self.concretize(t.args[1] if c else t.args[2], w, limit)
        if w == 1: return self.decide(t)
        self.ctx.sync(self.st.pc)
        vals = self.ctx.enum(t, w, limit)
        if vals is None: raise Unsup('symbolic value with too many cases: %s' % T.show(t, 4))
        if not vals: raise PathEnd('infeasible')
        if len(vals) == 1:
            self.st.known['v', t.id] = vals[0]; return vals[0]
        raise Fork([(T.icmp('eq', w, t, v), {('v', t.id): v}) for v in vals])

    # ------------------------------------------------------------------ compilation of instructions
    def opnd(self, o, ty=None):
        """returns (is_const, value_or_slot)"""
        return (o[0] == 'c', o[1])
    def getter(self, o):
        if o[0] == 'c':
            v = o[1]; return lambda R: v
        s = o[1]; return lambda R: R[s]

    def compile_fn(self, name):
        f = self.compiled.get(name)
        if f is not None: return f
        f = self.mod.get_func(name)
        f.cblocks = [None] * len(f.raw)
        self.compiled[name] = f
        return f
    def cblock(self, f, bi):
        b = f.cblocks[bi]
        if b is not None: return b
        ins = self.mod.block(f, bi)
        segs = []; body = []
        f.cblocks[bi] = segs
        for it in ins:
            op = it[0]
            if op == 'phi': continue
            if op in ('jmp', 'br', 'switch', 'ret', 'unreachable', 'call', 'invoke', 'bad'):
                if op == 'call' and it[3][0] == 'g' and it[3][1].startswith('llvm.') and it[3][1].split('.')[1] in ('lifetime', 'assume', 'dbg', 'experimental', 'donothing', 'sideeffect'):
                    continue
                if op == 'call' and it[3][0] == 'g' and it[3][1] in self.pure_intr():
                    body.append((len(body), self.c_pure(it))); continue
                try: e = getattr(self, 'e_' + op)(f, bi, it)
                except (Unsup, L.Unsupported) as x: e = self.e_unsup(str(x))
                segs.append((body, e)); body = []
            else:
                try: c = self.cinstr(it)
                except (Unsup, L.Unsupported, AttributeError) as x: c = self.c_unsup('%s: %s' % (op, x))
                body.append((len(body), c))
        return segs
    def c_unsup(self, msg):
        def f(R): raise Unsup(msg)
        return f
    def e_unsup(self, msg):
        def f(fr, R): raise Unsup(msg)
        return f

    def pure_intr(self): return self.pures_names
    def c_pure(self, it):
        _, dst, rt, callee, args = it
        fn = self.pure(callee[1], rt, [a[0] for a in args])
        gs = [self.getter(a[1]) for a in args]
        if len(gs) == 1:
            g0 = gs[0]
            def f(R): R[dst] = fn(g0(R))
        elif len(gs) == 2:
            g0, g1 = gs
            def f(R): R[dst] = fn(g0(R), g1(R))
        else:
            def f(R): R[dst] = fn(*[g(R) for g in gs])
        return f

    def cinstr(self, it):
        return getattr(self, 'i_' + it[0] if it[0] not in L.BINC and it[0] not in L.FBIN else 'i_binop')(it)

    def split_frem(self, s, x, y):
        """x % y by cases of the quotient k: on this path the remainder is x - k*y, exactly"""
        r = T.frng(x)
        if type(y) is not float or not 0 < y < 1e6 or y != int(y) or r is None or r[1] / y > 12 or r[0] < 0 and self.decide(T.fcmp('olt', s, x, 0.0)): return T.fop('frem', s, x, y)
        k = 0
        while r[1] >= (k + 1) * y and self.decide(T.fcmp('oge', s, x, float((k + 1) * y))): k += 1
        return T.mk('fremk', s, (x,), (y, k)) if k else x
    def i_binop(self, it):
        op, dst, ty, a, b = it
        ga, gb = self.getter(a), self.getter(b)
        if ty[0] == 'vec':
            f1 = self.scalar_bin(op, ty[2])
            def f(R): R[dst] = tuple([f1(x, y) for x, y in zip(ga(R), gb(R))])
            return f
        if ty[0] == 'f':
            s = -ty[1]
            cf = T.FOPS[op]; fop = T.fop
            if op in ('fadd', 'fsub', 'fmul') and s == F64:
                import operator
                pf = {'fadd': operator.add, 'fsub': operator.sub, 'fmul': operator.mul}[op]
                def f(R):
                    x = ga(R); y = gb(R)
                    if type(x) is float and type(y) is float: R[dst] = pf(x, y)
                    else: R[dst] = fop(op, s, x, y)
                return f
            E = self
            def f(R):
                x = ga(R); y = gb(R)
                if type(x) is float and type(y) is float:
                    R[dst] = cf(s, x, y)
                elif op == 'frem' and E.forksel: R[dst] = E.split_frem(s, x, y)
                else: R[dst] = fop(op, s, x, y)
            return f
        w = sortof(ty); m = mask(w); ci = T.IOPS[op]; bo = T.binop
        if op == 'add' or op == 'sub':
            if b[0] == 'c' and a[0] == 'r':
                k = b[1] if op == 'add' else -b[1]; s0 = a[1]; kb = b[1]
                def f(R):
                    x = R[s0]
                    R[dst] = (x + k) & m if type(x) is int else bo(op, w, x, kb)
                return f
            sg = 1 if op == 'add' else -1
            def f(R):
                x = ga(R); y = gb(R)
                if type(x) is int and type(y) is int: R[dst] = (x + sg * y) & m
                else: R[dst] = bo(op, w, x, y)
            return f
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            E = self
            def f(R):
                x = ga(R); y = gb(R)
                if type(y) is int:
                    if y == 0: raise PathEnd('panic', 'division by zero reached')
                elif E.feasible(T.icmp('eq', w, y, 0)):
                    raise Unsup('possible division by zero')
                R[dst] = ci(w, x, y) if type(x) is int and type(y) is int else bo(op, w, x, y)
            return f
        def f(R):
            x = ga(R); y = gb(R)
            R[dst] = ci(w, x, y) if type(x) is int and type(y) is int else bo(op, w, x, y)
        return f
    def scalar_bin(self, op, ty):
        if ty[0] == 'f':
            s = -ty[1]; return lambda x, y: T.fop(op, s, x, y)
        w = sortof(ty); return lambda x, y: T.binop(op, w, x, y)

    def i_cast(self, it):
        _, dst, op, t, a, t2 = it
        ga = self.getter(a)
        if t[0] == 'vec' and t2[0] == 'vec' and (op != 'bitcast' or t[1] == t2[1]):
            f1 = self.scalar_cast(op, t[2], t2[2])
            def f(R): R[dst] = tuple([f1(x) for x in ga(R)])
            return f
        f1 = self.scalar_cast(op, t, t2)
        if op == 'trunc' and t2[0] == 'i':
            m = mask(t2[1])
            def f(R):
                x = ga(R); R[dst] = x & m if type(x) is int else f1(x)
            return f
        if op in ('zext', 'ptrtoint', 'inttoptr') and sortof(t2) >= sortof(t):
            def f(R):
                x = ga(R); R[dst] = x if type(x) is int else f1(x)
            return f
        def f(R): R[dst] = f1(ga(R))
        return f
    def scalar_cast(self, op, t, t2):
        if op == 'bitcast' and (t[0] == 'vec' or t2[0] == 'vec'):
            def bc(v):
                # flatten to bits
                if t[0] == 'vec':
                    et = t[2]; w = abs(sortof(et))
                    parts = [(T.tobits(sortof(et), x) if et[0] == 'f' else x, w) for x in v]
                else:
                    w = abs(sortof(t)); parts = [(T.tobits(sortof(t), v) if t[0] == 'f' else v, w)]
                tot = sum(p[1] for p in parts)
                if all(type(p[0]) is int for p in parts):
                    x = off = 0
                    for p, pw in parts: x |= p << off; off += pw
                else: x = T.cat(parts)
                if t2[0] == 'vec':
                    et = t2[2]; s = sortof(et); w = abs(s)
                    out = []
                    for i in range(t2[1]):
                        e = T.ext(x, tot, i * w, w)
                        out.append(T.frombits(s, e) if s < 0 else e)
                    return tuple(out)
                s = sortof(t2)
                return T.frombits(s, x) if s < 0 else x
            return bc
        s, s2 = sortof(t), sortof(t2)
        if op == 'zext': return lambda x: T.zext(x, s, s2)
        if op == 'sext':
            def sx(x):
                if s == 1 and isT(x): return T.ite(s2, x, mask(s2), 0)
                return T.sext(x, s, s2)
            return sx
        if op == 'trunc': 
            return lambda x: T.ext(x, s, 0, s2) if isT(x) else x & mask(s2)
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            if s2 < s: return lambda x: T.ext(x, s, 0, s2)
            return lambda x: T.zext(x, s, s2)
        if op == 'bitcast':
            if s == s2: return lambda x: x
            if s < 0: return lambda x: T.tobits(s, x)
            return lambda x: T.frombits(s2, x)
        if op == 'fpext': return T.fpext
        if op == 'fptrunc': return T.fptrunc
        if op == 'sitofp': return lambda x: T.itofp(s2, True, s, x)
        if op == 'uitofp': return lambda x: T.itofp(s2, False, s, x)
        if op == 'fptosi': return lambda x: T.fptoi(s2, True, x)
        if op == 'fptoui': return lambda x: T.fptoi(s2, False, x)
        raise Unsup('cast ' + op)
    def i_fneg(self, it):
        _, dst, ty, a = it; ga = self.getter(a)
        if ty[0] == 'vec':
            s = sortof(ty[2])
            def f(R): R[dst] = tuple([T.fop('fneg', s, x) for x in ga(R)])
            return f
        s = sortof(ty)
        def f(R): R[dst] = T.fop('fneg', s, ga(R))
        return f
    def i_freeze(self, it):
        _, dst, ty, a = it; ga = self.getter(a)
        def f(R): R[dst] = ga(R)
        return f
    def i_fence(self, it): return lambda R: None
    def i_icmp(self, it):
        _, dst, pr, ty, a, b = it; ga, gb = self.getter(a), self.getter(b)
        if ty[0] == 'vec':
            w = sortof(ty[2])
            def f(R): R[dst] = tuple([T.icmp(pr, w, x, y) for x, y in zip(ga(R), gb(R))])
            return f
        w = sortof(ty); ci = T.c_icmp; ic = T.icmp
        if pr in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
            import operator
            o = {'eq': operator.eq, 'ne': operator.ne, 'ult': operator.lt, 'ule': operator.le, 'ugt': operator.gt, 'uge': operator.ge}[pr]
            def f(R):
                x = ga(R); y = gb(R)
                R[dst] = 1 if type(x) is int and type(y) is int and o(x, y) else (0 if type(x) is int and type(y) is int else ic(pr, w, x, y))
            return f
        def f(R): R[dst] = ic(pr, w, ga(R), gb(R))
        return f
    def i_fcmp(self, it):
        _, dst, pr, ty, a, b = it; ga, gb = self.getter(a), self.getter(b)
        if ty[0] == 'vec':
            s = sortof(ty[2])
            def f(R): R[dst] = tuple([T.fcmp(pr, s, x, y) for x, y in zip(ga(R), gb(R))])
            return f
        s = sortof(ty)
        def f(R): R[dst] = T.fcmp(pr, s, ga(R), gb(R))
        return f
    def i_select(self, it):
        _, dst, ct, c, ty, a, b = it
        gc, ga, gb = self.getter(c), self.getter(a), self.getter(b)
        E = self
        if ct[0] == 'vec':
            s = sortof(ty[2])
            def f(R): R[dst] = tuple([T.ite(s, k, x, y) for k, x, y in zip(gc(R), ga(R), gb(R))])
            return f
        if ty[0] in ('i', 'f'):
            s = sortof(ty)
            def f(R):
                k = gc(R)
                if type(k) is int: R[dst] = ga(R) if k else gb(R)
                else:
                    x = ga(R); y = gb(R)
                    kn = E.st.known.get(k.id)
                    if kn is not None: R[dst] = x if kn else y; return
                    if E.forksel and s != 1: R[dst] = x if E.decide(k) else y; return
                    R[dst] = T.ite(s, k, x, y)
            return f
        def f(R):
            k = gc(R)
            if type(k) is not int: k = E.decide(k)
            R[dst] = ga(R) if k else gb(R)
        return f
    def i_load(self, it):
        _, dst, ty, a = it
        ga = self.getter(a); ld = self.mk_load_cached(ty)
        def f(R): R[dst] = ld(ga(R))
        return f
    def i_store(self, it):
        _, _, ty, v, a = it
        ga, gv = self.getter(a), self.getter(v); stf = self.mk_store_cached(ty)
        def f(R): stf(ga(R), gv(R))
        return f
    def i_alloca(self, it):
        _, dst, ty, n = it
        sz = L.size_align(ty)[0]; gn = self.getter(n); E = self
        def f(R):
            k = gn(R)
            a = E.alloc(sz * k)
            E.fr.allocas.append(a); R[dst] = a
        return f
    def i_gep(self, it):
        _, dst, base, const, var = it
        gb = self.getter(base)
        if not var:
            def f(R):
                b = gb(R)
                R[dst] = (b + const) & M64 if type(b) is int else T.binop('add', 64, b, const & M64)
            return f
        if len(var) == 1:
            sc, w, sl = var[0]
            h = 1 << (w - 1); W = 1 << w
            def f(R):
                b = gb(R); x = R[sl]
                if type(b) is int and type(x) is int:
                    if x >= h: x -= W
                    R[dst] = (b + const + sc * x) & M64
                else: R[dst] = symgep(b, const, [(sc, w, x)])
            return f
        def f(R):
            R[dst] = symgep(gb(R), const, [(sc, w, R[sl]) for sc, w, sl in var])
        return f
    def i_extractvalue(self, it):
        _, dst, v, ix = it; g = self.getter(v)
        def f(R):
            x = g(R)
            for i in ix: x = x[i]
            R[dst] = x
        return f
    def i_insertvalue(self, it):
        _, dst, v, e, ix = it; g, ge = self.getter(v), self.getter(e)
        def ins(x, i, y):
            l = list(x)
            l[ix[i]] = y if i == len(ix) - 1 else ins(x[ix[i]], i + 1, y)
            return tuple(l)
        def f(R): R[dst] = ins(g(R), 0, ge(R))
        return f
    def i_extractelement(self, it):
        _, dst, v, i = it; g, gi = self.getter(v), self.getter(i); E = self
        def f(R):
            k = gi(R)
            if type(k) is not int: k = E.concretize(k, k.s, 64)
            R[dst] = g(R)[k]
        return f
    def i_insertelement(self, it):
        _, dst, v, e, i = it; g, ge, gi = self.getter(v), self.getter(e), self.getter(i); E = self
        def f(R):
            k = gi(R)
            if type(k) is not int: k = E.concretize(k, k.s, 64)
            l = list(g(R)); l[k] = ge(R); R[dst] = tuple(l)
        return f
    def i_shufflevector(self, it):
        _, dst, a, b, m, ty = it; ga, gb = self.getter(a), self.getter(b)
        def f(R):
            x = tuple(ga(R)) + tuple(gb(R)); R[dst] = tuple([x[i] for i in m])
        return f
    def i_atomicrmw(self, it):
        _, dst, o, ty, a, v = it
        ga, gv = self.getter(a), self.getter(v); ld, stf = self.mk_load_cached(ty), self.mk_store_cached(ty); w = sortof(ty)
        def f(R):
            p = ga(R); x = ld(p); y = gv(R)
            if o == 'xchg': n = y
            elif o in ('add', 'sub', 'and', 'or', 'xor'): n = T.binop(o, w, x, y)
            elif o in ('umax', 'umin', 'max', 'min'):
                pr = {'umax': 'ugt', 'umin': 'ult', 'max': 'sgt', 'min': 'slt'}[o]; n = T.ite(w, T.icmp(pr, w, x, y), x, y)
            else: raise Unsup('atomicrmw ' + o)
            stf(p, n)
            R[dst] = x
        return f
    def i_cmpxchg(self, it):
        _, dst, ty, a, c, n = it
        ga, gc, gn = self.getter(a), self.getter(c), self.getter(n); ld, stf = self.mk_load_cached(ty), self.mk_store_cached(ty); w = sortof(ty)
        E = self
        def f(R):
            p = ga(R); x = ld(p); e = E.decide(T.icmp('eq', w, x, gc(R)))
            if e: stf(p, gn(R))
            R[dst] = (x, e)
        return f

    # ---- enders
    def phis(self, f, frm, to):
        ins = self.mod.block(f, to)
        mv = []
        for it in ins:
            if it[0] != 'phi': break
            mv.append((it[1], it[3][frm]))
        return mv
    def jumper(self, f, frm, to):
        mv = None; segs = None
        E = self
        state = []
        def go(fr, R):
            if not state:
                mv = E.phis(f, frm, to); segs = E.cblock(f, to)
                state.append(([(d, o[0] == 'c', o[1]) for d, o in mv], segs))
            mv, segs = state[0]
            if mv:
                if len(mv) == 1:
                    d, k, v = mv[0]; R[d] = v if k else R[v]
                else:
                    vals = [v if k else R[v] for d, k, v in mv]
                    for (d, k, v), x in zip(mv, vals): R[d] = x
            fr.bi = to; fr.segs = segs; fr.si = 0; fr.ip = 0
        return go
    def e_jmp(self, f, bi, it): return self.jumper(f, bi, it[2])
    def e_br(self, f, bi, it):
        c = self.getter(it[2]); ja, jb = self.jumper(f, bi, it[3]), self.jumper(f, bi, it[4]); E = self
        def go(fr, R):
            k = c(R)
            if type(k) is not int: k = E.decide(k)
            (ja if k else jb)(fr, R)
        return go
    def e_switch(self, f, bi, it):
        _, _, ty, v, d, cases = it
        g = self.getter(v); w = sortof(ty); E = self
        js = {}
        for c, b in cases: js.setdefault(b, self.jumper(f, bi, b))
        jd = self.jumper(f, bi, d); cd = {c: js[b] for c, b in cases}
        def go(fr, R):
            k = g(R)
            if type(k) is int:
                cd.get(k, jd)(fr, R); return
            kn = E.st.known.get(('v', k.id))
            if kn is not None:
                cd.get(kn, jd)(fr, R); return
            sw = E.st.known.get(('sw', k.id, id(cd)))
            if sw is not None:
                jd(fr, R); return
            E.ctx.sync(E.st.pc)
            alts = []; nd = 1
            for c, b in cases:
                e = T.icmp('eq', w, k, c)
                nd = T.band(nd, T.bnot(e))
                if E.ctx.feasible(e): alts.append((e, {('v', k.id): c}))
            if E.ctx.feasible(nd): alts.append((nd, {('sw', k.id, id(cd)): 1}))
            if not alts: raise PathEnd('infeasible')
            raise Fork(alts)
        return go
    def e_ret(self, f, bi, it):
        g = self.getter(it[3]) if it[3] is not None else None; E = self
        def go(fr, R):
            v = g(R) if g else None
            E.do_return(v)
        return go
    def do_return(self, v):
        st = self.st
        fr = st.frames.pop()
        for a in fr.allocas: self.mem.pop(a >> RS, None)
        if not st.frames: raise PathEnd('done')
        c = st.frames[-1]; self.fr = c
        if fr.dst is not None: c.R[fr.dst] = v
        # advance the caller
        c.ip = 0; c.si += 1
        if c.si >= len(c.segs): raise Unsup('return past block end')
    def e_unreachable(self, f, bi, it):
        def go(fr, R): raise PathEnd('panic', 'unreachable instruction reached')
        return go
    def e_bad(self, f, bi, it):
        def go(fr, R): raise Unsup('instruction ' + it[2])
        return go
    def e_invoke(self, f, bi, it):
        _, dst, rt, callee, args, nl = it
        j = self.jumper(f, bi, nl)
        call = self.e_call(f, bi, ('call', dst, rt, callee, args), invoke=True)
        # after the call returns, segment si+1 jumps to the normal destination
        segs_after = ([], j)
        def go(fr, R):
            # make sure the jump segment exists
            if len(fr.segs) == fr.si + 1: fr.segs.append(segs_after)
            call(fr, R)
        return go
    def e_call(self, f, bi, it, invoke=False):
        _, dst, rt, callee, args = it
        E = self
        gs = [self.getter(a[1]) for a in args]; tys = [a[0] for a in args]
        if callee[0] == 'asm':
            def go(fr, R):
                v = E.do_asm(callee, rt, [g(R) for g in gs])
                if dst is not None: R[dst] = v
                fr.si += 1; fr.ip = 0
            return go
        def resolve(name):
            """returns ('i', handler) or ('f', compiled)"""
            h = E.intr.get(name)
            if h is not None: return ('i', h)
            for pat, hh in E.patterns:
                if pat.search(name): return ('i', hh)
            if PANIC.search(name):
                def pan(E_, a, t, _n=name): raise PathEnd('panic', _n)
                return ('i', pan)
            if name.startswith('llvm.'):
                h = E.llvm(name, rt, tys)
                return ('i', h)
            if name in E.mod.fdefs: return ('f', name)
            raise Unsup('external function ' + name)
        cache = []
        if callee[0] == 'g':
            def go(fr, R):
                if not cache: cache.append(resolve(callee[1]))
                k, h = cache[0]
                E.invoke_target(k, h, fr, R, [g(R) for g in gs], dst, rt)
            return go
        gp = self.getter(callee[1])
        def go(fr, R):
            p = gp(R)
            if type(p) is not int: p = E.caddr(p)
            nm = E.mod.addrf.get(p)
            if nm is None: raise PathEnd('memfault', 'call of invalid function pointer %#x' % p)
            k, h = resolve(nm)
            E.invoke_target(k, h, fr, R, [g(R) for g in gs], dst, rt)
        return go
    def invoke_target(self, k, h, fr, R, args, dst, rt):
        if k == 'i':
            v = h(self, args, rt)
            if v is NOADV: return
            if dst is not None: R[dst] = v
            fr.si += 1; fr.ip = 0
            return
        self.push(h, args, dst)
    def push(self, name, args, dst):
        f = self.compile_fn(name)
        st = self.st
        if len(st.frames) > 400: raise Unsup('call depth')
        fr = Frame(); fr.fn = f; fr.bi = 0; fr.si = 0; fr.ip = 0; fr.allocas = []; fr.dst = dst
        segs = self.cblock(f, 0)
        fr.R = R = FrameRegs(f, args)
        fr.segs = segs
        st.frames.append(fr); self.fr = fr
        if name not in self.funcs_seen: self.funcs_seen[name] = sum(len(b) for b in f.raw)

    # ------------------------------------------------------------------ running
    def start(self, name, harness):
        st = State(); st.frames = []; st.mem = {}; st.tok = object(); st.pc = []; st.known = {}; st.nextr = 0x10000
        st.inputs = []; st.obs = []; st.steps = 0; st.harness = harness; st.nch = 0; st.cover = set(); st.tainted = False; st.choices = []; st.ext = {}
        self.activate(st)
        self.push(name, [], None)
        return st
    def activate(self, st):
        self.forksel = st.ext.get('forksel', False); self.forktab = st.ext.get('forktab', False)
        self.st = st; self.mem = st.mem
        self.fr = st.frames[-1] if st.frames else None
    def step_run(self):
        """run the active state until it forks or ends; returns ('fork', alts) or ('end', kind, info)"""
        st = self.st
        steps = 0
        i = 0
        try:
            while True:
                fr = self.fr
                body, ender = fr.segs[fr.si]
                R = fr.R
                i = fr.ip
                if i:
                    for i, f in body[i:]: f(R)
                else:
                    for i, f in body: f(R)
                i = len(body)
                steps += i + 1
                if steps > 100000:
                    st.steps += steps; steps = 0
                    if st.steps > self.maxsteps: raise PathEnd('steps', 'step limit')
                    if self.late(): raise PathEnd('timeout', '')
                ender(fr, R)
        except Fork as e:
            st.steps += steps
            fr.ip = i
            return ('fork', e.alts)
        except PathEnd as e:
            st.steps += steps
            fr.ip = i
            return ('end', e.kind, e.info)
        except Unsup as e:
            return ('end', 'unsupported', str(e))
        except L.Unsupported as e:
            return ('end', 'unsupported', str(e))
    def where(self):
        return ' < '.join(f.fn.name[-60:] for f in reversed(self.st.frames[-4:]))

NOADV = object()

def FrameRegs(f, args):
    n = f.nslots if hasattr(f, 'nslots') else None
    # slots may still grow while blocks are parsed lazily: reserve generously
    if n is None:
        n = len(set(re.findall(r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+)', f.mod.text[f.mod.fdefs[f.name][0]:f.mod.fdefs[f.name][1]]))) + 8
        f.nslots = n
    R = [None] * n
    for (ty, s), a in zip(f.params, args): R[s] = a
    return R

def symgep(b, const, var):
    # group constants with a concrete base
    r = const & M64 if isT(b) else (b + const) & M64
    acc = b if isT(b) else None
    for sc, w, x in var:
        if type(x) is int:
            if x >> (w - 1): x -= 1 << w
            r = (r + sc * x) & M64
        else:
            if w < 64: x = T.sext(x, w, 64)
            t = T.binop('mul', 64, x, sc & M64)
            acc = t if acc is None else T.binop('add', 64, acc, t)
    return T.binop('add', 64, acc, r) if acc is not None else r

def conv(t, sort):
    if t.s == sort: return t
    if t.s < 0 and sort > 0:
        v = T.tobits(t.s, t); w = -t.s
        return v if w == sort else T.ext(v, w, 0, sort)
    if t.s > 0 and sort < 0: return T.frombits(sort, t)
    return T.ext(t, t.s, 0, sort)
def bits_to_vec(x, n): return tuple([T.ext(x, n, i, 1) for i in range(n)]) if isT(x) else tuple([(x >> i) & 1 for i in range(n)])
def vec_to_bits(v):
    return T.cat([(x, 1) for x in v]) if any(isT(x) for x in v) else sum(x << i for i, x in enumerate(v))
