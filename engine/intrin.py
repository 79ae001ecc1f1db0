"""LLVM intrinsics, libc/std leaf functions and the harness primitives."""
import re, math
import terms as T
import llparse as L
from terms import isT, F32, F64, mask
from sym import PathEnd, Unsup, Fork, sortof, NOADV, M64, PANIC

def fsel_min(s, a, b):
    if not isT(a) and not isT(b): return T.c_min(s, a, b)
    if not isT(a) and a != a: return b
    if not isT(b) and b != b: return a
    r = T.ite(s, T.fcmp('olt', s, b, a), b, a)
    if T.frng(a) is None: r = T.ite(s, T.fcmp('uno', s, a, a), b, r)
    return r
def fsel_max(s, a, b):
    if not isT(a) and not isT(b): return T.c_max(s, a, b)
    if not isT(a) and a != a: return b
    if not isT(b) and b != b: return a
    r = T.ite(s, T.fcmp('ogt', s, b, a), b, a)
    if T.frng(a) is None: r = T.ite(s, T.fcmp('uno', s, a, a), b, r)
    return r
def isneg(s, x):
    """sign bit"""
    return T.signbit(s, x)
def copysign(s, a, b):
    if not isT(a) and not isT(b): return math.copysign(a, b)
    m = T.fop('fabs', s, a)
    return T.ite(s, isneg(s, b), T.fop('fneg', s, m), m)

def widen_ov(op, signed, w):
    m = mask(w)
    def f(a, b):
        if not isT(a) and not isT(b):
            if signed: a, b = T.sgn(a, w), T.sgn(b, w)
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            lo, hi = (-(1 << w-1), (1 << w-1) - 1) if signed else (0, m)
            return (r & m, int(not lo <= r <= hi))
        r = T.binop(op, w, a, b)
        R = T.srange if signed else T.urange
        (al, ah), (bl, bh) = R(a, w), R(b, w)
        c = [x + y if op == 'add' else x - y if op == 'sub' else x * y for x in (al, ah) for y in (bl, bh)] if op != 'sub' else [al - bh, ah - bl]
        lo, hi = (-(1 << w-1), (1 << w-1) - 1) if signed else (0, m)
        if lo <= min(c) and max(c) <= hi: return (r, 0)
        W = w + 1 if op != 'mul' else 2 * w
        X = T.sext if signed else T.zext
        if not signed and op == 'sub': return (r, T.icmp('ult', w, a, b))
        wide = T.binop(op, W, X(a, w, W), X(b, w, W))
        if signed:
            ov = T.bor(T.icmp('slt', W, wide, lo & mask(W)), T.icmp('sgt', W, wide, hi))
        else: ov = T.icmp('ugt', W, wide, hi)
        return (r, ov)
    return f
def cmp3(signed, w, rw):
    lt = 'slt' if signed else 'ult'
    def f(a, b):
        return T.ite(rw, T.icmp(lt, w, a, b), mask(rw), T.ite(rw, T.icmp('eq', w, a, b), 0, 1))
    return f
def bitcount(kind, w):
    def conc(x):
        if kind == 'ctpop': return bin(x).count('1')
        if kind == 'ctlz': return w - x.bit_length()
        return (x & -x).bit_length() - 1 if x else w
    def f(x, *a):
        if not isT(x): return conc(x)
        r = 0
        if kind == 'ctpop':
            for i in range(w): r = T.binop('add', w, r, T.zext(T.ext(x, w, i, 1), 1, w))
            return r
        u = T.urange(x, w)[1].bit_length()
        if kind == 'ctlz':
            r = w
            for i in range(u): r = T.ite(w, T.icmp('uge', w, x, 1 << i), w - 1 - i, r)
            return r
        r = w
        for i in reversed(range(u)): r = T.ite(w, T.icmp('ne', 1, T.ext(x, w, i, 1), 0), i, r)
        return r
    return f

def lanes(f, ty, nargs):
    def g(*a): return tuple([f(*x) for x in zip(*a)])
    return g

class Intr: pass

def install(E):
    I = E.intr
    E.patterns = []

    PURE = re.compile(r'^llvm\.(fabs|floor|ceil|trunc|round|rint|nearbyint|roundeven|sqrt|sin|cos|tan|exp|exp2|exp10|log|log2|log10|pow|fma|fmuladd|minnum|maxnum|minimumnum|maximumnum|minimum|maximum|copysign|umax|umin|smax|smin|abs|usub\.sat|uadd\.sat|ssub\.sat|sadd\.sat|[us]add\.with\.overflow|[us]sub\.with\.overflow|[us]mul\.with\.overflow|ucmp|scmp|ctlz|cttz|ctpop|fshl|fshr|bswap|bitreverse|fptoui\.sat|fptosi\.sat|is\.constant|expect|is\.fpclass|vector\.reduce\.\w+|ptrmask|asin|acos|atan|atan2|sinh|cosh|tanh|powi|canonicalize|lround|llround|ldexp)(?=\.|$)')
    E.pures_names = set(n for n in E.mod.fdecl if PURE.match(n))

    def scalar(base, name, rt, tys):
        t = rt
        if base in ('fabs', 'floor', 'ceil', 'round', 'rint', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'exp2', 'exp10', 'log', 'log2', 'log10', 'pow', 'fma', 'trunc', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh'):
            s = sortof(t); op = {'trunc': 'ftrunc'}.get(base, base)
            return lambda *a: T.fop(op, s, *a)
        if base in ('nearbyint', 'roundeven'):
            s = sortof(t); return lambda a: T.fop('rint', s, a)
        if base == 'fmuladd':
            s = sortof(t); return lambda a, b, c: T.fop('fadd', s, T.fop('fmul', s, a, b), c)
        if base == 'canonicalize': return lambda a: a
        if base in ('minnum', 'minimumnum', 'maxnum', 'maximumnum'):
            s = sortof(t); pr, sel = ('olt', fsel_min) if base[1] == 'i' else ('ogt', fsel_max)
            def fm(a, b):
                if E.forksel and (isT(a) or isT(b)) and all(T.frng(x) is not None if isT(x) else x == x for x in (a, b)):
                    c = T.fcmp(pr, s, b, a)
                    return b if (E.decide(c) if isT(c) else c) else a
                return sel(s, a, b)
            return fm
        if base == 'copysign': s = sortof(t); return lambda a, b: copysign(s, a, b)
        if base == 'powi':
            s = sortof(t)
            def powi(a, b):
                if isT(b): raise Unsup('powi')
                b = T.sgn(b, 32); r = 1.0
                for _ in range(abs(b)): r = T.fop('fmul', s, r, a)
                return r if b >= 0 else T.fop('fdiv', s, 1.0, r)
            return powi
        if base in ('umax', 'umin', 'smax', 'smin'):
            w = sortof(t); pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base]
            def mm(a, b):
                c = T.icmp(pr, w, a, b)
                if E.forksel and isT(c): c = E.decide(c)
                return T.ite(w, c, a, b)
            return mm
        if base == 'abs':
            w = sortof(t); return lambda a, *k: T.ite(w, T.icmp('slt', w, a, 0), T.binop('sub', w, 0, a), a)
        if base == 'usub.sat':
            w = sortof(t); return lambda a, b: T.ite(w, T.icmp('ult', w, a, b), 0, T.binop('sub', w, a, b))
        if base == 'uadd.sat':
            w = sortof(t)
            def us(a, b):
                r, o = widen_ov('add', False, w)(a, b); return T.ite(w, o, mask(w), r)
            return us
        if base in ('ssub.sat', 'sadd.sat'):
            w = sortof(t)
            def ss(a, b):
                r, o = widen_ov(base[1:4], True, w)(a, b)
                lim = T.ite(w, T.icmp('slt', w, a, 0), 1 << (w-1), (1 << (w-1)) - 1)
                return T.ite(w, o, lim, r)
            return ss
        if base.endswith('.with.overflow'):
            w = sortof(tys[0]); return widen_ov(base[1:4], base[0] == 's', w)
        if base in ('ucmp', 'scmp'): return cmp3(base == 'scmp', sortof(tys[0]), sortof(t))
        if base in ('ctlz', 'cttz', 'ctpop'): return bitcount(base, sortof(t))
        if base in ('fshl', 'fshr'):
            w = sortof(t)
            def fs(a, b, c):
                if isT(c): raise Unsup('fshl by symbolic amount')
                c %= w
                if base == 'fshr': c = (w - c) % w if c else 0; 
                if base == 'fshr' and c == 0: return b
                if c == 0: return a
                if not isT(a) and not isT(b): return ((a << c) | (b >> (w - c))) & mask(w)
                return T.cat([(T.ext(b, w, w - c, c), c), (T.ext(a, w, 0, w - c), w - c)])
            return fs
        if base == 'bswap':
            w = sortof(t)
            return lambda a: T.cat([(T.ext(a, w, 8 * i, 8), 8) for i in reversed(range(w // 8))]) if isT(a) else int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
        if base == 'bitreverse':
            w = sortof(t)
            return lambda a: T.cat([(T.ext(a, w, i, 1), 1) for i in reversed(range(w))]) if isT(a) else int(bin(a)[2:].zfill(w)[::-1], 2)
        if base in ('fptoui.sat', 'fptosi.sat'):
            w = sortof(t); sg = base == 'fptosi.sat'; return lambda a: T.fptoi(w, sg, a)
        if base == 'is.constant': return lambda a: 0
        if base == 'expect': return lambda a, b: a
        if base == 'ptrmask': return lambda a, b: T.binop('and', 64, a, b)
        if base == 'is.fpclass':
            s = sortof(tys[0])
            def fpc(x, m):
                if not isT(x):
                    n = math.copysign(1, x) < 0; tiny = 2.0**-126 if s == F32 else 2.0**-1022
                    if x != x: b = 3
                    elif abs(x) == math.inf: b = 4 if n else 512
                    elif x == 0: b = 32 if n else 64
                    elif abs(x) < tiny: b = 16 if n else 128
                    else: b = 8 if n else 256
                    return int(bool(m & b))
                r = T.frng(x)
                if r is not None and m & 504 == 0: return 0
                if r is not None and m & 504 == 504: return 1
                if m == 96: return T.fcmp('oeq', s, x, 0.0)
                if m == 64: return T.band(T.fcmp('oeq', s, x, 0.0), T.bnot(isneg(s, x)))
                if m == 32: return T.band(T.fcmp('oeq', s, x, 0.0), isneg(s, x))
                if m == 3: return T.fcmp('uno', s, x, x)
                if m == 1020: return T.fcmp('ord', s, x, x)
                inf = T.fcmp('oeq', s, T.fop('fabs', s, x), math.inf)
                if m == 516: return inf
                if m == 504: return T.bnot(T.bor(inf, T.fcmp('uno', s, x, x)))
                if m == 519: return T.bor(inf, T.fcmp('uno', s, x, x))
                raise Unsup('is.fpclass %d' % m)
            return fpc
        raise Unsup('intrinsic ' + name)
    def pure(name, rt, tys):
        base = PURE.match(name).group(1)
        if base.startswith('vector.reduce'):
            k = base.split('.')[2]; et = tys[-1][2]; s = sortof(et)
            if k in ('add', 'mul', 'and', 'or', 'xor'):
                def red(v):
                    r = v[0]
                    for x in v[1:]: r = T.binop(k, s, r, x)
                    return r
                return red
            if k in ('umax', 'umin', 'smax', 'smin'):
                f1 = scalar(k, name, et, [et, et])
                def red(v):
                    r = v[0]
                    for x in v[1:]: r = f1(r, x)
                    return r
                return red
            raise Unsup('intrinsic ' + name)
        if rt[0] == 'vec' or (rt[0] == 'st' and tys[0][0] == 'vec'):
            et = rt[2] if rt[0] == 'vec' else rt
            f1 = scalar(base, name, et, [t[2] if t[0] == 'vec' else t for t in tys])
            def g(*a):
                n = len(a[0])
                cols = [x if isinstance(x, tuple) else (x,) * n for x in a]
                rs = [f1(*[c[i] for c in cols]) for i in range(n)]
                if rt[0] == 'st': return (tuple(r[0] for r in rs), tuple(r[1] for r in rs))
                return tuple(rs)
            return g
        return scalar(base, name, rt, tys)
    E.pure = pure

    def llvm(name, rt, tys):
        n = name.split('.')
        k = n[1]
        if k in ('memcpy', 'memmove'):
            def h(E, a, t):
                d, s, ln = E.conc(a[0]), E.conc(a[1]), E.conc(a[2])
                E.memcpy(d, s, ln)
            return h
        if k == 'memset':
            def h(E, a, t): E.memset(E.conc(a[0]), a[1], E.conc(a[2]))
            return h
        if k in ('trap', 'debugtrap', 'ubsantrap'):
            def h(E, a, t): raise PathEnd('panic', 'trap')
            return h
        if k == 'threadlocal': return lambda E, a, t: a[0]
        if k == 'load' and n[2] == 'relative':
            def h(E, a, t):
                p = E.conc(a[0]); o = E.conc(a[1])
                return (p + T.sgn(int.from_bytes(E.read_bytes(p + o, 4), 'little'), 32)) & M64
            return h
        if k == 'x86':
            if 'pause' in name or 'vzeroupper' in name: return lambda E, a, t: None
            if 'xgetbv' in name: return lambda E, a, t: 0
            if 'pmovmskb' in name:
                return lambda E, a, t: T.cat([(T.ext(x, 8, 7, 1), 1) for x in a[0]] + [(0, t[1] - len(a[0]))]) if any(isT(x) for x in a[0]) else sum((x >> 7) << i for i, x in enumerate(a[0]))
        if k in ('returnaddress', 'frameaddress'): return lambda E, a, t: 0
        if k in ('stacksave',): return lambda E, a, t: 0
        if k in ('stackrestore', 'prefetch', 'invariant', 'assume', 'var', 'annotation', 'donothing', 'sideeffect', 'lifetime', 'dbg', 'experimental'): return lambda E, a, t: None
        if k == 'objectsize': return lambda E, a, t: M64
        if k in ('launder', 'strip'): return lambda E, a, t: a[0]
        raise Unsup('intrinsic ' + name)
    E.llvm = llvm

    def conc(x, w=64):
        return x if type(x) is int else E.concretize(x, x.s, 64)
    E.conc = conc

    def do_asm(callee, rt, args):
        s = callee[1]
        if 'cpuid' in s:
            return T_zero(rt)
        if s.strip('"') == '': return T_zero(rt) if rt[0] != 'void' else None
        if 'pause' in s or 'rep' in s: return None
        raise Unsup('inline asm ' + s)
    def T_zero(t): return L.zero(t)
    E.do_asm = do_asm

    # ---------------------------------------------------------------- libc
    def d(*names):
        def w(f):
            for n in names: I[n] = f
            return f
        return w
    def live(n): x = E.st.ext; x['live'] = x.get('live', 0) + n
    def take(n): live(n); return E.alloc(n)
    def give(p):
        o = E.obj(p); live(-o.size); E.free(p)
    @d('malloc')
    def _(E, a, t): return take(conc(a[0]))
    @d('calloc')
    def _(E, a, t): return take(conc(a[0]) * conc(a[1]))
    @d('free')
    def _(E, a, t):
        p = conc(a[0])
        if p: give(p)
    @d('realloc')
    def _(E, a, t):
        p, n = conc(a[0]), conc(a[1])
        q = take(n)
        if p:
            o = E.obj(p); E.memcpy(q, p, min(o.size, n)); give(p)
        return q
    @d('posix_memalign')
    def _(E, a, t):
        p = conc(a[0]); q = take(conc(a[2]))
        E.write_bytes(p, q.to_bytes(8, 'little')); return 0
    @d('aligned_alloc', 'memalign')
    def _(E, a, t): return take(conc(a[1]))
    @d('sx_heap')        # bytes allocated and not yet freed
    def _(E, a, t): return E.st.ext.get('live', 0)
    @d('memcpy', 'memmove')
    def _(E, a, t): E.memcpy(conc(a[0]), conc(a[1]), conc(a[2])); return a[0]
    @d('memset')
    def _(E, a, t): E.memset(conc(a[0]), T.ext(a[1], 32, 0, 8), conc(a[2])); return a[0]
    @d('bcmp', 'memcmp')
    def _(E, a, t):
        n = conc(a[2]); p, q = conc(a[0]), conc(a[1])
        if n == 0: return 0
        ld = E.mk_load_cached(('i', 8))
        r = 0
        xs = [(ld(p + i), ld(q + i)) for i in range(n)]
        if not any(isT(x) or isT(y) for x, y in xs):
            for x, y in xs:
                if x != y: return 1 if x > y else 0xffffffff
            return 0
        for x, y in reversed(xs):
            r = T.ite(32, T.icmp('eq', 8, x, y), r, T.ite(32, T.icmp('ult', 8, x, y), 0xffffffff, 1))
        return r
    @d('strlen')
    def _(E, a, t):
        p = conc(a[0]); n = 0
        while E.read_bytes(p + n, 1) != b'\0': n += 1
        return n
    @d('getenv', 'gnu_get_libc_version', 'sigaction', 'signal', 'sched_yield', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_key_create', 'pthread_key_delete', 'pthread_getspecific', 'pthread_setspecific', '__cxa_thread_atexit_impl', 'pthread_self', 'gettid', 'getpid', 'poll', 'munmap', 'pthread_atfork', 'isatty', 'close')
    def _(E, a, t): return 0
    @d('write')
    def _(E, a, t): return a[2]
    @d('writev')
    def _(E, a, t):
        iov = conc(a[1]); n = conc(a[2]); tot = 0
        for i in range(n): tot += int.from_bytes(E.read_bytes(iov + 16 * i + 8, 8), 'little')
        return tot
    def entropy(E, p, n):
        k = E.st.ext.get('ent', 0); out = bytearray()
        x = (0x9E3779B97F4A7C15 * (k + 1)) & M64
        for i in range(n):
            x ^= (x << 13) & M64; x ^= x >> 7; x ^= (x << 17) & M64
            out.append(x >> 24 & 255)
        E.st.ext['ent'] = k + 1
        E.write_bytes(p, bytes(out)); return n
    @d('getrandom')
    def _(E, a, t): return entropy(E, conc(a[0]), conc(a[1]))
    @d('getentropy')
    def _(E, a, t): entropy(E, conc(a[0]), conc(a[1])); return 0
    @d('syscall')
    def _(E, a, t):
        n = conc(a[0])
        if n == 318: return entropy(E, conc(a[1]), conc(a[2]))
        if n == 186: return 1
        if n == 202: return 0
        raise Unsup('syscall %d' % n)
    @d('__errno_location')
    def _(E, a, t):
        e = E.st.ext.get('errno')
        if e is None: e = E.st.ext['errno'] = E.alloc(8)
        return e
    @d('clock_gettime')
    def _(E, a, t): E.write_bytes(conc(a[1]), (1000).to_bytes(8, 'little') + (0).to_bytes(8, 'little')); return 0
    @d('open', 'open64', 'read', 'fstat', 'fstat64')
    def _(E, a, t): return mask(t[1])
    @d('abort', 'exit', '_exit')
    def _(E, a, t): raise PathEnd('panic', 'abort')
    for n in T.LIBFN | {'fmod', 'round', 'rint', 'floor', 'ceil', 'sqrt', 'fma'}:
        op = {'fmod': 'frem'}.get(n, n)
        def mk(op, s):
            def h(E, a, t): return T.fop(op, s, *a)
            return h
        I[n] = mk(op, F64); I[n + 'f'] = mk(op, F32)
    I['trunc'] = lambda E, a, t: T.fop('ftrunc', F64, *a)
    I['truncf'] = lambda E, a, t: T.fop('ftrunc', F32, *a)

    # ---------------------------------------------------------------- harness primitives
    def newinput(E, sort, lo, hi, kind, g=None):
        st = E.st; i = len(st.inputs)
        p = (i, lo, hi) if g is None else (i, lo, hi, g)
        if sort < 0:
            if lo == hi: v = lo
            else: v = T.mk('var', sort, (), p)
        else:
            v = lo & mask(sort) if lo == hi else T.mk('var', sort, (), p)
        st.inputs.append((kind, v))
        return v
    @d('sx_f64')
    def _(E, a, t): return newinput(E, F64, a[0], a[1], 'f64')
    @d('sx_f32')
    def _(E, a, t): return newinput(E, F32, a[0], a[1], 'f32')
    @d('sx_u64')
    def _(E, a, t): return newinput(E, 64, conc(a[0]), conc(a[1]), 'u64')
    @d('sx_i64')
    def _(E, a, t): return newinput(E, 64, T.sgn(conc(a[0]), 64), T.sgn(conc(a[1]), 64), 'i64')
    @d('sx_choose')
    def _(E, a, t):
        st = E.st; n = conc(a[0]); key = ('ch', st.nch)
        k = st.known.get(key)
        if k is None:
            pre = E.opts.get('prefix')
            if pre and st.nch < len(pre):
                if pre[st.nch] >= n: raise PathEnd('infeasible')
                k = pre[st.nch]
            elif n == 1: k = 0
            else: raise Fork([(None, {key: i}) for i in range(n)])
        st.nch += 1
        st.choices.append(k)
        st.inputs.append(('u64', k))
        return k
    @d('sx_split')       # case split on an integer value: every feasible value becomes its own path
    def _(E, a, t): return E.concretize(a[0], 64, 4096)
    @d('sx_fork')        # case split on a boolean
    def _(E, a, t): return E.decide(T.icmp('ne', a[0].s if isT(a[0]) else 32, a[0], 0))
    @d('sx_forksel')
    def _(E, a, t): E.forksel = E.st.ext['forksel'] = bool(conc(a[0]))
    @d('sx_forktab')
    def _(E, a, t): E.forktab = E.st.ext['forktab'] = bool(conc(a[0]))
    @d('sx_assume')
    def _(E, a, t):
        c = T.icmp('ne', 32, a[0], 0)
        if not isT(c):
            if c: return None
            raise PathEnd('assume')
        if E.st.known.get(c.id) == 1: return None
        if not E.feasible(c): raise PathEnd('assume')
        E.st.pc.append(c); E.st.known[c.id] = 1
        return None
    @d('sx_check')
    def _(E, a, t):
        c = T.icmp('ne', 32, a[0], 0)
        E.on_check(c, conc(a[1]))
        return None
    @d('sx_cover')
    def _(E, a, t): E.st.cover.add(conc(a[0])); return None
    def obs(kind):
        def f(E, a, t): E.st.obs.append((kind, a[0])); return None
        return f
    I['sx_obs_f64'] = obs('f64'); I['sx_obs_f32'] = obs('f32'); I['sx_obs_u64'] = obs('u64')
    E.pure_llvm = pure
