"""Hash-consed symbolic terms over bit-vectors (sort = width > 0) and IEEE floats (sort F32/F64).
Values handed around by the executor are Python ints / floats when concrete, Term otherwise."""
import math, ctypes, struct, ctypes.util

F32 = -32; F64 = -64
_libm = ctypes.CDLL('libm.so.6')
def _bind(n, k, f32=False):
    f = getattr(_libm, n); t = ctypes.c_float if f32 else ctypes.c_double
    f.restype = t; f.argtypes = [t] * k
    return f
LIBM = {}
for _n, _k in [('sin',1),('cos',1),('tan',1),('exp',1),('exp2',1),('exp10',1),('log',1),('log2',1),('log10',1),('pow',2),('atan',1),('atan2',2),('asin',1),('acos',1),('sinh',1),('cosh',1),('tanh',1),('cbrt',1),('hypot',2),('fmod',2),('expm1',1),('log1p',1),('round',1),('fma',3),('rint',1),('roundeven',1),('ldexp',1)]:
    try:
        LIBM[_n, F64] = _bind(_n, _k); LIBM[_n, F32] = _bind(_n + 'f', _k, True)
    except AttributeError:
        pass
LIBFN = {'sin','cos','tan','exp','exp2','exp10','log','log2','log10','pow','atan','atan2','asin','acos','sinh','cosh','tanh','cbrt','hypot','expm1','log1p'}

_cf = ctypes.c_float
def r32(x): return _cf(x).value
def rnd(s, x): return _cf(x).value if s == F32 else x
INF = math.inf

def fbits(s, x):
    return struct.unpack('<I', struct.pack('<f', x))[0] if s == F32 else struct.unpack('<Q', struct.pack('<d', x))[0]
def bitsf(s, b):
    return struct.unpack('<f', struct.pack('<I', b))[0] if s == F32 else struct.unpack('<d', struct.pack('<Q', b))[0]

def sgn(v, w): return v - (1 << w) if (v >> (w - 1)) & 1 else v

# ---------------------------------------------------------------- concrete semantics
def c_fadd(s, a, b): return rnd(s, a + b)
def c_fsub(s, a, b): return rnd(s, a - b)
def c_fmul(s, a, b): return rnd(s, a * b)
def c_fdiv(s, a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(INF, math.copysign(1, a) * math.copysign(1, b))
    return rnd(s, a / b)
def c_frem(s, a, b): return LIBM['fmod', s](a, b)
def c_fneg(s, a): return -a
def c_fabs(s, a): return abs(a)
def c_sqrt(s, a):
    if a < 0: return math.nan
    return rnd(s, math.sqrt(a)) if a == a and a != INF else a
def c_floor(s, a): return a if (a != a or abs(a) >= 2**53) else math.copysign(float(math.floor(a)), a) if a != 0 and math.floor(a) == 0 else (a if a == 0 else float(math.floor(a)))
def c_ceil(s, a): return a if (a != a or abs(a) >= 2**53 or a == 0) else math.copysign(float(math.ceil(a)), a) if math.ceil(a) == 0 else float(math.ceil(a))
def c_trunc(s, a): return a if (a != a or abs(a) >= 2**53 or a == 0) else math.copysign(float(math.trunc(a)), a)
def c_round(s, a):
    if a != a or abs(a) >= 2**53 or a == 0: return a
    t = math.trunc(a)
    if abs(a - t) >= 0.5: t += 1 if a > 0 else -1
    return math.copysign(float(t), a)
def c_rint(s, a):
    if a != a or abs(a) >= 2**53 or a == 0: return a
    return math.copysign(float(round(a)), a)
def c_fma(s, a, b, c):
    return LIBM['fma', s](a, b, c)
def c_lib(name):
    def f(s, *a): return LIBM[name, s](*a)
    return f
def c_min(s, a, b):   # minimumnum
    if a != a: return b
    if b != b: return a
    if a == 0 and b == 0: return a if math.copysign(1, a) < 0 else b
    return min(a, b)
def c_max(s, a, b):
    if a != a: return b
    if b != b: return a
    if a == 0 and b == 0: return a if math.copysign(1, a) > 0 else b
    return max(a, b)
FOPS = {'fadd': c_fadd, 'fsub': c_fsub, 'fmul': c_fmul, 'fdiv': c_fdiv, 'frem': c_frem, 'fneg': c_fneg, 'fabs': c_fabs,
        'sqrt': c_sqrt, 'floor': c_floor, 'ceil': c_ceil, 'ftrunc': c_trunc, 'round': c_round, 'rint': c_rint, 'fma': c_fma}
for _n in LIBFN: FOPS[_n] = c_lib(_n)

def c_fcmp(pr, a, b):
    u = a != a or b != b
    if pr == 'ord': return int(not u)
    if pr == 'uno': return int(u)
    if pr == 'true': return 1
    if pr == 'false': return 0
    if u: return int(pr[0] == 'u')
    k = pr[1:]
    return int(a == b if k == 'eq' else a != b if k == 'ne' else a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
def c_icmp(pr, w, a, b):
    if pr == 'eq': return int(a == b)
    if pr == 'ne': return int(a != b)
    if pr[0] == 's': a = sgn(a, w); b = sgn(b, w)
    k = pr[1:]
    return int(a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
def c_fptoi(w, signed, x):
    if x != x: return 0
    lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, (1 << w) - 1)
    if x == INF: v = hi
    elif x == -INF: v = lo
    else: v = max(lo, min(hi, math.trunc(x)))
    return v & ((1 << w) - 1)
def c_itofp(s, v):
    if s == F64:
        return float(v)     # int -> float is correctly rounded in Python
    # correctly rounded to f32 directly
    if abs(v) < (1 << 53): return r32(float(v))
    # avoid double rounding
    sh = max(0, abs(v).bit_length() - 26); a = abs(v); q = a >> sh
    if a & ((1 << sh) - 1): q |= 1
    # q has 26 bits incl sticky
    x = r32(float(q)) * 2.0 ** sh
    return -x if v < 0 else x
IOPS = {
 'add': lambda w, a, b: (a + b) & ((1 << w) - 1),
 'sub': lambda w, a, b: (a - b) & ((1 << w) - 1),
 'mul': lambda w, a, b: (a * b) & ((1 << w) - 1),
 'udiv': lambda w, a, b: a // b if b else 0,
 'urem': lambda w, a, b: a % b if b else 0,
 'sdiv': lambda w, a, b: (lambda x, y: (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) & ((1 << w) - 1) if y else 0)(sgn(a, w), sgn(b, w)),
 'srem': lambda w, a, b: (lambda x, y: (abs(x) % abs(y) * (1 if x >= 0 else -1)) & ((1 << w) - 1) if y else 0)(sgn(a, w), sgn(b, w)),
 'shl': lambda w, a, b: (a << b) & ((1 << w) - 1) if b < w else 0,
 'lshr': lambda w, a, b: a >> b if b < w else 0,
 'ashr': lambda w, a, b: (sgn(a, w) >> min(b, w - 1)) & ((1 << w) - 1),
 'and': lambda w, a, b: a & b, 'or': lambda w, a, b: a | b, 'xor': lambda w, a, b: a ^ b,
}

# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ('op', 's', 'args', 'p', 'id', 'lo', 'hi', 'g')
    def __repr__(self): return show(self, 4)

_tab = {}
_all = []
def reset():
    _tab.clear(); _all.clear()

def show(t, d=3):
    if not isinstance(t, Term): return repr(t)
    if d == 0: return '#%d' % t.id
    if t.op == 'var': return 'v%s' % (t.p[0],)
    return '(%s%s %s)' % (t.op, '' if t.p is None else ':%s' % (t.p if t.op != 'table' else '..',), ' '.join(show(a, d-1) for a in t.args))

def _key(a):
    if isinstance(a, Term): return a.id, Term
    if isinstance(a, float):
        return struct.pack('<d', a), float
    return a, int

def mk(op, s, args, p=None):
    k = (op, s, p, tuple([_key(a) for a in args]))
    t = _tab.get(k)
    if t is not None: return t
    t = Term(); t.op = op; t.s = s; t.args = tuple(args); t.p = p; t.id = len(_all); t.g = None
    t.lo, t.hi = None, None
    if s > 0:
        r = irange(t)
        if r is None: t.lo, t.hi = 0, (1 << s) - 1
        else:
            lo, hi = r
            if hi - lo >= (1 << s): lo, hi = 0, (1 << s) - 1
            else:
                # normalise: bring lo into [-2^(s-1), 2^s)
                if lo < -(1 << (s-1)) or lo >= (1 << s):
                    k2 = (lo >> s) << s; lo -= k2; hi -= k2
                if lo >= (1 << (s-1)) and hi >= (1 << s): lo -= 1 << s; hi -= 1 << s
            t.lo, t.hi = lo, hi
            if lo == hi and op != 'var':
                v = lo & ((1 << s) - 1)
                _tab[k] = v
                return v
    else:
        r = frange(t)
        if r is not None:
            lo, hi = r
            if lo == lo and hi == hi and abs(lo) != INF and abs(hi) != INF:
                t.lo, t.hi = lo, hi
                if lo == hi and lo != 0 and op != 'var':
                    _tab[k] = lo
                    return lo
        g = gran(t)
        if t.lo is not None and (t.lo > 0 or t.hi < 0):     # every float of that magnitude is on this grid
            e = math.frexp(min(abs(t.lo), abs(t.hi)))[1] - 1
            k2 = max(e - (23 if s == F32 else 52), -149 if s == F32 else -1074)
            if g is None or k2 > g: g = k2
        t.g = g
    _all.append(t); _tab[k] = t
    return t

def var(idx, s, lo, hi):
    """symbolic input; lo/hi inclusive (ints for BV: as signed-agnostic; floats: finite)"""
    t = mk('var', s, (), (idx, lo, hi))
    return t

# ---- ranges
def urange(a, w):
    """unsigned range of a (term or int) of width w"""
    if not isinstance(a, Term): return a, a
    m = 1 << w
    if 0 <= a.lo and a.hi < m: return a.lo, a.hi
    if a.lo >> w == a.hi >> w: return a.lo & (m-1), a.hi & (m-1)
    return 0, m - 1
def srange(a, w):
    if not isinstance(a, Term):
        v = sgn(a, w); return v, v
    h = 1 << (w-1)
    if -h <= a.lo and a.hi < h: return a.lo, a.hi
    lo, hi = a.lo + h, a.hi + h
    if lo >> w == hi >> w:
        m = 1 << w
        return (lo & (m-1)) - h, (hi & (m-1)) - h
    return -h, h - 1
def raw(a, w):
    if not isinstance(a, Term): return a, a
    return a.lo, a.hi
def frng(a):
    """(lo,hi) finite float interval or None"""
    if not isinstance(a, Term):
        if a != a or abs(a) == INF: return None
        return a, a
    if a.lo is None: return None
    return a.lo, a.hi

def irange(t):
    op = t.op; w = t.s; A = t.args
    if op == 'var': return t.p[1], t.p[2]
    if op == 'add':
        a, b = A; return addr_(best(a, w), best(b, w))
    if op == 'sub':
        (al, ah), (bl, bh) = best(A[0], w), best(A[1], w); return al - bh, ah - bl
    if op == 'mul':
        x, y = best(A[0], w), best(A[1], w)
        c = [i * j for i in x for j in y]; return min(c), max(c)
    if op == 'cat':
        lo = hi = 0; off = 0
        for a, pw in zip(A, t.p):
            l, h = urange(a, pw); lo += l << off; hi += h << off; off += pw
        return lo, hi
    if op == 'ext':
        a = A[0]; lo_, aw = t.p
        l, h = urange(a, aw)
        l >>= lo_; h >>= lo_
        if lo_ == 0:
            l, h = raw(a, aw)
            if h - l < (1 << w): return l, h
            return None
        if h - l < (1 << w): return l, h
        return None
    if op == 'sext':
        return srange(A[0], t.p)
    if op == 'udiv':
        (al, ah), (bl, bh) = urange(A[0], w), urange(A[1], w)
        if bl == 0: bl = 1
        return al // max(bh,1), ah // bl
    if op == 'urem':
        (al, ah), (bl, bh) = urange(A[0], w), urange(A[1], w)
        if bl == bh and bl and al // bl == ah // bl: return al % bl, ah % bl
        return 0, min(ah, max(bh - 1, 0))
    if op == 'sdiv':
        (al, ah), (bl, bh) = srange(A[0], w), srange(A[1], w)
        if bl == bh and bl > 0:
            q = lambda x: abs(x) // bl * (1 if x >= 0 else -1)
            return q(al), q(ah)
        return None
    if op == 'and':
        m = min(urange(a, w)[1] for a in A); return 0, m
    if op in ('or', 'xor'):
        m = max(urange(a, w)[1] for a in A); return 0, (1 << m.bit_length()) - 1
    if op == 'lshr':
        l, h = urange(A[0], w); bl, bh = urange(A[1], w)
        return (l >> bh if bh < w else 0), h >> bl if bl < w else 0
    if op == 'ite':
        (al, ah), (bl, bh) = best(A[1], w), best(A[2], w); return min(al, bl), max(ah, bh)
    if op == 'table':
        es = t.p[2]
        return min(es), max(es)
    if op in ('fptosi', 'fptoui'):
        r = frng(A[0])
        h = 1 << (w - 1)
        L, H = (-h, h - 1) if op == 'fptosi' else (0, (1 << w) - 1)
        if r is None: return (L, H)
        return max(L, min(H, math.trunc(r[0]))), max(L, min(H, math.trunc(r[1])))
    if op == 'fbits':
        r = frng(A[0]); s = A[0].s
        if r is None: return None
        if r[0] > 0: return fbits(s, r[0]), fbits(s, r[1])
        if r[1] < 0: return fbits(s, r[1]), fbits(s, r[0])
        return None
    if op in ('fcmp',):
        return fcmp_range(t.p, A[0], A[1])
    if op in ('icmp',):
        return icmp_range(t.p[0], t.p[1], A[0], A[1])
    return None
def best(a, w):
    return raw(a, w)
def addr_(x, y): return x[0] + y[0], x[1] + y[1]

def fcmp_range(pr, a, b):
    ra, rb = frng(a), frng(b)
    if ra is None or rb is None:
        return None
    k = pr[1:] if pr not in ('ord', 'uno') else pr
    (al, ah), (bl, bh) = ra, rb
    if pr == 'ord': return 1, 1
    if pr == 'uno': return 0, 0
    if k == 'lt': return (1, 1) if ah < bl else (0, 0) if al >= bh else None
    if k == 'le': return (1, 1) if ah <= bl else (0, 0) if al > bh else None
    if k == 'gt': return (1, 1) if al > bh else (0, 0) if ah <= bl else None
    if k == 'ge': return (1, 1) if al >= bh else (0, 0) if ah < bl else None
    dis = ah < bl or bh < al
    if k == 'eq': return (0, 0) if dis else None
    if k == 'ne': return (1, 1) if dis else None
    return None
def icmp_range(pr, w, a, b):
    if pr in ('eq', 'ne'):
        (al, ah), (bl, bh) = urange(a, w), urange(b, w)
        dis = ah < bl or bh < al
        if not dis:
            (al, ah), (bl, bh) = srange(a, w), srange(b, w)
            dis = ah < bl or bh < al
        if dis: return (0, 0) if pr == 'eq' else (1, 1)
        return None
    R = srange if pr[0] == 's' else urange
    (al, ah), (bl, bh) = R(a, w), R(b, w)
    k = pr[1:]
    if k == 'lt': return (1, 1) if ah < bl else (0, 0) if al >= bh else None
    if k == 'le': return (1, 1) if ah <= bl else (0, 0) if al > bh else None
    if k == 'gt': return (1, 1) if al > bh else (0, 0) if ah <= bl else None
    return (1, 1) if al >= bh else (0, 0) if ah < bl else None

def widen(lo, hi, rel=4e-16, s=F64):
    if s == F32: rel = 3e-7
    a = max(abs(lo), abs(hi)) * rel + 1e-300
    return rnd(s, lo - abs(lo) * rel - 1e-300), rnd(s, hi + abs(hi) * rel + 1e-300)

def frange(t):
    op = t.op; s = t.s; A = t.args
    try:
        return _frange(op, s, A, t)
    except (OverflowError, ValueError, ZeroDivisionError):
        return None
def fpred(s, y):
    return bitsf(F32, fbits(F32, y) - 1) if s == F32 else math.nextafter(y, 0.0)
def _frange(op, s, A, t):
    if op == 'var': return t.p[1], t.p[2]
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        ra, rb = frng(A[0]), frng(A[1])
        if ra is None or rb is None: return None
        (al, ah), (bl, bh) = ra, rb
        if op == 'fadd': return rnd(s, al + bl), rnd(s, ah + bh)
        if op == 'fsub':
            # x - floor(x) etc.
            b = A[1]
            if isinstance(b, Term) and b.op in ('floor', 'ftrunc') and b.args[0] is A[0]:
                lo, hi = (0.0, 1.0) if b.op == 'floor' or al >= 0 else (-1.0, 1.0)
                return max(lo, rnd(s, al - bh)), min(hi, rnd(s, ah - bl))
            return rnd(s, al - bh), rnd(s, ah - bl)
        if op == 'fmul':
            c = [al * bl, al * bh, ah * bl, ah * bh]
            if A[0] is A[1]:
                m = 0.0 if al <= 0 <= ah else min(al*al, ah*ah)
                return rnd(s, m), rnd(s, max(al*al, ah*ah))
            return rnd(s, min(c)), rnd(s, max(c))
        if bl <= 0 <= bh: return None
        c = [rnd(s, x / y) for x in (al, ah) for y in (bl, bh)]
        return min(c), max(c)
    if op == 'ite':
        ra, rb = frng(A[1]), frng(A[2])
        if ra is None or rb is None: return None
        return min(ra[0], rb[0]), max(ra[1], rb[1])
    if op == 'bitsf':
        w = -s
        l, h = urange(A[0], w)
        maxf = fbits(s, 3.4028234663852886e38 if s == F32 else 1.7976931348623157e308)
        sb = 1 << (w - 1)
        if h <= maxf: return bitsf(s, l), bitsf(s, h)
        if l >= sb and h <= maxf + sb: return bitsf(s, h), bitsf(s, l)
        return None
    if op in ('sitofp', 'uitofp'):
        w = t.p
        l, h = (srange if op == 'sitofp' else urange)(A[0], w)
        return c_itofp(s, l), c_itofp(s, h)
    if op == 'table':
        es = t.p[2]
        if any(e != e or abs(e) == INF for e in es): return None
        return min(es), max(es)
    ra = frng(A[0])
    if op == 'fremk':
        y, k = t.p; y1 = y; y = fpred(s, y)
        return (0.0, y) if ra is None else (max(0.0, rnd(s, ra[0] - k * y1)), min(y, rnd(s, ra[1] - k * y1)))
    if ra is None:
        if op in ('sin', 'cos'): return None
        return None
    lo, hi = ra
    if op == 'fneg': return -hi, -lo
    if op == 'fabs':
        if lo >= 0: return lo, hi
        if hi <= 0: return -hi, -lo
        return 0.0, max(-lo, hi)
    if op in ('floor', 'ceil', 'round', 'ftrunc', 'rint', 'fptrunc', 'fpext'):
        if op == 'fptrunc': return r32(lo), r32(hi)
        if op == 'fpext': return lo, hi
        f = FOPS[op]; return f(s, lo), f(s, hi)
    if op == 'sqrt':
        if lo < 0: return None
        return c_sqrt(s, lo), c_sqrt(s, hi)
    if op == 'frem':
        y = A[1]
        if isinstance(y, Term) or not 0 < y < INF: return None
        y = fpred(s, y)
        return (0.0 if lo >= 0 else max(lo, -y)), (0.0 if hi <= 0 else min(hi, y))
    if op == 'sin' or op == 'cos':
        if hi - lo < 3.0:
            f = math.sin if op == 'sin' else math.cos
            l, h = sorted((f(lo), f(hi)))
            # include extrema
            off = 0.0 if op == 'cos' else math.pi / 2
            k0 = math.ceil((lo - off) / math.pi - 1e-9); k1 = math.floor((hi - off) / math.pi + 1e-9)
            for k in range(int(k0), int(k1) + 1):
                if k % 2 == 0: h = 1.0
                else: l = -1.0
            l, h = widen(l, h, s=s)
            return max(-1.0, l - 1e-16), min(1.0, h + 1e-16)
        return -1.0, 1.0
    if op == 'tan':
        if -1.5 < lo and hi < 1.57: return widen(math.tan(lo), math.tan(hi), s=s)
        return None
    if op in ('exp', 'exp10', 'exp2'):
        f = {'exp': math.exp, 'exp10': lambda x: 10.0 ** x, 'exp2': lambda x: 2.0 ** x}[op]
        l, h = widen(f(lo), f(hi), 1e-14, s); return max(l, 0.0), h
    if op in ('log10', 'log', 'log2'):
        if lo <= 0: return None
        f = {'log10': math.log10, 'log': math.log, 'log2': math.log2}[op]
        l, h = f(lo), f(hi)
        return rnd(s, l - 1e-15 - abs(l)*1e-15 - (0 if s == F64 else 1e-6 + abs(l)*3e-7)), rnd(s, h + 1e-15 + abs(h)*1e-15 + (0 if s == F64 else 1e-6 + abs(h)*3e-7))
    if op in ('atan', 'tanh'):
        f = math.atan if op == 'atan' else math.tanh
        return widen(f(lo), f(hi), s=s)
    if op == 'pow':
        rb = frng(A[1])
        if rb is None: return None
        bl, bh = rb
        if bl == bh and bl == int(bl) and 0 <= bl <= 16:
            n = int(bl)
            c = [lo ** n, hi ** n]
            if lo < 0 < hi and n % 2 == 0: c.append(0.0)
            return widen(min(c), max(c), s=s)
        if lo > 0:
            c = [x ** y for x in (lo, hi) for y in (bl, bh)]
            l, h = widen(min(c), max(c), 1e-14, s); return max(l, 0.0), h
        return None
    return None

def cgran(x):
    if x == 0: return 10**6
    if x != x or abs(x) == INF: return None
    n, d = x.as_integer_ratio()
    if d > 1: return -(d.bit_length() - 1)
    return (n & -n).bit_length() - 1
def grn(a):
    return a.g if isinstance(a, Term) else cgran(a)
def gran(t):
    op = t.op; A = t.args
    if op in ('fadd', 'fsub'):
        a, b = grn(A[0]), grn(A[1])
        return None if a is None or b is None else min(a, b)
    if op == 'fmul':
        a, b = grn(A[0]), grn(A[1])
        return None if a is None or b is None else a + b
    if op in ('fneg', 'fabs', 'fpext', 'fptrunc'): return grn(A[0])
    if op in ('floor', 'ceil', 'round', 'ftrunc', 'rint'):
        a = grn(A[0]); return 0 if a is None else max(0, a)
    if op in ('sitofp', 'uitofp'): return 0
    if op == 'ite':
        a, b = grn(A[1]), grn(A[2])
        return None if a is None or b is None else min(a, b)
    if op == 'table':
        gs = [cgran(e) for e in t.p[2]]
        return None if any(g is None for g in gs) else min(gs)
    if op == 'fremk':
        a, b = grn(A[0]), cgran(t.p[0])
        return None if a is None else min(a, b)
    if op == 'var' and len(t.p) > 3: return t.p[3]
    return None

# ---------------------------------------------------------------- smart constructors: integers
def isT(a): return isinstance(a, Term)
def mask(w): return (1 << w) - 1

def pieces(a, w):
    """bit slices low->high: list of (term_or_int, lo, width, termwidth)"""
    if not isT(a): return [(a, 0, w, w)]
    if a.op == 'cat':
        out = []
        for x, pw in zip(a.args, a.p): out += pieces(x, pw)
        return out
    if a.op == 'ext':
        return [(a.args[0], a.p[0], w, a.p[1])]
    return [(a, 0, w, w)]
def from_pieces(ps):
    # merge adjacent
    out = []
    for (x, lo, w, tw) in ps:
        if w == 0: continue
        if not isT(x):
            x = (x >> lo) & mask(w); lo = 0; tw = w
        if out:
            y, yl, yw, ytw = out[-1]
            if not isT(x) and not isT(y):
                out[-1] = (y | (x << yw), 0, yw + w, yw + w); continue
            if isT(x) and x is y and yl + yw == lo:
                out[-1] = (y, yl, yw + w, ytw); continue
        out.append((x, lo, w, tw))
    res = []
    for (x, lo, w, tw) in out:
        if isT(x) and not (lo == 0 and w == tw):
            e = mk('ext', w, (x,), (lo, tw))
            # high bits known zero?
            res.append((e, w))
        else: res.append((x, w))
    if len(res) == 1: return res[0][0]
    # drop: x of width tw zero extended is cat(x,0)
    return mk('cat', sum(r[1] for r in res), [r[0] for r in res], tuple(r[1] for r in res))

def ext(a, w, lo, n):
    """bits [lo, lo+n) of a (width w)"""
    if not isT(a): return (a >> lo) & mask(n)
    if lo == 0 and n == w: return a
    ps = pieces(a, w); out = []; off = 0
    for (x, l, pw, tw) in ps:
        s = max(lo, off); e = min(lo + n, off + pw)
        if s < e: out.append((x, l + s - off, e - s, tw))
        off += pw
    # sext: low part of sext is the argument
    out2 = []
    for (x, l, pw, tw) in out:
        if isT(x) and x.op == 'sext' and l + pw <= x.p:
            out2 += slice_(x.args[0], x.p, l, pw)
        elif isT(x) and x.op in ('add', 'sub', 'mul') and l == 0 and pw < tw:
            # truncation commutes with ring ops: keep as narrower op
            y = [ext(z, tw, 0, pw) for z in x.args]
            r = binop(x.op, pw, y[0], y[1]); out2.append((r, 0, pw, pw))
        elif isT(x) and l > 0 and urange(x, tw)[1] >> l == 0:
            out2.append((0, 0, pw, pw))
        else: out2.append((x, l, pw, tw))
    return from_pieces(out2)
def slice_(a, w, lo, n):
    r = ext(a, w, lo, n)
    return pieces(r, n)
def cat(parts):
    ps = []
    for a, w in parts: ps += pieces(a, w)
    return from_pieces(ps)
def zext(a, w, n):
    if not isT(a): return a
    if n == w: return a
    return cat([(a, w), (0, n - w)])
def sext(a, w, n):
    if not isT(a): return sgn(a, w) & mask(n)
    l, h = srange(a, w)
    if l >= 0: return zext(a, w, n)
    return mk('sext', n, (a,), w)

def linterm(a, w):
    """split add-chain constant: returns (base, const)"""
    if isT(a) and a.op == 'add' and not isT(a.args[1]): return a.args[0], a.args[1]
    return a, 0

def binop(op, w, a, b):
    if not isT(a) and not isT(b): return IOPS[op](w, a, b)
    m = mask(w)
    if w == 1:
        if op == 'and': return band(a, b)
        if op == 'or': return bor(a, b)
        if op in ('xor', 'add', 'sub'): return bxor(a, b)
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        if not isT(a) or (isT(b) and b.id < a.id and op != 'add'): a, b = b, a
    if op == 'add':
        if not isT(b):
            if b == 0: return a
            base, c = linterm(a, w)
            if c: return binop('add', w, base, (b + c) & m)
        else:
            ba, ca = linterm(a, w); bb, cb = linterm(b, w)
            if ca or cb:
                return binop('add', w, binop('add', w, ba, bb), (ca + cb) & m)
            if b.id < a.id: a, b = b, a
            # a + (x - a) -> x
            if b.op == 'sub' and b.args[1] is a: return b.args[0]
            if a.op == 'sub' and a.args[1] is b: return a.args[0]
        return mk('add', w, (a, b))
    if op == 'sub':
        if a is b and isT(a): return 0
        if not isT(b): return binop('add', w, a, (-b) & m)
        ba, ca = linterm(a, w) if isT(a) else (a, 0); bb, cb = linterm(b, w)
        if isT(ba) and ba is bb: return (ca - cb) & m
        if ca or cb: return binop('add', w, binop('sub', w, ba, bb), (ca - cb) & m)
        if isT(a) and a.op == 'add':
            if a.args[0] is b: return a.args[1]
            if a.args[1] is b: return a.args[0]
        return mk('sub', w, (a, b))
    if op == 'mul':
        if not isT(b):
            if b == 0: return 0
            if b == 1: return a
            base, c = linterm(a, w)
            if c: return binop('add', w, binop('mul', w, base, b), (c * b) & m)
            if a.op == 'mul' and not isT(a.args[1]): return binop('mul', w, a.args[0], (a.args[1] * b) & m)
        return mk('mul', w, (a, b))
    if op == 'shl':
        if not isT(b):
            if b >= w: return 0
            if b == 0: return a
            r = urange(a, w)
            if (r[1] << b) <= m and a.op in ('add', 'sub', 'mul', 'var', 'udiv', 'urem', 'fptoui', 'fptosi'): return binop('mul', w, a, 1 << b)
            return cat([(0, b), (ext(a, w, 0, w - b), w - b)])
        return mk('shl', w, (a, b))
    if op == 'lshr':
        if not isT(b):
            if b >= w: return 0
            if b == 0: return a
            return cat([(ext(a, w, b, w - b), w - b), (0, b)])
        return mk('lshr', w, (a, b))
    if op == 'ashr':
        if not isT(b):
            if b == 0: return a
            b = min(b, w - 1)
            return sext(ext(a, w, b, w - b), w - b, w)
        return mk('ashr', w, (a, b))
    if op == 'and':
        if a is b and isT(a): return a
        if not isT(b):
            if b == 0: return 0
            if b == m: return a
            u = urange(a, w)[1]
            if (b & mask(u.bit_length())) == mask(u.bit_length()): return a
            # split mask to runs if few
            runs = []; i = 0
            while i < w:
                bit = (b >> i) & 1; j = i
                while j < w and ((b >> j) & 1) == bit: j += 1
                runs.append((bit, i, j - i)); i = j
            if len(runs) <= 5:
                return cat([(ext(a, w, s, n) if bit else 0, n) for bit, s, n in runs])
        return mk('and', w, (a, b))
    if op in ('or', 'xor'):
        if a is b and isT(a): return a if op == 'or' else 0
        if not isT(b) and b == 0: return a
        if op == 'or' and not isT(b) and b == m: return m
        # sign extension spelled with a mask: x | (x > max ? ~mask : 0)
        if op == 'or':
            for p, q in ((a, b), (b, a)):
                if not (isT(q) and isT(p) and q.op == 'ite' and not isT(q.args[1]) and not isT(q.args[2])): continue
                c, hi, lo = q.args
                if not (c.op == 'icmp' and c.args[0] is p and not isT(c.args[1])): continue
                g = c.p[0]
                k = urange(p, w)[1].bit_length()
                if not 0 < k < w: continue
                h = 1 << (k - 1); r = c.args[1]
                top = (g == 'ugt' or g == 'sgt') and r == h - 1 or (g == 'uge' or g == 'sge') and r == h
                low = (g == 'ult' or g == 'slt') and r == h or (g == 'ule' or g == 'sle') and r == h - 1
                if top and hi == m & ~mask(k) and lo == 0 or low and lo == m & ~mask(k) and hi == 0:
                    return sext(ext(p, w, 0, k), k, w)
        # disjoint merge
        pa, pb = pieces(a, w), pieces(b, w)
        if len(pa) > 1 or len(pb) > 1 or True:
            cuts = set([0, w]); off = 0
            def zero_split(ps):
                out = []
                for (x, l, pw, tw) in ps:
                    if isT(x):
                        # known-zero high part
                        hb = urange(x, tw)[1].bit_length()
                        if l + pw > hb:
                            keep = max(0, hb - l)
                            if keep: out.append((x, l, keep, tw))
                            out.append((0, 0, pw - keep, pw - keep)); continue
                        out.append((x, l, pw, tw))
                    else:
                        # split consts to runs of zero / nonzero
                        v = (x >> l) & mask(pw); i = 0
                        while i < pw:
                            bit = (v >> i) & 1; j = i
                            while j < pw and ((v >> j) & 1) == bit: j += 1
                            out.append(((v >> i) & mask(j - i), 0, j - i, j - i)); i = j
                return out
            pa, pb = zero_split(pa), zero_split(pb)
            for ps in (pa, pb):
                off = 0
                for q in ps:
                    off += q[2]; cuts.add(off)
            cl = sorted(cuts)
            def cut(ps):
                out = {}; off = 0
                for (x, l, pw, tw) in ps:
                    for i in range(len(cl) - 1):
                        s, e = cl[i], cl[i+1]
                        if s >= off and e <= off + pw: out[s] = (x, l + s - off, e - s, tw)
                    off += pw
                return out
            ca, cb = cut(pa), cut(pb); res = []
            for i in range(len(cl) - 1):
                s = cl[i]; n = cl[i+1] - s
                x, y = ca[s], cb[s]
                xz = not isT(x[0]) and (x[0] >> x[1]) & mask(n) == 0
                yz = not isT(y[0]) and (y[0] >> y[1]) & mask(n) == 0
                if xz: res.append(y)
                elif yz: res.append(x)
                elif not isT(x[0]) and not isT(y[0]):
                    u, v = (x[0] >> x[1]) & mask(n), (y[0] >> y[1]) & mask(n)
                    res.append((u | v if op == 'or' else u ^ v, 0, n, n))
                elif op == 'or' and ((not isT(x[0]) and (x[0] >> x[1]) & mask(n) == mask(n)) or (not isT(y[0]) and (y[0] >> y[1]) & mask(n) == mask(n))):
                    res.append((mask(n), 0, n, n))
                else: res = None; break
            if res is not None: return from_pieces(res)
        if op == 'xor' and not isT(b) and b == m: return binop('sub', w, m, a)
        return mk(op, w, (a, b))
    if op in ('udiv', 'urem'):
        if not isT(b) and b and (b & (b-1)) == 0:
            k = b.bit_length() - 1
            if op == 'udiv': return binop('lshr', w, a, k)
            return binop('and', w, a, b - 1)
        if not isT(b) and b == 0: return 0
    if op in ('sdiv', 'srem'):
        if srange(a, w)[0] >= 0 and srange(b, w)[0] >= 0: return binop('u' + op[1:], w, a, b)
    return mk(op, w, (a, b))

# booleans
def bnot(a):
    if not isT(a): return 1 - a
    if a.op == 'not': return a.args[0]
    if a.op == 'icmp':
        pr, w = a.p
        neg = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}
        return mk('icmp', 1, a.args, (neg[pr], w))
    return mk('not', 1, (a,))
def band(a, b):
    if not isT(a): return b if a else 0
    if not isT(b): return a if b else 0
    if a is b: return a
    if a is bnot(b): return 0
    return mk('band', 1, (a, b) if a.id < b.id else (b, a))
def bor(a, b):
    if not isT(a): return 1 if a else b
    if not isT(b): return 1 if b else a
    if a is b: return a
    if a is bnot(b): return 1
    return mk('bor', 1, (a, b) if a.id < b.id else (b, a))
def bxor(a, b):
    if not isT(a): return bnot(b) if a else b
    if not isT(b): return bnot(a) if b else a
    if a is b: return 0
    return mk('bxor', 1, (a, b) if a.id < b.id else (b, a))
def signbit(s, x):
    """sign bit of a float"""
    if not isT(x): return int(math.copysign(1, x) < 0)
    op = x.op
    if op == 'fabs': return 0
    if op == 'fneg': return bnot(signbit(s, x.args[0]))
    r = frng(x)
    if r is not None:
        if r[0] > 0: return 0
        if r[1] < 0: return 1
        if op in ('fmul', 'fdiv') and all(frng(y) is not None if isT(y) else y == y for y in x.args): return bxor(signbit(s, x.args[0]), signbit(s, x.args[1]))
        if op in ('fpext', 'fptrunc') and frng(x.args[0]) is not None: return signbit(x.args[0].s, x.args[0])
    if op == 'ite' and isT(x.args[0]):
        p, q = signbit(s, x.args[1]), signbit(s, x.args[2])
        if not isT(p) or not isT(q): return ite(1, x.args[0], p, q)
    return mk('icmp', 1, (mk('fbits', -s, (x,)), 0), ('slt', -s))
def icmp(pr, w, a, b):
    if not isT(a) and not isT(b): return c_icmp(pr, w, a, b)
    if isT(a) and a.op == 'fbits' and not isT(b):
        if pr == 'slt' and b == 0: return signbit(a.args[0].s, a.args[0])
        if pr == 'sgt' and b == mask(w): return bnot(signbit(a.args[0].s, a.args[0]))
    if a is b: return int(pr in ('eq', 'ule', 'uge', 'sle', 'sge'))
    if w == 1 and pr in ('eq', 'ne'):
        r = bxor(a, b); return r if pr == 'ne' else bnot(r)
    if pr in ('eq', 'ne'):
        if not isT(a): a, b = b, a
        # zext compare with const
        if not isT(b) and isT(a) and a.op == 'cat':
            # compare piecewise when all pieces but one are const
            off = 0; sym = []
            for x, pw in zip(a.args, a.p):
                v = (b >> off) & mask(pw)
                if not isT(x):
                    if x != v: return int(pr == 'ne')
                else: sym.append((x, pw, v))
                off += pw
            if len(sym) == 1: return icmp(pr, sym[0][1], sym[0][0], sym[0][2])
        if not isT(b) and isT(a) and a.op == 'sext':
            n = a.p
            if sgn(b, w) == sgn(b & mask(n), n): return icmp(pr, n, a.args[0], b & mask(n))
            return int(pr == 'ne')
        base, c = linterm(a, w)
        if c and not isT(b): return icmp(pr, w, base, (b - c) & mask(w))
        if not isT(b) and isT(a) and a.op == 'ite' and not isT(a.args[1]) and not isT(a.args[2]):
            x = a.args[1] == b; y = a.args[2] == b
            r = a.args[0] if x and not y else bnot(a.args[0]) if y and not x else int(x)
            return r if pr == 'eq' else bnot(r)
    return mk('icmp', 1, (a, b), (pr, w))
def fcmp(pr, s, a, b):
    if not isT(a) and not isT(b): return c_fcmp(pr, a, b)
    if (not isT(a) and a != a) or (not isT(b) and b != b): return int(pr[0] == 'u' and pr != 'ult' or pr in ('uno','une','ult','ule','ugt','uge','ueq'))
    if not isT(b) and abs(b) == INF and frng(a) is not None: return c_fcmp(pr, 0.0, b)
    if not isT(a) and abs(a) == INF and frng(b) is not None: return c_fcmp(pr, a, 0.0)
    if a is b and pr not in ('uno', 'ord'):
        if frng(a) is not None: return int(pr[1:] in ('eq', 'le', 'ge'))
    if pr in ('uno', 'ord'):
        if frng(a) is not None and frng(b) is not None: return int(pr == 'ord')
    # widen comparisons of extended values
    if isT(a) and a.op == 'fpext' and isT(b) and b.op == 'fpext': return fcmp(pr, F32, a.args[0], b.args[0])
    if frng(a) is not None and frng(b) is not None and pr[0] == 'u' : pr = 'o' + pr[1:]
    if pr in ('ogt', 'oge', 'ugt', 'uge'):
        pr = pr[0] + ('lt' if pr[1:] == 'gt' else 'le'); a, b = b, a
    if pr == 'one' and frng(a) is not None and frng(b) is not None: return bnot(mk('fcmp', 1, (a, b), 'oeq'))
    if pr == 'une': return bnot(fcmp('oeq', s, a, b))
    return mk('fcmp', 1, (a, b), pr)
def ite(s, c, a, b):
    if not isT(c): return a if c else b
    if a is b or (not isT(a) and not isT(b) and type(a) == type(b) and a == b and (a != 0 or isinstance(a, int) or math.copysign(1, a) == math.copysign(1, b))): return a
    if s == 1:
        if not isT(a): return bor(c, b) if a else band(bnot(c), b)
        if not isT(b): return bor(bnot(c), a) if b else band(c, a)
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'not': return ite(s, c.args[0], b, a)
    return mk('ite', s, (c, a, b))

# ---------------------------------------------------------------- floats
def fop(op, s, *a):
    if not any(isT(x) for x in a):
        try: return FOPS[op](s, *a)
        except OverflowError: return INF
    if op == 'fdiv' and not isT(a[1]) and a[1] != 0 and abs(a[1]) != INF and abs(math.frexp(a[1])[0]) == 0.5 and abs(math.frexp(a[1])[1]) < 100:
        return fop('fmul', s, a[0], 1.0 / a[1])      # same value: both are the correctly rounded quotient by a power of two
    if op == 'fdiv' and not isT(a[1]) and a[1] == 0:
        r = frng(a[0])
        if r is not None:
            sg = math.copysign(1, a[1])
            if r[0] > 0: return sg * INF
            if r[1] < 0: return -sg * INF
            return ite(s, fcmp('olt', s, a[0], 0.0), -sg * INF, ite(s, fcmp('oeq', s, a[0], 0.0), math.nan, sg * INF))
    if op in ('fadd', 'fsub', 'fmul', 'fdiv') and any(not isT(x) and (x != x or abs(x) == INF) for x in a):
        # an infinite or NaN operand and a finite one
        x, y = a
        if any(not isT(k) and k != k for k in a): return math.nan
        if op in ('fadd', 'fsub'):
            if not isT(x) and frng(y) is not None: return x
            if not isT(y) and frng(x) is not None: return y if op == 'fadd' else -y
        elif op == 'fdiv' and not isT(y):
            r = frng(x)
            if r is not None and (r[0] > 0 or r[1] < 0): return 0.0 if (r[0] > 0) == (y > 0) else -0.0
        elif op == 'fmul':
            k, z = (x, y) if not isT(x) else (y, x)
            r = frng(z)
            if r is not None and (r[0] > 0 or r[1] < 0): return k if r[0] > 0 else -k
    if op == 'fneg':
        x = a[0]
        if x.op == 'fneg': return x.args[0]
    elif op == 'fabs':
        x = a[0]
        if x.op in ('fabs',): return x
        if x.op == 'fneg': return fop('fabs', s, x.args[0])
        if x.op == 'fsub' and isT(x.args[0]) and isT(x.args[1]) and x.args[0].id > x.args[1].id: return fop('fabs', s, fop('fsub', s, x.args[1], x.args[0]))
        r = frng(x)
        if r is not None and r[0] > 0: return x
    elif op == 'fmul':
        x, y = a
        if not isT(x): x, y = y, x
        if not isT(y):
            if y == 1.0: return x
            if y == -1.0: return fop('fneg', s, x)
        elif y.id < x.id: x, y = y, x
        a = (x, y)
    elif op == 'fadd':
        x, y = a
        if not isT(x): x, y = y, x
        if not isT(y):
            if y == 0.0:
                if math.copysign(1, y) < 0: return x
                # x + 0.0 == x except -0 -> +0 ; keep unless x known nonzero
                r = frng(x)
                if r is not None and (r[0] > 0 or r[1] < 0): return x
                if x.op == 'fadd' and not isT(x.args[1]) and x.args[1] == 0.0: return x
        elif y.id < x.id: x, y = y, x
        a = (x, y)
    elif op == 'fsub':
        x, y = a
        if not isT(y) and y == 0.0 and math.copysign(1, y) > 0: return x
        if not isT(x) and x == 0.0 and math.copysign(1, x) < 0: return fop('fneg', s, y)
        if x is y and frng(x) is not None: return 0.0
    elif op == 'fdiv':
        x, y = a
        if not isT(y):
            if y == 1.0: return x
            if y != 0 and abs(y) != INF and y == y:
                m, e = math.frexp(y)
                if abs(m) == 0.5 and abs(e) < 100: return fop('fmul', s, x, 1.0 / y)
    elif op in ('floor', 'ceil', 'round', 'ftrunc', 'rint'):
        g = grn(a[0])
        if g is not None and g >= 0: return a[0]
    return mk(op, s, a)
def fpext(a):
    if not isT(a): return a
    return mk('fpext', F64, (a,))
def fptrunc(a):
    if not isT(a): return r32(a)
    if a.op == 'fpext': return a.args[0]
    return mk('fptrunc', F32, (a,))
def itofp(s, signed, w, a):
    if not isT(a): return c_itofp(s, sgn(a, w) if signed else a)
    if signed and srange(a, w)[0] >= 0: signed = False
    # strip zext
    if not signed and a.op == 'cat' and not isT(a.args[-1]) and a.args[-1] == 0:
        ps = list(zip(a.args, a.p)); hw = ps.pop()[1]
        return itofp(s, False, w - hw, cat(ps))
    if signed and a.op == 'sext': return itofp(s, True, a.p, a.args[0])
    return mk('sitofp' if signed else 'uitofp', s, (a,), w)
def fptoi(w, signed, a):
    if not isT(a): return c_fptoi(w, signed, a)
    # fptoi(itofp(x)) = x when exact & in range
    x = a
    if x.op == 'fpext': x = x.args[0]
    if x.op in ('sitofp', 'uitofp'):
        xs = x.s; p = 24 if xs == F32 else 53; iw = x.p
        l, h = (srange if x.op == 'sitofp' else urange)(x.args[0], iw)
        if max(abs(l), abs(h)) <= (1 << p):
            L, H = (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, mask(w))
            if L <= l and h <= H:
                y = x.args[0]
                if iw == w: return y
                if iw > w: return ext(y, iw, 0, w)
                return sext(y, iw, w) if x.op == 'sitofp' else zext(y, iw, w)
    return mk('fptosi' if signed else 'fptoui', w, (a,))
def tobits(s, a):
    if not isT(a): return fbits(s, a)
    if a.op == 'bitsf': return a.args[0]
    return mk('fbits', -s, (a,))
def frombits(s, a):
    if not isT(a): return bitsf(s, a)
    if a.op == 'fbits': return a.args[0]
    # |x| via mask / sign flips
    if a.op == 'cat' and len(a.args) == 2 and isT(a.args[0]) and not isT(a.args[1]) and a.p[1] == 1:
        e = a.args[0]
        if e.op == 'ext' and e.p[0] == 0 and e.args[0].op == 'fbits' and e.p[1] == -s:
            y = fop('fabs', s, e.args[0].args[0])
            return y if a.args[1] == 0 else fop('fneg', s, y)
    return mk('bitsf', s, (a,))
def table(s, idx, lo, entries):
    if not isT(idx): return entries[idx - lo]
    return mk('table', s, (idx,), (lo, idx.s, tuple(entries)))

# ---------------------------------------------------------------- concrete evaluation
def evaluate(ts, env):
    """evaluate terms under env {var index: value}; returns list of concrete values"""
    memo = {}
    out = []
    for t in ts:
        out.append(_eval(t, env, memo))
    return out
def _eval(t, env, memo):
    if not isinstance(t, Term): return t
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        need = [a for a in x.args if isinstance(a, Term) and a.id not in memo]
        if need:
            st.extend(need); continue
        memo[x.id] = ev1(x, [memo[a.id] if isinstance(a, Term) else a for a in x.args], env)
        st.pop()
    return memo[t.id]
def ev1(x, a, env):
    op = x.op; s = x.s
    if op == 'var': return env[x.p[0]]
    if op in IOPS: return IOPS[op](s, a[0], a[1])
    if op in FOPS:
        try: return FOPS[op](s, *a)
        except OverflowError: return INF
    if op == 'fcmp': return c_fcmp(x.p, a[0], a[1])
    if op == 'icmp': return c_icmp(x.p[0], x.p[1], a[0], a[1])
    if op == 'not': return 1 - a[0]
    if op == 'band': return a[0] & a[1]
    if op == 'bor': return a[0] | a[1]
    if op == 'bxor': return a[0] ^ a[1]
    if op == 'ite': return a[1] if a[0] else a[2]
    if op == 'cat':
        v = off = 0
        for y, w in zip(a, x.p): v |= y << off; off += w
        return v
    if op == 'ext': return (a[0] >> x.p[0]) & mask(s)
    if op == 'sext': return sgn(a[0], x.p) & mask(s)
    if op == 'fpext': return a[0]
    if op == 'fptrunc': return r32(a[0])
    if op == 'sitofp': return c_itofp(s, sgn(a[0], x.p))
    if op == 'uitofp': return c_itofp(s, a[0])
    if op == 'fptosi': return c_fptoi(s, True, a[0])
    if op == 'fptoui': return c_fptoi(s, False, a[0])
    if op == 'fbits': return fbits(x.args[0].s, a[0])
    if op == 'bitsf': return bitsf(s, a[0])
    if op == 'table':
        i = a[0] - x.p[0]
        return x.p[2][i] if 0 <= i < len(x.p[2]) else x.p[2][0]
    if op == 'fremk': return rnd(s, a[0] - x.p[1] * x.p[0])
    if op == 'opaque': return 0
    raise Exception('eval ' + op)

def vars_of(ts):
    seen = set(); out = {}
    st = [t for t in ts if isinstance(t, Term)]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'var': out[x.p[0]] = x
        for a in x.args:
            if isinstance(a, Term) and a.id not in seen: st.append(a)
    return out
