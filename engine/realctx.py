"""Sound relaxation of terms into real/integer arithmetic, decided by z3.

Every float term is represented exactly as a polynomial over atoms (inputs, bounded rounding errors,
integer atoms for floor/round/casts, reciprocal / root / libm atoms with contracts); every bit-vector term
as an integer-valued polynomial whose value lies in the term's range.  Whatever cannot be represented becomes
a fresh unconstrained (bounded) atom, so the relaxation only ever adds behaviours: unsat here means unsat for
the real program."""
import math, time
from fractions import Fraction as Fr
import z3
import terms as T
import fpx
from terms import Term, F32, F64, isT, urange, srange, frng

ZERO = Fr(0); ONE = Fr(1); HALF = Fr(1, 2)

class Atom:
    __slots__ = ('id', 'lo', 'hi', 'isint', 'noise', 'z', 'defs', 'name', 'scope', 'rule', 'dep')

class Val:
    __slots__ = ('p', 'lo', 'hi', 'dep')
    def __init__(s, p, lo, hi, dep): s.p = p; s.lo = lo; s.hi = hi; s.dep = dep

def padd(a, b, k=ONE):
    if not b: return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        v = c * k if v is None else v + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}
def pconst(c): return {(): Fr(c)} if c else {}
def imul(al, ah, bl, bh):
    if al is None or ah is None or bl is None or bh is None:
        if al is not None and bl is not None and al >= 0 and bl >= 0:
            return al * bl, None
        return None, None
    c = (al * bl, al * bh, ah * bl, ah * bh)
    return min(c), max(c)

MAXBITS = 220

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.unsat = 0; s.sat = 0; s.unknown = 0; s.exact = 0; s.trivial = 0

class Ctx:
    def __init__(self, stats, timeout=8000):
        self.atoms = []; self.cache = {}; self.overlay = []  # list of lists of keys to remove
        self.monos = {}       # mono -> z3 var
        self.solver = z3.Solver(); self.solver.set('timeout', timeout); self.solver.set('random_seed', 1)
        self.timeout = timeout
        self.pc = []          # asserted pc terms
        self.asserted = [set()]   # per scope: ids of atoms/monos asserted
        self.stats = stats
        self.bcache = {}
        self.fnatoms = {}     # libm name -> list of (poly key, atom)
        self.invs = []        # (poly, atom)
        self.irounds = {}; self.samep = {}; self.rounds = {}      # term id -> (P, Val, sort)
        self.depth_of = {}
        self.strict = False; self.named = {}
        self.zmono = {}
        self.pending = []; self.live_monos = set()

    # ------------------------------------------------------------ atoms
    def atom(self, lo, hi, isint=False, noise=False, name='a', dep=False):
        a = Atom(); a.id = len(self.atoms); a.lo = lo; a.hi = hi; a.isint = isint; a.noise = noise
        a.z = z3.Int('%s%d' % (name, a.id)) if isint else z3.Real('%s%d' % (name, a.id))
        a.defs = []; a.name = name; a.rule = None; a.dep = dep
        self.atoms.append(a)
        return a
    def mrange(self, m):
        lo = hi = ONE
        i = 0; n = len(m)
        while i < n:
            j = i
            while j < n and m[j] == m[i]: j += 1
            a = self.atoms[m[i]]; k = j - i
            al, ah = a.lo, a.hi
            if k > 1 and al is not None and ah is not None:
                c = [al ** k, ah ** k]
                if k % 2 == 0 and al < 0 < ah: c.append(ZERO)
                al, ah = min(c), max(c)
            elif k > 1:
                al, ah = (al ** k, None) if al is not None and al >= 0 else (None, None)
            lo, hi = imul(lo, hi, al, ah)
            i = j
        return lo, hi
    def prange(self, p):
        lo = hi = ZERO
        for m, c in p.items():
            if m == (): l = h = c
            else:
                l, h = self.mrange(m)
                if c > 0: l, h = (None if l is None else c * l), (None if h is None else c * h)
                else: l, h = (None if h is None else c * h), (None if l is None else c * l)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            if lo is None and hi is None: return None, None
        return lo, hi
    def pmul(self, a, b):
        if len(a) == 1 and () in a: return pscale(b, a[()])
        if len(b) == 1 and () in b: return pscale(a, b[()])
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        r = {m: c for m, c in r.items() if c}
        return self.reduce(r)
    def reduce(self, p):
        """apply square rules of sqrt atoms"""
        for m in p:
            for i in range(len(m) - 1):
                if m[i] == m[i+1] and self.atoms[m[i]].rule is not None:
                    c = p[m]; rest = m[:i] + m[i+2:]
                    q = {k: v for k, v in p.items() if k != m}
                    return self.reduce(padd(q, self.pmul({rest: c}, self.atoms[m[i]].rule)))
        return p
    def isnoise(self, m):
        return any(self.atoms[i].noise for i in m)

    def finish(self, p, lo, hi, dep, extra=ZERO):
        """condense noise and large coefficients; returns Val.  extra: additional absolute uncertainty"""
        big = None; noise1 = 0
        for m, c in p.items():
            if len(m) > 1 and self.isnoise(m) or c.denominator.bit_length() + c.numerator.bit_length() > 2 * MAXBITS: big = True
            elif len(m) == 1 and self.atoms[m[0]].noise: noise1 += 1
        if big or extra:
            q = {}; ext = Fr(extra)
            for m, c in p.items():
                if len(m) > 1 and self.isnoise(m):
                    l, h = self.mrange(m)
                    if l is None or h is None: q[m] = c; continue
                    ext += abs(c) * max(abs(l), abs(h)); continue
                if c.denominator.bit_length() + c.numerator.bit_length() > 2 * MAXBITS:
                    l, h = self.mrange(m)
                    if l is not None and h is not None:
                        e = c.numerator.bit_length() - c.denominator.bit_length()
                        sh = 120 - e
                        c2 = Fr(round(c * (Fr(2) ** sh))) / (Fr(2) ** sh)
                        ext += abs(c - c2) * max(abs(l), abs(h)); c = c2
                if c: q[m] = c
            p = q
            if ext:
                ext = up(ext)
                a = self.atom(-ext, ext, noise=True, name='e', dep=dep)
                p[(a.id,)] = ONE
        if noise1 > 10:
            q = {}; lin = {}
            for m, c in p.items():
                if len(m) == 1 and self.atoms[m[0]].noise: lin[m] = c
                else: q[m] = c
            b = ZERO
            for m, c in lin.items():
                a = self.atoms[m[0]]; b += abs(c) * max(abs(a.lo), abs(a.hi))
            b = up(b)
            a = self.atom(-b, b, noise=True, name='E', dep=dep)
            a.defs.append(('eq', padd({(a.id,): ONE}, lin, -ONE)))
            q[(a.id,)] = ONE; p = q
        pl, ph = self.prange(p)
        if pl is not None and (lo is None or pl > lo): lo = pl
        if ph is not None and (hi is None or ph < hi): hi = ph
        if len(p) > 40:
            a = self.atom(lo, hi, name='D', dep=dep)
            a.defs.append(('eq', padd({(a.id,): ONE}, p, -ONE)))
            p = {(a.id,): ONE}
        return Val(p, lo, hi, dep)

    def abbrev(self, v):
        """name a polynomial by one atom (shared between near-identical polynomials)"""
        p = v.p
        core = {m: c for m, c in p.items() if not self.isnoise(m)}
        if len(core) <= 1 and len(p) <= 1: return v
        for q, a in self.fnatoms.setdefault('=def', []):
            d = padd(p, q, -ONE)
            l, h = self.prange(d)
            if l is not None and h is not None and max(abs(l), abs(h)) <= Fr(1, 10**7) * max(1, abs(a.lo), abs(a.hi)) and (not a.dep or v.dep or True) and self.alive(a):
                return self.finish(padd({(a.id,): ONE}, d), v.lo, v.hi, v.dep or a.dep)
        a = self.atom(v.lo, v.hi, name='D', dep=v.dep)
        a.defs.append(('eq', padd({(a.id,): ONE}, p, -ONE)))
        self.fnatoms['=def'].append((p, a))
        return Val({(a.id,): ONE}, v.lo, v.hi, v.dep)
    def alive(self, a):
        return True

    # ------------------------------------------------------------ encoding
    def enc(self, t):
        """Val for a term/number; None if the value may be NaN/inf"""
        if not isT(t):
            if isinstance(t, float):
                if t != t or abs(t) == math.inf: return None
                c = Fr(t); return Val(pconst(c), c, c, False)
            return Val(pconst(t), Fr(t), Fr(t), False)
        r = self.cache.get(t.id, 0)
        if r != 0: return r
        # iterative post-order to avoid deep recursion
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.cache: st.pop(); continue
            need = [a for a in x.args if isT(a) and a.s != 1 and a.id not in self.cache]
            if need: st.extend(need); continue
            v = self.enc1(x)
            self.cache[x.id] = v
            dep = v.dep if v is not None else any(self.cache[a.id] is not None and self.cache[a.id].dep for a in x.args if isT(a) and a.id in self.cache) or getattr(self, '_dep', False)
            if dep and self.overlay: self.overlay[-1].append(x.id)
            st.pop()
        return self.cache[t.id]

    def enc1(self, t):
        self._dep = False
        try:
            v = self.enc_f(t) if t.s < 0 else self.enc_i(t)
        except OverflowError:
            v = None
        if v is None and t.s > 0: v = self.opaque_i(t)
        if v is None and t.s < 0:
            r = frng(t)
            if r is not None:
                a = self.atom(Fr(r[0]), Fr(r[1]), name='u')
                v = Val({(a.id,): ONE}, a.lo, a.hi, False)
        return v
    def opaque_i(self, t):
        a = self.atom(Fr(t.lo), Fr(t.hi), isint=True, name='o')
        return Val({(a.id,): ONE}, a.lo, a.hi, False)

    def rounded(self, p, t, dep, exact=False, rel=None):
        """value of float op result: exact polynomial p rounded to sort t.s"""
        s = t.s; P = 24 if s == F32 else 53
        r = frng(t)
        pl, ph = self.prange(p)
        tl = th = None
        if r is not None: tl, th = Fr(r[0]), Fr(r[1])
        # bound of exact magnitude
        mags = []
        if pl is not None and ph is not None: mags.append(max(abs(pl), abs(ph)))
        if r is not None:
            m = max(abs(tl), abs(th)); mags.append(m * (1 + Fr(1, 2 ** P)) + Fr(1, 2**1070))
        if not mags: return None
        m = min(mags)
        if not p: return Val({}, ZERO, ZERO, dep)
        big = Fr(2) ** (128 if s == F32 else 1024)
        if m >= big: return None
        g = T.gran(t)                       # grid of the exact result (t.g is that of the rounded one)
        if exact or (g is not None and m <= Fr(2) ** (g + P)):
            v = self.finish(p, tl, th, dep)
            return v
        key = None
        if not dep and not rel:
            # equal exact values round to equal results
            key = (s, frozenset(p.items())); h = self.samep.get(key)
            if h is not None:
                v = h if tl is None or h.lo is None or h.hi is None else Val(h.p, max(h.lo, tl), min(h.hi, th), False)
                self.rounds[t.id] = (p, v, s)
                return v
        e = half_ulp(m, P, s)
        if rel: e = e + m * rel
        a = self.atom(-e, e, noise=True, name='e', dep=dep)
        q = dict(p); q[(a.id,)] = q.get((a.id,), ZERO) + ONE
        v = self.finish(q, tl, th, dep)
        if key: self.samep[key] = v
        self.rounds[t.id] = (p, v, s)
        return v

    def enc_f(self, t):
        op = t.op; A = t.args; s = t.s
        if op == 'var':
            lo, hi = Fr(t.p[1]), Fr(t.p[2])
            a = self.atom(lo, hi, name='xf' if s == F32 else 'x')
            return Val({(a.id,): ONE}, lo, hi, False)
        if op == 'ite':
            x, y = self.enc(A[1]), self.enc(A[2])
            if x is None or y is None: return None
            c = self.b(A[0])
            a = self.atom(min(x.lo, y.lo), max(x.hi, y.hi), name='i')
            a.defs.append(('ite', A[0], padd({(a.id,): ONE}, x.p, -ONE), padd({(a.id,): ONE}, y.p, -ONE)))
            a.dep = x.dep or y.dep
            return Val({(a.id,): ONE}, a.lo, a.hi, x.dep or y.dep)
        if op == 'table': return self.enc_table(t)
        if op == 'bitsf':
            return self.enc_bitsf(t)
        if op in ('sitofp', 'uitofp'):
            v = self.signed(A[0], t.p) if op == 'sitofp' else self.unsigned(A[0], t.p)
            return self.rounded(v.p, t, v.dep)
        x = self.enc(A[0])
        if x is None:
            if op in ('fmul', 'fadd'): return None
            return None
        if op == 'fneg': return Val(pscale(x.p, -ONE), -x.hi, -x.lo, x.dep)
        if op == 'fpext': return x
        if op == 'fptrunc':
            ex = False
            if len(x.p) == 1:
                (m, c), = x.p.items()
                if len(m) == 1 and self.atoms[m[0]].name == 'xf' and abs(c) == 1: ex = True      # an f32 input, widened and narrowed again
            return self.rounded(x.p, t, x.dep, ex)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            y = self.enc(A[1])
            if y is None: return None
            dep = x.dep or y.dep
            if op in ('fadd', 'fsub'):
                if not y.p: return x
                if not x.p: return y if op == 'fadd' else Val(pscale(y.p, -ONE), -y.hi, -y.lo, y.dep)
            if op == 'fadd': return self.rounded(padd(x.p, y.p), t, dep)
            if op == 'fsub':
                ex = False
                b = A[1]
                if isT(b) and b.op in ('floor', 'ftrunc') and b.args[0] is A[0] and (x.lo >= 0 or b.op == 'ftrunc'): ex = True
                p = padd(x.p, y.p, -ONE)
                # Sterbenz
                if not ex and x.lo > 0 and y.lo > 0 and y.hi <= 2 * x.lo and x.hi <= 2 * y.lo: ex = True
                return self.rounded(p, t, dep, ex)
            if op == 'fmul':
                if len(x.p) * len(y.p) > 60:
                    if len(x.p) > 4: x = self.abbrev(x)
                    if len(y.p) > 4: y = self.abbrev(y)
                p = self.pmul(self.recancel(x.p, y.p), self.recancel(y.p, x.p))
                for core, a, d_ in self.invs:
                    if any(a.id in m for m in p): p = self.reduce_inv(p, core, a)
                ex = False
                for k in A:
                    if not isT(k) and k != 0 and abs(math.frexp(k)[0]) == 0.5 and abs(math.frexp(k)[1]) < 60:
                        o = x if k is A[1] else y
                        tiny = Fr(1, 2**60) if s == F32 else Fr(1, 2**900)
                        if abs(math.frexp(k)[1]) >= 1 and k >= 1: ex = True      # scaling up is exact
                        elif o.lo > tiny or o.hi < -tiny: ex = True
                return self.rounded(p, t, dep, ex)
            # fdiv
            if not isT(A[1]):
                if A[1] == 0 or A[1] != A[1] or abs(A[1]) == math.inf: return None
                return self.rounded(pscale(x.p, ONE / Fr(A[1])), t, dep)
            q = self.divide(x.p, y.p)
            if q is None and len(y.p) > 1 and self.inverse_of({m: c for m, c in y.p.items() if not self.isnoise(m)}) is None and all(len(m) <= 1 for m in y.p) and any(m and self.atoms[m[0]].noise for m in y.p):
                # name a linear divisor, so that a later product with the same divisor cancels exactly
                gl, gh = self.prange(y.p)
                a = self.atom(gl, gh, name='D')
                self.named[a.id] = y.p
                a.defs.append(('eq', padd({(a.id,): ONE}, y.p, -ONE)))
                neg = pscale(y.p, -ONE); yp = y.p
                for i, v in self.cache.items():      # the definition holds on every path
                    if v is None or len(v.p) != len(yp): continue
                    if v.p == yp: self.cache[i] = Val({(a.id,): ONE}, v.lo, v.hi, v.dep)
                    elif v.p == neg: self.cache[i] = Val({(a.id,): -ONE}, v.lo, v.hi, v.dep)
                y = Val({(a.id,): ONE}, y.lo, y.hi, y.dep)
                x = self.enc(A[0])
            inv = self.inv(y)
            if inv is None: return None
            dep = dep or inv.dep
            # cancel common factor
            if q is not None: return self.rounded(q, t, dep)
            if len(x.p) > 12: x = self.abbrev(x)
            p = self.pmul(x.p, inv.p)
            return self.rounded(p, t, dep)
        if op == 'fabs':
            if x.lo >= 0: return x
            if x.hi <= 0: return Val(pscale(x.p, -ONE), -x.hi, -x.lo, x.dep)
            sg = self.sign(x)
            if sg is not None:
                self._dep = True
                v = x if sg > 0 else Val(pscale(x.p, -ONE), -x.hi, -x.lo, True)
                return Val(v.p, max(v.lo, ZERO), v.hi, True)
            a = self.atom(ZERO, max(-x.lo, x.hi), name='abs', dep=x.dep)
            z = {(a.id,): ONE}
            a.defs.append(('abs', x.p, padd(z, x.p, -ONE), padd(z, x.p)))
            return Val(z, a.lo, a.hi, x.dep)
        if op in ('floor', 'ceil', 'ftrunc', 'round', 'rint'):
            return self.enc_round(t, x)
        if op == 'sqrt':
            if x.lo < 0: return None
            core = {m: c for m, c in x.p.items() if not self.isnoise(m)}
            err = self.noise_bound(x.p)
            lo, hi = fsqrt_lo(max(x.lo, ZERO)), fsqrt_hi(x.hi)
            cl, ch = self.prange(core)
            if cl is None or cl < 0: cl = ZERO
            lo2, hi2 = fsqrt_lo(cl), fsqrt_hi(ch)
            # share the atom
            for q, a in self.fnatoms.setdefault('sqrt', []):
                if q == core: break
            else:
                a = self.atom(lo2, hi2, name='sq', dep=False)
                a.rule = core
                self.fnatoms['sqrt'].append((core, a))
            # |sqrt(c+e)-sqrt(c)| <= |e| / (sqrt(lo)+...) or sqrt|e|
            d = fsqrt_hi(err)
            if lo2 > 0: d = min(d, err / lo2)
            p = {(a.id,): ONE}
            if d: p = self.finish(p, None, None, x.dep, extra=d).p
            return self.rounded(p, t, x.dep)
        if op in T.LIBFN: return self.enc_lib(t, x)
        if op == 'fremk':
            y, k = t.p
            return self.finish(padd(x.p, pconst(-Fr(y) * k)), ZERO, Fr(T.fpred(s, y)), x.dep)
        if op == 'frem':
            y = A[1]
            if isT(y) or not (y > 0) or y == math.inf or x.lo < 0: return None
            y = Fr(y); q0, q1 = Fr(math.floor(x.lo / y)), Fr(math.floor(x.hi / y))
            n = self.atom(q0, q1, isint=True, name='q', dep=x.dep)
            p = padd(x.p, {(n.id,): -y})
            n.defs.append(('rng', p, ZERO, False, y, True))      # 0 <= x - n*y < y ; fmod is exact
            r = frng(t)
            return self.finish(p, ZERO, Fr(T.fpred(s, A[1])), x.dep)
        if op == 'fma':
            y, z = self.enc(A[1]), self.enc(A[2])
            if y is None or z is None: return None
            return self.rounded(padd(self.pmul(x.p, y.p), z.p), t, x.dep or y.dep or z.dep)
        return None

    def noise_bound(self, p):
        e = ZERO
        for m, c in p.items():
            if self.isnoise(m):
                l, h = self.mrange(m)
                e += abs(c) * max(abs(l), abs(h))
        return e

    def divide(self, p, g):
        """p == c*g (constant multiple)?  returns constant polynomial"""
        if len(p) != len(g) or not g: return None
        k = None
        for m, c in g.items():
            d = p.get(m)
            if d is None: return None
            r = d / c
            if k is None: k = r
            elif k != r: return None
        return pconst(k)

    def sign(self, x):
        """path-dependent sign of a value, if decided by the current path condition"""
        if not self.overlay: return None
        if self.entails(('gt', x.p)): return 1
        if self.entails(('lt', x.p)): return -1
        return None

    def inv(self, y):
        lo, hi, dep = y.lo, y.hi, y.dep
        if lo <= 0 <= hi:
            if not self.overlay: return None
            # ask the solver for a bound under the path condition
            self._dep = True
            for k in (3, 6, 9, 12, 16, 20, 30):
                b = Fr(1, 2 ** k)
                if b > max(abs(lo), abs(hi)): continue
                if hi > b and self.entails(('ge', padd(y.p, pconst(b), -ONE))): lo = b; dep = True; break
                if lo < -b and self.entails(('le', padd(y.p, pconst(-b), -ONE))): hi = -b; dep = True; break
            else: return None
        core = {m: c for m, c in y.p.items() if not self.isnoise(m)}
        if not core: return None
        if len(core) == 1 and () in core:
            core_const = core[()]
        err = self.noise_bound(y.p)
        cl, ch = lo - err, hi + err
        if cl <= 0 <= ch: return None
        # look for a near-identical denominator up to a constant factor
        lead = max(core)   # deterministic monomial
        for q, a, dq in self.invs:
            if len(q) != len(core): continue
            if lead not in q: continue
            k = core[lead] / q[lead]
            d = padd(core, pscale(q, k), -ONE)
            l, h = self.prange(d) if d else (ZERO, ZERO)
            if l is None or h is None: continue
            dm = max(abs(l), abs(h))
            mn = min(abs(cl), abs(ch))
            if dm <= mn * Fr(1, 10**6):
                # 1/(y) = 1/(k*q + d + e)
                tot = dm + err
                inner = {(a.id,): ONE / k}
                e = tot / (mn * (mn - tot)) if mn > tot else None
                if e is None: continue
                return self.finish(inner, None, None, dep or dq, extra=e)
        b = self.inverse_of(core)
        if b is not None:      # the reciprocal of c * (1 / q)
            mn = min(abs(cl), abs(ch))
            return self.finish(pscale(b[0], 1 / b[1]), None, None, dep or b[2], extra=err / (mn * mn) if err else ZERO)
        c = sorted([1 / cl, 1 / ch])
        a = self.atom(c[0], c[1], name='inv', dep=dep)
        a.defs.append(('inv', core, a.id))
        self.invs.append((core, a, dep))
        p = {(a.id,): ONE}
        if err:
            mn = min(abs(cl), abs(ch))
            return self.finish(p, None, None, dep, extra=err / (mn * mn))
        return Val(p, a.lo, a.hi, dep)

    def inverse_of(self, core):
        """core = c * (1/q) for a known reciprocal: (q, c, dep)"""
        if len(core) != 1: return None
        (m, c), = core.items()
        if len(m) != 1: return None
        for q, a, dq in self.invs:
            if a.id == m[0]: return q, c, dq
        return None
    def enc_round(self, t, x):
        op = t.op
        r = frng(t)
        lo, hi = (Fr(r[0]), Fr(r[1])) if r else (None, None)
        f = {'floor': math.floor, 'ceil': math.ceil, 'ftrunc': math.trunc, 'round': lambda v: math.floor(v + HALF) if v >= 0 else math.ceil(v - HALF),
             'rint': round}[op]
        l2, h2 = Fr(f(x.lo)), Fr(f(x.hi))
        lo = l2 if lo is None else max(lo, l2); hi = h2 if hi is None else min(hi, h2)
        if lo == hi: return Val(pconst(lo), lo, hi, x.dep)
        a = self.atom(lo, hi, isint=True, name='n', dep=x.dep)
        n = {(a.id,): ONE}
        self.irounds[t.id] = (x.p, n, op)
        d = padd(n, x.p, -ONE)      # n - v
        if op == 'ftrunc':
            if x.lo >= 0: op = 'floor'
            elif x.hi <= 0: op = 'ceil'
        if op == 'floor': a.defs.append(('rng', d, -ONE, True, ZERO, False))      # -1 < n-v <= 0
        elif op == 'ceil': a.defs.append(('rng', d, ZERO, False, ONE, True))
        elif op == 'ftrunc':
            a.defs.append(('or', [[('ge', x.p), ('gt', padd(d, pconst(1))), ('le', d)], [('lt', x.p), ('ge', d), ('lt', padd(d, pconst(-1)))]]))
        elif op == 'rint':
            a.defs.append(('rng', d, -HALF, False, HALF, False))
        else:   # round half away from zero
            if x.lo >= 0: a.defs.append(('rng', d, -HALF, True, HALF, False))
            elif x.hi <= 0: a.defs.append(('rng', d, -HALF, False, HALF, True))
            else: a.defs.append(('or', [[('ge', x.p), ('gt', padd(d, pconst(HALF))), ('le', padd(d, pconst(-HALF)))],
                                        [('lt', x.p), ('ge', padd(d, pconst(HALF))), ('lt', padd(d, pconst(-HALF)))]]))
        return Val(n, lo, hi, x.dep)

    def enc_lib(self, t, x):
        op = t.op; s = t.s
        relerr = Fr(1, 2 ** 50) if s == F64 else Fr(1, 2 ** 21)
        r = frng(t)
        if op in ('sin', 'cos', 'tan'):
            w = x.hi - x.lo
            lo, hi = float(x.lo), float(x.hi)
            if op != 'tan' and w <= Fr(1, 20) or op == 'tan' and w <= Fr(1, 50) and abs(hi) < 1.2 and abs(lo) < 1.2:
                f = getattr(math, op)
                y0, y1 = Fr(f(lo)), Fr(f(hi))
                if w == 0: return None
                beta = Fr(float((y1 - y0) / w)); alpha = (y0 + y1) / 2 - beta * (x.lo + x.hi) / 2
                M = 1 if op != 'tan' else Fr(2 * abs(math.tan(max(abs(lo), abs(hi)))) * (1 + math.tan(max(abs(lo), abs(hi))) ** 2) + 1e-6)
                dev = w * w / 8 * M + Fr(1, 10**14) + abs(y1 - y0 - beta * w) + (Fr(1, 10**6) if s == F32 else 0)
                p = padd(pscale(x.p, beta), pconst(alpha))
                v = self.finish(p, Fr(r[0]) if r else None, Fr(r[1]) if r else None, x.dep, extra=dev)
                return v
            lip = Fr(1) if op != 'tan' else (None if r is None else 1 + max(abs(Fr(r[0])), abs(Fr(r[1]))) ** 2)
            if lip is None: return None
            if r is None: r = (-1.0, 1.0)
            return self.uf(op, t, x, Fr(r[0]), Fr(r[1]), lip, relerr)
        if op == 'pow':
            b = self.enc(t.args[1])
            if b is None: return None
            e = t.args[1]
            if not isT(e) and e == int(e) and 0 <= e <= 6:
                p = pconst(1)
                if len(x.p) > 3: x = self.abbrev(x)
                for _ in range(int(e)): p = self.pmul(p, x.p)
                pl, ph = self.prange(p)
                return self.rounded(p, t, x.dep, rel=relerr)
            base = t.args[0]
            if not isT(base) and base > 0 and base != 1.0:
                k = Fr(math.log10(base)) if base != 10.0 else ONE
                y = b if base == 10.0 else Val(pscale(b.p, k), b.lo * k, b.hi * k, b.dep)
                return self.pow10(t, y)
            return None
        if op == 'exp10': return self.pow10(t, x)
        if op == 'log10':
            if x.lo <= 0 or r is None: return None
            # log10(pow10(y)*c) -> y + log10 c
            core = {m: c for m, c in x.p.items() if not self.isnoise(m)}
            if len(core) == 1:
                (m, c), = core.items()
                if len(m) == 1 and self.atoms[m[0]].rule is None and c > 0:
                    for q, a in self.fnatoms.get('pow10', []):
                        if a.id == m[0]:
                            err = self.noise_bound(x.p)
                            mn = x.lo
                            dev = err / mn / 2 + Fr(1, 10**13)
                            return self.finish(padd(q, pconst(Fr(math.log10(c)))), Fr(r[0]), Fr(r[1]), x.dep, extra=dev)
            for q, a in self.fnatoms.get('log10', []):
                k = self.divide(core, q)
                if k is not None and k[()] > 0 and k[()] != 1:
                    dev = self.noise_bound(x.p) / x.lo / 2 + Fr(1, 10**13)
                    return self.finish(padd({(a.id,): ONE}, pconst(Fr(math.log10(k[()])))), Fr(r[0]), Fr(r[1]), x.dep, extra=dev)
            lip = 1 / x.lo
            return self.uf(op, t, x, Fr(r[0]), Fr(r[1]), lip, relerr, key=True)
        if r is None: return None
        return None

    def pow10(self, t, y):
        r = frng(t)
        if r is None or r[0] <= 0: return None
        relerr = Fr(1, 2 ** 49) if t.s == F64 else Fr(1, 2 ** 20)
        core = {m: c for m, c in y.p.items() if not self.isnoise(m) and m != ()}
        const = y.p.get((), ZERO)
        err = self.noise_bound(y.p)
        # pow10(log10(g)) -> g
        if len(core) == 1:
            (m, c), = core.items()
            if c == 1 or abs(c - 1) < Fr(1, 10**12):
                for q, a in self.fnatoms.get('log10', []):
                    if (a.id,) == m:
                        k = Fr(10.0 ** float(const))
                        ql, qh = self.prange(q)
                        dev = (abs(qh) * k) * (Fr(24, 10) * err + relerr + Fr(1, 10**12) + abs(c-1) * 30)
                        return self.finish(pscale(q, k), Fr(r[0]), Fr(r[1]), y.dep, extra=dev)
        lst = self.fnatoms.setdefault('pow10', [])
        for q, a in lst:
            d = padd(core, {m: c for m, c in q.items() if m != ()}, -ONE)
            l, h = self.prange(d) if d else (ZERO, ZERO)
            if l is not None and h is not None and max(abs(l), abs(h)) < Fr(1, 10**9):
                k = Fr(10.0 ** float(const - q.get((), ZERO)))
                dev = (err + max(abs(l), abs(h))) * Fr(24, 10) + relerr + Fr(1, 10**14)
                return self.finish(pscale({(a.id,): ONE}, k), Fr(r[0]), Fr(r[1]), y.dep, extra=dev * Fr(r[1]))
        clo, chi = self.prange(core)
        clo, chi = clo + const, chi + const
        a = self.atom(Fr(10.0 ** float(clo)) * (1 - relerr), Fr(10.0 ** float(chi)) * (1 + relerr), name='p10')
        key = dict(core)
        if const: key[()] = const
        # monotone lemmas against the existing ones, and tangent/chord bounds
        for q, b in lst:
            a.defs.append(('mono', key, a.id, q, b.id))
            if b.lo > 0: a.defs.append(('slope', key, a.id, q, b.id, min(a.lo, b.lo) * Fr(23, 10), max(a.hi, b.hi) * Fr(24, 10)))
        a.defs.append(('anchor10', key, a.id, clo, chi))
        lst.append((key, a))
        dev = (err * Fr(24, 10) + relerr) * Fr(r[1])
        return self.finish({(a.id,): ONE}, Fr(r[0]), Fr(r[1]), y.dep, extra=dev)

    def uf(self, op, t, x, lo, hi, lip, relerr, key=False):
        core = {m: c for m, c in x.p.items() if not self.isnoise(m)}
        err = self.noise_bound(x.p)
        lst = self.fnatoms.setdefault(op, [])
        mag = max(abs(lo), abs(hi))
        for q, a in lst:
            d = padd(core, q, -ONE)
            l, h = self.prange(d) if d else (ZERO, ZERO)
            if l is not None and h is not None and max(abs(l), abs(h)) < Fr(1, 10**6) and (op != 'log10' or max(abs(l), abs(h)) < x.lo / 10**9):
                dev = (err + max(abs(l), abs(h))) * lip + relerr * mag
                return self.finish({(a.id,): ONE}, lo, hi, x.dep, extra=dev)
        ex = err * lip + relerr * mag
        a = self.atom(lo - ex, hi + ex, name=op)
        if op in ('log10', 'tan'):
            for q, b in lst:
                a.defs.append(('mono', core, a.id, q, b.id))
                if op == 'log10':
                    l, h = self.prange(core); l2, h2 = self.prange(q)
                    if None not in (l, h, l2, h2) and l > 0 and l2 > 0: a.defs.append(('slope', core, a.id, q, b.id, Fr(43, 100) / max(h, h2), Fr(44, 100) / min(l, l2)))
        lst.append((core, a))
        return self.finish({(a.id,): ONE}, lo, hi, x.dep, extra=ex)

    def enc_table(self, t):
        lo, iw, es = t.p
        idx = self.unsigned(t.args[0], iw)
        if any(e != e or abs(e) == math.inf for e in es if isinstance(e, float)): return None
        isint = t.s > 0
        n0, n1 = int(idx.lo) - lo, int(idx.hi) - lo
        n0 = max(n0, 0); n1 = min(n1, len(es) - 1)
        sub = [Fr(e) for e in es[n0:n1+1]]
        a = self.atom(min(sub), max(sub), isint=isint, name='tb', dep=idx.dep)
        if len(sub) <= 12 or (isint and len(sub) <= 300):
            a.defs.append(('table', idx.p, lo + n0, sub, a.id))
        elif len(sub) >= 2:
            beta = (sub[-1] - sub[0]) / (len(sub) - 1)
            devs = [e - (sub[0] + beta * i) for i, e in enumerate(sub)]
            mid = (max(devs) + min(devs)) / 2; rad = (max(devs) - min(devs)) / 2
            e = self.atom(-up(rad), up(rad), noise=True, name='e', dep=idx.dep)
            p = padd(pscale(padd(idx.p, pconst(-(lo + n0))), beta), pconst(sub[0] + mid))
            p = padd(p, {(e.id,): ONE})
            return self.finish(p, a.lo, a.hi, idx.dep)
        return Val({(a.id,): ONE}, a.lo, a.hi, idx.dep)

    # ---------------------------------------------------------------- ints
    def shiftnat(self, t, p):
        nat = T.irange(t)
        if nat is None: return p
        d = nat[0] - t.lo
        return padd(p, pconst(-d)) if d else p

    def unsigned(self, a, w): return self.norm(a, w, 0, 1 << w)
    def signed(self, a, w): return self.norm(a, w, -(1 << (w - 1)), 1 << (w - 1))
    def norm(self, a, w, L, H):
        if not isT(a):
            v = Fr((a - L) % (1 << w) + L); return Val(pconst(v), v, v, False)
        v = self.enci(a)
        if L <= v.lo and v.hi < H: return v
        M = 1 << w
        k0 = math.floor((v.lo - L) / M); k1 = math.floor((v.hi - L) / M)
        if k0 == k1: return Val(padd(v.p, pconst(-M * k0)), v.lo - M * k0, v.hi - M * k0, v.dep)
        ck = ('n', a.id, L)
        r = self.cache.get(ck)
        if r is None:
            k = self.atom(Fr(k0), Fr(k1), isint=True, name='k', dep=v.dep)
            p = padd(v.p, {(k.id,): Fr(-M)})
            k.defs.append(('rng', p, Fr(L), False, Fr(H), True))
            r = Val(p, Fr(L), Fr(H - 1), v.dep)
            self.cache[ck] = r
            if v.dep and self.overlay: self.overlay[-1].append(ck)
        return r
    def enci(self, a):
        if isT(a) and a.s == 1: return self.enc_bool_int(a)
        return self.enc(a)
    def enc_bool_int(self, a):
        ck = ('b', a.id)
        r = self.cache.get(ck)
        if r is None:
            k = self.atom(ZERO, ONE, isint=True, name='b')
            k.defs.append(('ite', a, padd({(k.id,): ONE}, pconst(-1)), {(k.id,): ONE}))
            r = Val({(k.id,): ONE}, ZERO, ONE, False)
            self.cache[ck] = r
        return r

    def floordiv(self, v, c, key):
        """floor(v / c) for integer-valued v, const c>0"""
        q0, q1 = math.floor(v.lo / c), math.floor(v.hi / c)
        if q0 == q1: return Val(pconst(q0), Fr(q0), Fr(q0), v.dep)
        r = self.cache.get(key)
        if r is None:
            k = self.atom(Fr(q0), Fr(q1), isint=True, name='q', dep=v.dep)
            # v - c*k in [0, c-1]  (integers; keep real relaxation < c)
            k.defs.append(('rng', padd(v.p, {(k.id,): Fr(-c)}), ZERO, False, Fr(c), True))
            r = Val({(k.id,): ONE}, Fr(q0), Fr(q1), v.dep)
            self.cache[key] = r
            if v.dep and self.overlay: self.overlay[-1].append(key)
        return r

    def enc_i(self, t):
        op = t.op; w = t.s; A = t.args
        if w == 1:
            return self.enc_bool_int(t)
        if op == 'var':
            a = self.atom(Fr(t.lo), Fr(t.hi), isint=True, name='v')
            return Val({(a.id,): ONE}, a.lo, a.hi, False)
        if op in ('add', 'sub', 'mul'):
            x, y = self.enci2(A[0], w), self.enci2(A[1], w)
            dep = x.dep or y.dep
            if op == 'add': p = padd(x.p, y.p)
            elif op == 'sub': p = padd(x.p, y.p, -ONE)
            else: p = self.pmul(x.p, y.p)
            nat = T.irange(t)
            if nat[1] - nat[0] >= (1 << w):
                # may wrap: normalise to [0, 2^w)
                k0, k1 = nat[0] >> w, nat[1] >> w
                k = self.atom(Fr(k0), Fr(k1), isint=True, name='k', dep=dep)
                p = padd(p, {(k.id,): Fr(-(1 << w))})
                k.defs.append(('rng', p, ZERO, False, Fr(1 << w), True))
                return Val(p, Fr(0), Fr((1 << w) - 1), dep)
            p = self.shiftnat(t, p)
            pl, ph = self.prange(p)
            return Val(p, Fr(t.lo) if pl is None else max(Fr(t.lo), pl), Fr(t.hi) if ph is None else min(Fr(t.hi), ph), dep)
        if op == 'cat':
            p = {}; off = 0; dep = False
            for a, pw in zip(A, t.p):
                v = self.unsigned(a, pw); dep = dep or v.dep
                p = padd(p, v.p, Fr(1 << off)); off += pw
            return Val(self.shiftnat(t, p), Fr(t.lo), Fr(t.hi), dep)
        if op == 'ext':
            lo, aw = t.p; a = A[0]
            if lo == 0:
                x = self.enci(a)
                nat = T.irange(t)
                if nat is not None: return Val(self.shiftnat(t, x.p), Fr(t.lo), Fr(t.hi), x.dep)
                u = x; q = x
            else:
                u = self.unsigned(a, aw)
                q = self.floordiv(u, 1 << lo, ('fd', a.id, lo))
            if q.lo >= 0 and q.hi < (1 << w): return q
            M = 1 << w
            k0, k1 = math.floor(q.lo / M), math.floor(q.hi / M)
            if k0 == k1: return Val(padd(q.p, pconst(-M * k0)), q.lo - M * k0, q.hi - M * k0, q.dep)
            k = self.atom(Fr(k0), Fr(k1), isint=True, name='k', dep=q.dep)
            p = padd(q.p, {(k.id,): Fr(-M)})
            k.defs.append(('rng', p, ZERO, False, Fr(M), True))
            return Val(p, ZERO, Fr(M - 1), q.dep)
        if op == 'sext':
            v = self.signed(A[0], t.p)
            return Val(self.shiftnat(t, v.p), Fr(t.lo), Fr(t.hi), v.dep)
        if op in ('udiv', 'urem') and not isT(A[1]) and A[1]:
            u = self.unsigned(A[0], w)
            q = self.floordiv(u, A[1], ('ud', A[0].id, A[1]))
            if op == 'udiv': return q
            return Val(padd(u.p, pscale(q.p, Fr(-A[1]))), Fr(t.lo), Fr(t.hi), u.dep or q.dep)
        if op in ('sdiv',) and not isT(A[1]):
            c = T.sgn(A[1], w); v = self.signed(A[0], w)
            if c > 0 and v.lo >= 0: 
                q = self.floordiv(v, c, ('sd', A[0].id, c)); return Val(self.shiftnat(t, q.p), Fr(t.lo), Fr(t.hi), q.dep)
            return None
        if op == 'ite':
            nat = T.irange(t)
            if nat[1] - nat[0] >= 1 << w: x, y = self.unsigned(A[1], w), self.unsigned(A[2], w); nat = (0, 0)
            else: x, y = self.enci2(A[1], w), self.enci2(A[2], w)
            self.b(A[0])
            a = self.atom(Fr(t.lo), Fr(t.hi), isint=True, name='i', dep=x.dep or y.dep)
            d = nat[0] - t.lo
            z = {(a.id,): ONE}
            if d: z = padd(z, pconst(d))
            a.defs.append(('ite', A[0], padd(z, x.p, -ONE), padd(z, y.p, -ONE)))
            return Val({(a.id,): ONE}, a.lo, a.hi, x.dep or y.dep)
        if op == 'table': return self.enc_table(t)
        if op in ('fptosi', 'fptoui'):
            x = self.enc(A[0])
            if x is None: return None
            L, H = (-(1 << (w-1)), (1 << (w-1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            g = T.grn(A[0])
            if g is not None and g >= 0 and x.lo >= L and x.hi <= H:
                return Val(x.p, Fr(t.lo), Fr(t.hi), x.dep)
            if x.lo > L - 1 and x.hi < H + 1:
                a = self.atom(Fr(t.lo), Fr(t.hi), isint=True, name='n', dep=x.dep)
                n = {(a.id,): ONE}; d = padd(n, x.p, -ONE)
                if x.lo >= 0: a.defs.append(('rng', d, -ONE, True, ZERO, False))
                elif x.hi <= 0: a.defs.append(('rng', d, ZERO, False, ONE, True))
                else: a.defs.append(('or', [[('ge', x.p), ('gt', padd(d, pconst(1))), ('le', d)], [('lt', x.p), ('ge', d), ('lt', padd(d, pconst(-1)))]]))
                return Val(n, a.lo, a.hi, x.dep)
            a = self.atom(Fr(max(L, t.lo)), Fr(min(H, t.hi)), isint=True, name='n', dep=x.dep)
            n = {(a.id,): ONE}; d = padd(n, x.p, -ONE)
            cases = []
            if x.hi > H: cases.append([('gt', padd(x.p, pconst(-H))), ('eq', padd(n, pconst(-H)))])
            if x.lo < L: cases.append([('lt', padd(x.p, pconst(-L))), ('eq', padd(n, pconst(-L)))])
            mid = [('le', padd(x.p, pconst(-H))), ('ge', padd(x.p, pconst(-L)))]
            cases.append(mid + [('ge', x.p), ('gt', padd(d, pconst(1))), ('le', d)])
            cases.append(mid + [('lt', x.p), ('ge', d), ('lt', padd(d, pconst(-1)))])
            a.defs.append(('or', cases))
            return Val(n, a.lo, a.hi, x.dep)
        if op == 'fbits':
            x = self.enc(A[0])
            if x is None: return None
            s = A[0].s; r = frng(A[0])
            mb, bias = (23, 127) if s == F32 else (52, 1023)
            if r is None: return None
            if r[0] > 0 and math.frexp(r[0])[1] == math.frexp(r[1])[1]:
                e = math.frexp(r[0])[1] - 1
                p = padd(pscale(x.p, Fr(2) ** (mb - e)), pconst((e + bias - 1) << mb))
                return Val(p, Fr(t.lo), Fr(t.hi), x.dep)
            if r[1] < 0 and math.frexp(r[0])[1] == math.frexp(r[1])[1]:
                e = math.frexp(r[0])[1] - 1
                p = padd(pscale(x.p, -Fr(2) ** (mb - e)), pconst(((e + bias - 1) << mb) + (1 << (-s - 1))))
                return Val(p, Fr(t.lo), Fr(t.hi), x.dep)
            return None
        return None
    def enci2(self, a, w):
        if not isT(a): return Val(pconst(a), Fr(a), Fr(a), False)
        return self.enci(a)
    def enc_bitsf(self, t):
        s = t.s; w = -s; mb, bias = (23, 127) if s == F32 else (52, 1023)
        l, h = urange(t.args[0], w)
        if l >> mb != h >> mb: return None
        v = self.unsigned(t.args[0], w)
        e = l >> mb
        neg = e >> (11 if s == F64 else 8); e &= (2047 if s == F64 else 255)
        if e == 0 or e == (2047 if s == F64 else 255): return None
        p = padd(v.p, pconst(-((l >> mb) << mb)))
        p = pscale(padd(p, pconst(1 << mb)), Fr(2) ** (e - bias - mb))
        if neg: p = pscale(p, -ONE)
        r = frng(t)
        return Val(p, Fr(r[0]), Fr(r[1]), v.dep)

    # ---------------------------------------------------------------- z3 translation
    def zm(self, m):
        """z3 var of a monomial (asserting nothing)"""
        if len(m) == 1: return self.atoms[m[0]].z
        v = self.zmono.get(m)
        if v is None:
            v = z3.Real('m_' + '_'.join(map(str, m))); self.zmono[m] = v
        return v
    def zp(self, p):
        ts = []; c0 = None
        for m, c in p.items():
            self.touch(m)
            if m == (): c0 = z3.RealVal(str(c)); continue
            v = self.zm(m)
            if len(m) == 1 and self.atoms[m[0]].isint: v = z3.ToReal(v)
            ts.append(v if c == 1 else z3.RealVal(str(c)) * v)
        if not ts: return c0 if c0 is not None else z3.RealVal(0)
        if c0 is not None: ts.append(c0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    def touch(self, m):
        """schedule the constraints of the monomial's atoms"""
        if m == (): return
        if any(m in s for s in self.asserted): return
        self.pending.append(m)
    def flush(self):
        while self.pending:
            m = self.pending.pop()
            if any(m in s for s in self.asserted): continue
            self.asserted[-1].add(m)
            if len(m) == 1:
                a = self.atoms[m[0]]
                if a.lo is not None: self.solver.add(a.z >= z3v(a.lo, a.isint, True))
                if a.hi is not None: self.solver.add(a.z <= z3v(a.hi, a.isint, False))
                for d in a.defs: self.add_def(d)
            else:
                lo, hi = self.mrange(m); v = self.zm(m)
                if lo is not None: self.solver.add(v >= z3.RealVal(str(lo)))
                if hi is not None: self.solver.add(v <= z3.RealVal(str(hi)))
                for i in set(m): self.touch((i,))
                self.live_monos.add(m)
    def cmp(self, k, p):
        lo, hi = self.prange(p)
        if k == 'gt':
            if lo is not None and lo > 0: return z3.BoolVal(True)
            if hi is not None and hi <= 0: return z3.BoolVal(False)
            return self.zp(p) > 0
        if k == 'ge':
            if lo is not None and lo >= 0: return z3.BoolVal(True)
            if hi is not None and hi < 0: return z3.BoolVal(False)
            return self.zp(p) >= 0
        if k == 'lt':
            if hi is not None and hi < 0: return z3.BoolVal(True)
            if lo is not None and lo >= 0: return z3.BoolVal(False)
            return self.zp(p) < 0
        if k == 'le':
            if hi is not None and hi <= 0: return z3.BoolVal(True)
            if lo is not None and lo > 0: return z3.BoolVal(False)
            return self.zp(p) <= 0
        if k == 'eq':
            if not p: return z3.BoolVal(True)
            if lo is not None and lo > 0 or hi is not None and hi < 0: return z3.BoolVal(False)
            return self.zp(p) == 0
        raise Exception(k)
    def add_def(self, d):
        S = self.solver; k = d[0]
        if k == 'eq': S.add(self.cmp('eq', d[1]))
        elif k == 'rng':
            _, p, lo, ls, hi, hs = d
            z = self.zp(p)
            S.add(z > z3.RealVal(str(lo)) if ls else z >= z3.RealVal(str(lo)))
            S.add(z < z3.RealVal(str(hi)) if hs else z <= z3.RealVal(str(hi)))
        elif k == 'or':
            S.add(z3.Or([z3.And([self.cmp(c, p) for c, p in cs]) for cs in d[1]]))
        elif k == 'ite':
            c = self.b(d[1])
            S.add(z3.Implies(c, self.cmp('eq', d[2]))); S.add(z3.Implies(z3.Not(c), self.cmp('eq', d[3])))
        elif k == 'abs':
            S.add(z3.Or(z3.And(self.cmp('ge', d[1]), self.cmp('eq', d[2])), z3.And(self.cmp('lt', d[1]), self.cmp('eq', d[3]))))
        elif k == 'inv': pass      # handled by product constraints
        elif k == 'mono':
            _, k1, a1, k2, a2 = d
            df = padd(k1, k2, -ONE)
            z = padd({(a1,): ONE}, {(a2,): -ONE})
            S.add(z3.Implies(self.cmp('ge', df), self.cmp('ge', z)))
            S.add(z3.Implies(self.cmp('le', df), self.cmp('le', z)))
        elif k == 'slope':
            # increasing function with derivative within [s0, s1] between the two points
            _, k1, a1, k2, a2, s0, s1 = d
            df = padd(k1, k2, -ONE)
            z = padd({(a1,): ONE}, {(a2,): -ONE})
            S.add(z3.Implies(self.cmp('ge', df), z3.And(self.cmp('ge', padd(z, df, -s0)), self.cmp('le', padd(z, df, -s1)))))
            S.add(z3.Implies(self.cmp('le', df), z3.And(self.cmp('le', padd(z, df, -s0)), self.cmp('ge', padd(z, df, -s1)))))
        elif k == 'anchor10':
            _, key, a, lo, hi = d
            # convexity of 10^y: below the chord, above tangents at a few points
            l, h = float(lo), float(hi)
            fl, fh = 10.0 ** l, 10.0 ** h
            if h > l:
                b = Fr((fh - fl) / (h - l))
                ch = padd(pscale(padd(key, pconst(-Fr(l))), b), pconst(Fr(fl)))
                eps = Fr(fh) * Fr(1, 10**9)
                S.add(self.cmp('le', padd(padd({(a,): ONE}, ch, -ONE), pconst(-eps))))
                for f in (0.0, 0.25, 0.5, 0.75, 1.0):
                    y0 = l + (h - l) * f; v0 = 10.0 ** y0; sl = v0 * math.log(10)
                    tg = padd(pscale(padd(key, pconst(-Fr(y0))), Fr(sl)), pconst(Fr(v0)))
                    S.add(self.cmp('ge', padd(padd({(a,): ONE}, tg, -ONE), pconst(eps))))
        elif k == 'table':
            _, ip, lo, sub, a = d
            S.add(z3.Or([z3.And(self.cmp('eq', padd(ip, pconst(-(lo + i)))), self.cmp('eq', padd({(a,): ONE}, pconst(-e)))) for i, e in enumerate(sub)]))
        else: raise Exception(k)

    def b(self, t):
        """z3 Bool of an i1 term (over-approximated with a fresh Bool if not encodable)"""
        if not isT(t): return z3.BoolVal(bool(t))
        op = t.op; A = t.args
        if op == 'not': return z3.Not(self.b(A[0]))
        if op == 'band': return z3.And(self.b(A[0]), self.b(A[1]))
        if op == 'bor': return z3.Or(self.b(A[0]), self.b(A[1]))
        if op == 'bxor': return z3.Xor(self.b(A[0]), self.b(A[1]))
        if op == 'ite': 
            c = self.b(A[0]); return z3.If(c, self.b(A[1]), self.b(A[2]))
        if op == 'fcmp':
            x, y = self.enc(A[0]), self.enc(A[1])
            if x is None or y is None: return z3.Bool('fb%d' % t.id)
            pr = t.p
            if pr == 'ord': return z3.BoolVal(True)
            if pr == 'uno': return z3.BoolVal(False)
            d = padd(x.p, y.p, -ONE); k = pr[1:]
            if k == 'ne': return z3.Not(self.cmp('eq', d))
            return self.cmp(k, d)
        if op == 'icmp':
            pr, w = t.p
            if w == 1: return z3.Bool('ib%d' % t.id)
            if pr in ('eq', 'ne'):
                # compare in whichever window needs no wrap
                (al, ah), (bl, bh) = T.raw(A[0], w), T.raw(A[1], w)
                sg = not (al >= 0 and bl >= 0)
                x, y = (self.signed(A[0], w), self.signed(A[1], w)) if sg else (self.unsigned(A[0], w), self.unsigned(A[1], w))
                e = self.cmp('eq', padd(x.p, y.p, -ONE))
                return e if pr == 'eq' else z3.Not(e)
            if pr in ('slt', 'sge') and isT(A[0]) and A[0].op == 'fbits' and not isT(A[1]) and A[1] == 0:
                x = self.enc(A[0].args[0])      # the sign bit
                sb = z3.Bool('sb%d' % A[0].id)
                if x is not None: sb = z3.Or(self.cmp('lt', x.p), z3.And(sb, self.cmp('eq', x.p)))
                return sb if pr == 'slt' else z3.Not(sb)
            f = self.signed if pr[0] == 's' else self.unsigned
            x, y = f(A[0], w), f(A[1], w)
            d = padd(x.p, y.p, -ONE); k = pr[1:]
            if self.intpoly(d):
                if k == 'lt': return self.cmp('le', padd(d, pconst(1)))
                if k == 'gt': return self.cmp('ge', padd(d, pconst(-1)))
            return self.cmp(k, d)
        if op == 'ext' or op == 'cat' or True:
            # i1 extracted from a wider term
            if op == 'ext':
                lo, aw = t.p
                u = self.unsigned(A[0], aw)
                q = self.floordiv(u, 1 << lo, ('fd', A[0].id, lo)) if lo else u
                k = self.atom(Fr(math.floor(q.lo / 2)), Fr(math.floor(q.hi / 2)), isint=True, name='k')
                p = padd(q.p, {(k.id,): Fr(-2)})
                k.defs.append(('rng', p, ZERO, False, Fr(2), True))
                return self.cmp('ge', padd(p, pconst(-1)))
            return z3.Bool('ub%d' % t.id)
    def intpoly(self, p):
        for m, c in p.items():
            if c.denominator != 1: return False
            for i in m:
                if not self.atoms[i].isint: return False
        return True

    # ---------------------------------------------------------------- path handling
    pending = None
    def sync(self, pc):
        """make the asserted stack equal to pc (list of bool terms)"""
        n = 0
        while n < len(self.pc) and n < len(pc) and self.pc[n] is pc[n]: n += 1
        while len(self.pc) > n:
            self.solver.pop(); self.pc.pop(); self.asserted.pop()
            for k in self.overlay.pop(): self.cache.pop(k, None)
        for t in pc[n:]:
            self.solver.push(); self.asserted.append(set())
            f = self.b(t)                 # encode under the parent's path condition
            self.overlay.append([])
            self.pc.append(t)
            self.solver.add(f); self.flush()
    def check(self, extra=(), timeout=None):
        self.solver.push(); self.asserted.append(set())
        try:
            for f in extra: self.solver.add(f)
            self.flush()
            return self._check(timeout)
        finally:
            self.solver.pop(); self.asserted.pop()
    def _check(self, timeout=None):
        t0 = time.time()
        if timeout: self.solver.set('timeout', timeout)
        r = self.solver.check()
        if timeout: self.solver.set('timeout', self.timeout)
        self.stats.queries += 1; self.stats.time += time.time() - t0
        if r == z3.sat: self.stats.sat += 1
        elif r == z3.unsat: self.stats.unsat += 1
        else: self.stats.unknown += 1
        return r
    def entails(self, atomcmp):
        """does the current path condition entail poly cmp 0 (linear relaxation)?"""
        k, p = atomcmp
        neg = {'gt': 'le', 'ge': 'lt', 'lt': 'ge', 'le': 'gt'}[k]
        save = self.pending; self.pending = []
        f = self.cmp(neg, p)
        self.solver.push(); self.asserted.append(set())
        self.solver.add(f); self.flush()
        r = self._check(2000)
        self.solver.pop(); self.asserted.pop()
        self.pending = save
        return r == z3.unsat

    def feasible(self, cond):
        f = self.b(cond)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        if self.check([f], 4000) == z3.unsat: return False
        if not self.floaty(cond): return True
        # satisfiable with room to spare: no fact about rounding can change that
        c = cond; pos = True
        while c.op == 'not': c = c.args[0]; pos = not pos
        if c.op == 'fcmp' and c.p[1:] in ('lt', 'le', 'gt', 'ge'):
            x, y = self.enc(c.args[0]), self.enc(c.args[1])
            if x is not None and y is not None:
                d = padd(x.p, y.p, -ONE)
                if (c.p[1:] in ('lt', 'le')) == pos: d = pscale(d, -ONE)
                l, h = self.prange(d)
                if h is not None and h > 0 and self.check([self.cmp('ge', padd(d, pconst(-h / 10**5)))], 2000) == z3.sat: return True
        L = self.lemmas(self.cone([cond] + self.slice(cond)))
        if not L: return True
        return self.check([f] + L, 4000) != z3.unsat
    def floaty(self, c):
        while isT(c) and c.op == 'not': c = c.args[0]
        return isT(c) and (c.op == 'fcmp' or c.op in ('band', 'bor') and any(self.floaty(a) for a in c.args))

    # ---------------------------------------------------------------- proving
    def cone(self, ts):
        seen = {}; st = [t for t in ts if isT(t)]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen[x.id] = x
            for a in x.args:
                if isT(a) and a.id not in seen: st.append(a)
        return seen
    def lemmas(self, cone):
        cs = {ZERO, ONE, -ONE}
        for x in cone.values():
            if x.op == 'fcmp':
                for a in x.args:
                    if not isT(a) and a == a and abs(a) != math.inf: cs.add(Fr(a))
        out = []
        for i in cone:
            r = self.rounds.get(i)
            if r is None or i not in self.cache: continue
            P, v, s = r
            lo, hi = self.prange(P)
            if lo is None or hi is None: continue
            for c in cs:
                if s == F32 and Fr(T.r32(float(c))) != c: continue
                if lo < c < hi or lo == c or hi == c:
                    d = padd(P, pconst(-c)); r_ = padd(v.p, pconst(-c))
                    w = pconst(abs(c) * Fr(1, 2**26 if s == F32 else 2**55))      # less than half an ulp of c
                    out.append(z3.Implies(self.cmp('le', padd(d, w, -ONE)), self.cmp('le', r_)))
                    out.append(z3.Implies(self.cmp('ge', padd(d, w)), self.cmp('ge', r_)))
        # rounding is monotone: pairs of like-shaped rounded values
        groups = {}
        for i in cone:
            if i not in self.cache: continue
            r = self.rounds.get(i)
            if r is not None:
                sh = tuple(sorted(len(m) for m in r[0] if not self.isnoise(m)))
                groups.setdefault((r[2], sh), []).append((r[0], r[1].p))
            r = self.irounds.get(i)
            if r is not None: groups.setdefault(r[2], []).append((r[0], r[1]))
        k = 0
        for g in groups.values():
            if len(g) > 12: continue
            for i in range(len(g)):
                for j in range(i):
                    if k > 80: break
                    k += 1
                    dp = padd(g[i][0], g[j][0], -ONE); dv = padd(g[i][1], g[j][1], -ONE)
                    out.append(z3.Implies(self.cmp('le', dp), self.cmp('le', dv)))
                    out.append(z3.Implies(self.cmp('ge', dp), self.cmp('ge', dv)))
        return out
    def linear(self, t, pos=True):
        """polynomials known >= 0 when t has the given truth value"""
        if not isT(t): return []
        if t.op == 'not': return self.linear(t.args[0], not pos)
        if t.op == 'band' and pos or t.op == 'bor' and not pos:
            return self.linear(t.args[0], pos) + self.linear(t.args[1], pos)
        if t.op != 'fcmp': return []
        x, y = self.enc(t.args[0]), self.enc(t.args[1])
        if x is None or y is None: return []
        k = t.p[1:]
        if not pos: k = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'ne': 'eq'}.get(k)
        d = padd(x.p, y.p, -ONE)
        if k in ('gt', 'ge'): return [d]
        if k in ('lt', 'le'): return [pscale(d, -ONE)]
        return []
    def rlt(self, cap=60):
        """path-condition inequalities multiplied by reciprocal atoms of known sign"""
        inv = [(a, 1 if a.lo > 0 else -1) for core, a, dep in self.invs if any(any(a.id in m for m in s) for s in self.asserted) and a.lo is not None and (a.lo > 0 or a.hi < 0)]
        if not inv: return []
        out = []
        every = [p for t in self.pc for p in self.linear(t) if p and len(p) <= 14]
        ps = [p for p in every if all(len(m) <= 1 for m in p)]
        # an inequality with 1/q in every term: times q
        for core, a, dep in self.invs:
            if a.lo is None or not (a.lo > 0 or a.hi < 0): continue
            cl, ch = self.prange(core)
            if cl is None or ch is None or cl <= 0 <= ch: continue
            for p in every:
                det = {m: c for m, c in p.items() if not self.isnoise(m)}
                if not det or any(m.count(a.id) != 1 for m in det): continue
                nz = {m: c for m, c in p.items() if m not in det}
                l, h = self.prange(nz) if nz else (ZERO, ZERO)
                if l is None or h is None: continue
                ext = max(abs(l), abs(h)) * max(abs(cl), abs(ch))
                q = {}
                for m, c in det.items():
                    k = list(m); k.remove(a.id); q = padd(q, {tuple(k): c})
                out.append(self.zp(padd(pscale(q, Fr(1 if a.lo > 0 else -1)), pconst(ext))) >= 0)
        for a, sg in inv:
            for p in ps:
                q = self.pmul(p, {(a.id,): Fr(sg)})
                for core, b, dep in self.invs:
                    if b is a: q = self.reduce_inv(q, core, a)
                out.append(self.zp(q) >= 0)
                if len(out) >= cap: return out
        return out
    def recancel(self, x, y):
        """y contains 1/D: write x as k*D + noise when it is a multiple of D's definition up to noise"""
        for core, a, d in self.invs:
            if len(core) != 1 or not any(a.id in m for m in y): continue
            (g, c), = core.items()
            dp = self.named.get(g[0]) if len(g) == 1 else None
            if dp is None or g in x: continue
            for m in list(x):
                if len(m) == 1 and m[0] in self.named: x = padd(padd(x, {m: x[m]}, -ONE), self.named[m[0]], x[m])
            xc = {m: k for m, k in x.items() if not self.isnoise(m)}
            dc = {m: k for m, k in dp.items() if not self.isnoise(m)}
            if not xc or len(dc) < 1: continue
            lead = max(dc)
            if lead not in xc: continue
            k = xc[lead] / dc[lead]
            rest = padd(x, dp, -k)
            rc = {m: v for m, v in rest.items() if not self.isnoise(m)}
            if rc:
                l, h = self.prange(rc)
                if l is None or h is None or max(abs(l), abs(h)) > Fr(1, 10**10): continue
            return padd(rest, {g: k})
        return x
    def reduce_inv(self, p, core, a):
        if len(core) != 1: return p
        (g, c), = core.items()
        r = {}
        for m, k in p.items():
            if a.id in m and g and all(m.count(i) >= g.count(i) for i in set(g)):
                l = list(m); l.remove(a.id)
                for i in g: l.remove(i)
                m = tuple(l); k = k / c
            v = r.get(m, ZERO) + k
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def products(self, rounds=2):
        """linear consequences of INV(g)*g = 1 multiplied by cofactors, and McCormick envelopes"""
        out = []
        done = set()
        for _ in range(rounds):
            monos = [m for s in self.asserted for m in s]
            new = 0
            for core, a, dep in self.invs:
                for m in monos:
                    if a.id not in m: continue
                    rest = list(m); rest.remove(a.id)
                    # candidate cofactors: m / (INV * g_i)
                    cands = set()
                    for gm in core:
                        r = list(rest); ok = True
                        for i in gm:
                            if i in r: r.remove(i)
                            else: ok = False; break
                        if ok: cands.add(tuple(r))
                    for cf in cands:
                        key = (a.id, cf)
                        if key in done: continue
                        done.add(key); new += 1
                        p = {}
                        for gm, c in core.items():
                            mm = tuple(sorted(gm + cf + (a.id,))); p[mm] = p.get(mm, ZERO) + c
                        p = self.reduce(p)
                        p = padd(p, {cf: ONE}, -ONE)
                        out.append(self.zp(p) == 0)
                        if len(out) > 400: return out
            if not new: break
        return out
    def mccormick(self, cap=300):
        out = []
        monos = sorted(m for m in set(m for s in self.asserted for m in s) if len(m) >= 2)
        for m in monos:
            # split as first * rest
            for i in range(len(m)):
                if i and m[i] == m[i-1]: continue
                x = (m[i],); y = m[:i] + m[i+1:]
                xl, xh = self.mrange(x); yl, yh = self.mrange(y)
                if None in (xl, xh, yl, yh): continue
                self.touch(x); self.touch(y)
                for a, b, sg in ((xl, yl, 1), (xh, yh, 1), (xl, yh, -1), (xh, yl, -1)):
                    # (x-a)(y-b)*sg >= 0 : xy - b x - a y + ab
                    p = {m: ONE}
                    p = padd(p, {x: -b}); p = padd(p, {y: -a}); p = padd(p, pconst(a * b))
                    z = self.zp(p)
                    out.append(z >= 0 if sg > 0 else z <= 0)
                if len(out) > cap: return out
        return out
    def mono_defs(self):
        out = []
        for m in set(m for s in self.asserted for m in s):
            if len(m) >= 2:
                e = None
                for i in m:
                    v = self.atoms[i].z
                    if self.atoms[i].isint: v = z3.ToReal(v)
                    e = v if e is None else e * v
                out.append(self.zm(m) == e)
        for core, a, dep in self.invs:
            if any((a.id,) in s for s in self.asserted):
                out.append(self.zp_nl(core) * a.z == 1)
        for q, a in self.fnatoms.get('sqrt', []):
            if any((a.id,) in s for s in self.asserted):
                out.append(a.z * a.z == self.zp_nl(q))
        return out
    def zp_nl(self, p):
        ts = []
        for m, c in p.items():
            e = z3.RealVal(str(c))
            for i in m:
                self.touch((i,))
                v = self.atoms[i].z
                if self.atoms[i].isint: v = z3.ToReal(v)
                e = e * v
            ts.append(e)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def prove(self, cond, level=3, nra_timeout=4000):
        """try to show pc => cond.  returns (True, None) or (False, [models]) ; models: {var idx: value}"""
        neg = T.bnot(cond)
        f = self.b(neg)
        if z3.is_false(f): self.stats.trivial += 1; return True, []
        models = []
        S = self.solver
        S.push(); self.asserted.append(set())
        try:
            S.add(f); self.flush()
            cone = self.cone([cond] + self.pc)
            r = self._check()
            if r == z3.unsat: return True, []
            if r == z3.sat: models.append(self.model(S.model(), cone))
            if level >= 2:
                for l in self.lemmas(cone): S.add(l)
                for l in self.rlt(): S.add(l)
                self.flush()
                for l in self.products(): S.add(l)
                self.flush()
                r = self._check()
                if r == z3.unsat: return True, []
                if r == z3.sat: models.append(self.model(S.model(), cone))
            if level >= 3 and any(len(m) >= 2 for s in self.asserted for m in s):
                for l in self.mccormick(): S.add(l)
                self.flush()
                r = self._check()
                if r == z3.unsat: return True, []
                if r == z3.sat: models.append(self.model(S.model(), cone))
                S2 = z3.SolverFor('QF_NRA') if False else z3.Solver()
                S2.set('timeout', nra_timeout)
                for a in S.assertions(): S2.add(a)
                for d in self.mono_defs(): S2.add(d)
                t0 = time.time(); r = S2.check(); self.stats.queries += 1; self.stats.time += time.time() - t0
                if r == z3.unsat: self.stats.unsat += 1; return True, []
                if r == z3.sat:
                    self.stats.sat += 1
                    models.append(self.model(S2.model(), cone))
                else: self.stats.unknown += 1
            # exact theory: relevant slice of the path condition only
            real = False
            for mo in models:
                if mo is not None and self.concrete(mo, cond): real = True
            if not real and level >= 2:
                sl = self.slice(cond) if isT(cond) else [c for c in self.pc if isT(c)]
                cc = self.cone([cond] + sl); k = fpx.cost(cc)
                if k is not None and k <= 400:
                    t0 = time.time(); r = fpx.prove(sl, cond, self.fptimeout)
                    self.stats.queries += 1; self.stats.time += time.time() - t0; self.stats.exact += 1
                    if r == 'unsat': self.stats.unsat += 1; return True, []
                    if r is not None: self.stats.sat += 1; models.insert(0, r)
                    else: self.stats.unknown += 1
            return False, models
        finally:
            S.pop(); self.asserted.pop()
            self.pending = []

    fptimeout = 15000
    def concrete(self, mo, cond):
        """does the candidate really falsify cond on this path (exact evaluation)?"""
        env = {}
        for x in T.vars_of([cond] + self.pc).values():
            env[x.p[0]] = mo.get(x.p[0], T.rnd(x.s, (x.p[1] + x.p[2]) / 2) if x.s < 0 else ((x.p[1] + x.p[2]) // 2) & T.mask(x.s))
        try: v = T.evaluate(self.pc + [cond], env)
        except Exception: return False
        return all(v[:-1]) and not v[-1]
    def slice(self, cond):
        """conjuncts of the path condition sharing variables with cond"""
        vs = set(T.vars_of([cond])); rest = [(c, set(T.vars_of([c]))) for c in self.pc if isT(c)]
        out = []; ch = True
        while ch:
            ch = False
            for c, v in list(rest):
                if v & vs: out.append(c); vs |= v; rest.remove((c, v)); ch = True
        return out
    def model(self, m, cone):
        out = {}
        for x in cone.values():
            if x.op == 'var':
                v = self.cache.get(x.id)
                if v is None: continue
                (mm, c), = v.p.items()
                z = m.eval(self.atoms[mm[0]].z, model_completion=True)
                out[x.p[0]] = tofloat(z, x)
        return out
    def intval(self, t, w):
        return self.unsigned(t, w)
    def enum(self, t, w, limit):
        """all feasible values of an integer term under the path condition (None if more than limit)"""
        lo, hi = T.urange(t, w)
        out = []
        S = self.solver
        S.push(); self.asserted.append(set())
        try:
            v = self.unsigned(t, w)
            z = self.zp(v.p); self.flush()
            while True:
                r = self._check(4000)
                if r == z3.unsat: return out
                if r != z3.sat:
                    if hi - lo + 1 <= limit: return list(range(lo, hi + 1))
                    return None
                x = S.model().eval(z, model_completion=True)
                x = Fr(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else None
                if x is None: return list(range(lo, hi + 1)) if hi - lo + 1 <= limit else None
                xi = math.floor(x)
                if xi != x:
                    # an opaque relaxation: fall back on the interval
                    return list(range(lo, hi + 1)) if hi - lo + 1 <= limit else None
                out.append(xi)
                if len(out) > limit: return None
                S.add(z3.Or(z <= z3.RealVal(xi - 1), z >= z3.RealVal(xi + 1)))
        finally:
            S.pop(); self.asserted.pop()
    def intbounds(self, t, lo, hi):
        """tightest provable signed bounds of a 64-bit term within [lo, hi]"""
        S = self.solver
        S.push(); self.asserted.append(set())
        try:
            v = self.signed(t, 64)
            z = self.zp(v.p); self.flush()
            def can(c):
                S.push(); S.add(c); r = self._check(4000); S.pop(); return r != z3.unsat
            if self._check(4000) != z3.sat: return lo, hi
            x = S.model().eval(z, model_completion=True)
            if not z3.is_rational_value(x) and not z3.is_int_value(x): return lo, hi
            x = int(x.as_fraction() // 1 if z3.is_rational_value(x) else x.as_long())
            x = min(max(x, lo), hi)
            a, b = lo, x; k = 1
            while b > a:        # gallop down from a feasible value, then bisect
                m = max(a, x - k)
                if m >= b: break
                if can(z <= z3.RealVal(m)): b = m; k *= 4
                else: a = m + 1; break
            while a < b:
                m = (a + b) // 2
                if can(z <= z3.RealVal(m)): b = m
                else: a = m + 1
            l = a; a, b = x, hi; k = 1
            while a < b:
                m = min(b, x + k)
                if m <= a: break
                if can(z >= z3.RealVal(m)): a = m; k *= 4
                else: b = m - 1; break
            while a < b:
                m = (a + b + 1) // 2
                if can(z >= z3.RealVal(m)): a = m
                else: b = m - 1
            return l, a
        finally:
            S.pop(); self.asserted.pop()
    def path_model(self):
        """model of the asserted path condition"""
        S = self.solver
        r = self._check()
        if r != z3.sat: return None
        return self.model(S.model(), self.cone(self.pc))

def tofloat(z, x):
    if z3.is_algebraic_value(z): z = z.approx(40)
    if z3.is_int_value(z): v = Fr(z.as_long())
    elif z3.is_rational_value(z): v = Fr(z.numerator_as_long(), z.denominator_as_long())
    else: v = Fr(0)
    lo, hi = x.p[1], x.p[2]
    if x.s > 0:
        return max(lo, min(hi, int(round(v)))) & ((1 << x.s) - 1)
    f = T.rnd(x.s, float(v))
    return max(lo, min(hi, f))
def z3v(c, isint, lower):
    if isint: return z3.IntVal(math.ceil(c) if lower else math.floor(c))
    return z3.RealVal(str(c))
def up(x):
    """round a positive Fraction up to few bits"""
    if x == 0: return x
    e = x.numerator.bit_length() - x.denominator.bit_length() - 12
    s = Fr(2) ** e
    return Fr(math.ceil(x / s)) * s
def half_ulp(m, P, s):
    if m == 0: return Fr(1, 2 ** (150 if s == F32 else 1075))
    # smallest E with m <= 2^E
    E = m.numerator.bit_length() - m.denominator.bit_length() - 1
    while Fr(2) ** E < m: E += 1
    while Fr(2) ** (E - 1) >= m: E -= 1
    return max(Fr(2) ** (E - 1 - P), Fr(1, 2 ** (150 if s == F32 else 1075)))
def fsqrt_lo(x):
    if x <= 0: return ZERO
    k = 1 << 160
    return Fr(math.isqrt(int(x * k)), 1 << 80)
def fsqrt_hi(x):
    if x <= 0: return ZERO
    k = 1 << 160
    return Fr(math.isqrt(math.ceil(x * k)) + 1, 1 << 80)
