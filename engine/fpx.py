"""Exact bit-vector / IEEE-754 translation of terms for z3: decides small obligations the real relaxation cannot."""
import math
from fractions import Fraction as Fr
import z3
import terms as T
from terms import isT, F32, F64
RNE = z3.RNE
MODES = {'floor': z3.RTN, 'ceil': z3.RTP, 'ftrunc': z3.RTZ, 'round': z3.RNA, 'rint': z3.RNE}
class No(Exception): pass
def srt(s): return z3.Float32() if s == F32 else z3.Float64()
def const(x, s):
    if s < 0:
        return z3.fpBVToFP(z3.BitVecVal(T.fbits(s, x), 32 if s == F32 else 64), srt(s)) if x == x else z3.fpNaN(srt(s))
    if s == 1: return z3.BoolVal(bool(x))
    return z3.BitVecVal(x, s)
def argsort(t, i):
    a = t.args[i]
    if isT(a): return a.s
    op = t.op
    if op in ('sitofp', 'uitofp', 'sext'): return t.p
    if op == 'icmp': return t.p[1]
    if op == 'fcmp': return next(x.s for x in t.args if isT(x))
    if op == 'ite': return 1 if i == 0 else t.s
    if op == 'cat': return t.p[i]
    if op == 'ext': return t.p[1]
    if op == 'fptrunc': return F64
    if op == 'fpext': return F32
    return t.s
def bv(e, w): return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if w == 1 else e
def unbv(e, w): return e == z3.BitVecVal(1, 1) if w == 1 else e
OK = {'var', 'fremk', 'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'sqrt',
      'floor', 'ceil', 'ftrunc', 'round', 'rint', 'fma', 'fcmp', 'icmp', 'not', 'band', 'bor', 'bxor', 'ite', 'cat', 'ext', 'sext', 'fpext', 'fptrunc', 'sitofp', 'uitofp',
      'fptosi', 'fptoui', 'fbits', 'bitsf'}
COST = {'fadd': 4, 'fsub': 4, 'fmul': 8, 'fdiv': 30, 'sqrt': 60, 'fma': 30, 'mul': 8, 'udiv': 15, 'urem': 15, 'sdiv': 15, 'srem': 15, 'fptrunc': 2, 'sitofp': 2, 'uitofp': 2}
def cost(cone):
    c = 0
    for x in cone.values():
        if x.op not in OK: return None
        k = COST.get(x.op, 1)
        if x.op in ('fadd', 'fmul', 'fdiv', 'fsub', 'fma', 'sqrt') and x.s == F64: k *= 3
        c += k
    return c
class Tr:
    def __init__(s): s.memo = {}; s.vars = {}; s.side = []
    def get(self, a, s): return self.memo[a.id] if isT(a) else const(a, s)
    def tr(self, t):
        if not isT(t): raise No
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo: st.pop(); continue
            need = [a for a in x.args if isT(a) and a.id not in self.memo]
            if need: st.extend(need); continue
            self.memo[x.id] = self.one(x); st.pop()
        return self.memo[t.id]
    def one(self, t):
        op = t.op; s = t.s; A = t.args
        if op == 'var':
            i, lo, hi = t.p[0], t.p[1], t.p[2]
            if s < 0:
                v = z3.FP('v%d' % i, srt(s)); self.side += [z3.Not(z3.fpIsNaN(v)), v >= const(lo, s), v <= const(hi, s)]
            elif s == 1: v = z3.Bool('v%d' % i)
            else:
                v = z3.BitVec('v%d' % i, s)
                if lo < 0: self.side += [v >= z3.BitVecVal(lo, s), v <= z3.BitVecVal(hi, s)]
                elif hi < (1 << s): self.side += [z3.UGE(v, z3.BitVecVal(lo, s)), z3.ULE(v, z3.BitVecVal(hi, s))]
            self.vars[i] = (v, t); return v
        a = [self.get(A[i], argsort(t, i)) for i in range(len(A))]
        r = RNE()
        if op == 'fadd': return z3.fpAdd(r, *a)
        if op == 'fsub': return z3.fpSub(r, *a)
        if op == 'fremk': return z3.fpSub(r, a[0], const(t.p[0] * t.p[1], s))
        if op == 'fmul': return z3.fpMul(r, *a)
        if op == 'fdiv': return z3.fpDiv(r, *a)
        if op == 'fneg': return z3.fpNeg(a[0])
        if op == 'fabs': return z3.fpAbs(a[0])
        if op == 'sqrt': return z3.fpSqrt(r, a[0])
        if op == 'fma': return z3.fpFMA(r, *a)
        if op in MODES: return z3.fpRoundToIntegral(MODES[op](), a[0])
        if op in ('fpext', 'fptrunc'): return z3.fpFPToFP(r, a[0], srt(s))
        if op == 'sitofp': return z3.fpSignedToFP(r, a[0], srt(s))
        if op == 'uitofp': return z3.fpUnsignedToFP(r, bv(a[0], t.p), srt(s))
        if op in ('fptosi', 'fptoui'):
            src = A[0].s
            if op == 'fptosi':
                lo, hi = -(1 << (s - 1)), (1 << (s - 1)) - 1; c = z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(s))
                h = float(1 << (s - 1)); l = -h
            else:
                lo, hi = 0, (1 << s) - 1; c = z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(s)); h = float(1 << s); l = 0.0
            return z3.If(z3.fpIsNaN(a[0]), z3.BitVecVal(0, s), z3.If(a[0] >= const(h, src), z3.BitVecVal(hi, s), z3.If(a[0] <= const(l, src), z3.BitVecVal(lo, s), c)))
        if op == 'fbits': return z3.fpToIEEEBV(a[0])
        if op == 'bitsf': return z3.fpBVToFP(a[0], srt(s))
        if op == 'fcmp':
            p = t.p; un = z3.Or(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1]))
            if p == 'ord': return z3.Not(un)
            if p == 'uno': return un
            k = p[1:]
            c = {'eq': z3.fpEQ(a[0], a[1]), 'ne': z3.Not(z3.fpEQ(a[0], a[1])), 'lt': a[0] < a[1], 'le': a[0] <= a[1], 'gt': a[0] > a[1], 'ge': a[0] >= a[1]}[k]
            return z3.Or(un, c) if p[0] == 'u' else z3.And(z3.Not(un), c)
        if op == 'icmp':
            p, w = t.p
            if w == 1: a = [bv(x, 1) for x in a]
            return {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y,
                    'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}[p](*a)
        if op == 'not': return z3.Not(a[0])
        if op == 'band': return z3.And(*a)
        if op == 'bor': return z3.Or(*a)
        if op == 'bxor': return z3.Xor(*a)
        if op == 'ite': return z3.If(*a)
        if op == 'cat':
            ps = [bv(x, w) for x, w in zip(a, t.p)]
            return z3.Concat(*reversed(ps)) if len(ps) > 1 else ps[0]
        if op == 'ext':
            lo, aw = t.p
            return unbv(z3.Extract(lo + s - 1, lo, bv(a[0], aw)), s)
        if op == 'sext': return z3.SignExt(s - t.p, bv(a[0], t.p))
        a = [bv(x, s) for x in a]
        f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
             'shl': lambda x, y: x << y, 'lshr': z3.LShR, 'ashr': lambda x, y: x >> y, 'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op]
        if op in ('udiv', 'urem', 'sdiv', 'srem'): return unbv(z3.If(a[1] == 0, z3.BitVecVal(0, s), f(*a)), s)
        return unbv(f(*a), s)
def prove(pc, cond, timeout):
    """'unsat' (proved), a model {var: value}, or None"""
    tr = Tr()
    try:
        fs = [tr.tr(c) for c in pc if isT(c)]; g = z3.Not(tr.tr(cond)) if isT(cond) else z3.BoolVal(not cond)
    except (No, KeyError, StopIteration): return None
    S = z3.Solver(); S.set('timeout', timeout)
    S.add(*tr.side); S.add(*fs); S.add(g)
    r = S.check()
    if r == z3.unsat: return 'unsat'
    if r != z3.sat: return None
    m = S.model(); out = {}
    for i, (v, t) in tr.vars.items():
        x = m.eval(v, model_completion=True)
        if t.s < 0:
            b = z3.simplify(z3.fpToIEEEBV(x))
            out[i] = T.bitsf(t.s, b.as_long()) if z3.is_bv_value(b) else 0.0
        elif t.s == 1: out[i] = int(z3.is_true(x))
        else: out[i] = x.as_long()
    return out
