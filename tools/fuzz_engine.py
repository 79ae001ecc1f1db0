#!/usr/bin/env python3-vt
"""Self-test of the solver encoding: random term graphs evaluated concretely; the simplifier, the ranges and the
relaxation must all admit the concrete value (a proof of its absence would be unsound).   fuzz_engine.py [seconds] [seed]"""
import sys, os, random, math, time, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine')); sys.setrecursionlimit(20000)
import realctx, terms as T
from terms import isT, F32, F64
budget = float(sys.argv[1]) if len(sys.argv) > 1 else 60; seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
R = random.Random(seed)
def cint(w): return ((1 << w) - 1) & R.choice([0, 1, 2, 3, 4, 7, 10, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, R.randrange(1 << w), R.randrange(256) & ((1 << w) - 1)])
def cflt(s):
    x = R.choice([0.0, 1.0, -1.0, 0.5, 2.0, 0.25, 3.0, 1e-3, 48000.0, R.uniform(-1, 1), R.uniform(-10, 10), R.uniform(0, 1e5), float(R.randrange(-20, 20))])
    return T.r32(x) if s == F32 else x
class Bad(Exception): pass
def eq(s, a, b):
    if s > 0: return a == b
    return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
def ok(t, v, env, what):
    """simplifier and ranges"""
    s = t.s if isT(t) else None
    g = T.evaluate([t], env)[0]
    if s is None: s = 64 if isinstance(v, int) else F64
    if not eq(s, g, v): raise Bad('%s: value %r expected %r: %s' % (what, g, v, T.show(t, 6)))
    if isT(t):
        if s > 0:
            m = 1 << s
            if not any(t.lo <= v + k * m <= t.hi for k in range((t.lo >> s) - 1, (t.hi >> s) + 2)): raise Bad('%s: range %r %r misses %r: %s' % (what, t.lo, t.hi, v, T.show(t, 6)))
        elif t.lo is not None and not t.lo <= v <= t.hi: raise Bad('%s: frange %r %r misses %r: %s' % (what, t.lo, t.hi, v, T.show(t, 6)))
        if s < 0 and t.g is not None and v == v and abs(v) != math.inf:
            from fractions import Fraction as Fr
            if (Fr(v) / Fr(2) ** t.g).denominator != 1: raise Bad('%s: grid 2^%d misses %r' % (what, t.g, v))
def build():
    T.reset(); env = {}; pool = {8: [], 16: [], 32: [], 64: [], 1: [], F32: [], F64: []}
    n = 0
    def add(t, v, what):
        if isinstance(v, float) and (v != v or abs(v) == math.inf): 
            if R.random() < .7: return
        ok(t, v, env, what)
        s = t.s if isT(t) else None
        if s in pool: pool[s].append((t, v))
    for s in (8, 16, 32, 64, 64, F32, F64, F64):
        if R.random() < .3: continue
        if s > 0:
            lo, hi = R.choice([(0, (1 << s) - 1), (0, (1 << s) - 1), (0, 10), (1, 100), (-(1 << (s - 1)), (1 << (s - 1)) - 1), (-5, 5)])
            v = R.choice([lo, hi, R.randint(lo, hi), max(lo, min(hi, R.randrange(5)))])
            t = T.var(n, s, lo, hi); v &= (1 << s) - 1
        else:
            lo, hi = sorted(R.choice([(-1.0, 1.0), (0.0, 10.0), (0.0, 1.0), (-100.0, 100.0), (1.0, 5.0)]))
            v = R.choice([lo, hi, R.uniform(lo, hi), 0.0 if lo <= 0 else lo, 1.0])
            if s == F32: v = T.r32(v)
            t = T.var(n, s, lo, hi)
        env[n] = v; n += 1; pool[s].append((t, v))
    def pick(s):
        if pool[s] and R.random() < .8: return R.choice(pool[s][-6:])
        v = cint(s) if s > 0 else cflt(s)
        return v, v
    for _ in range(R.randrange(3, 22)):
        k = R.randrange(18); s = R.choice([8, 16, 32, 64, 64]); f = R.choice([F32, F64, F64])
        if k < 4:
            (a, x), (b, y) = pick(s), pick(s)
            op = R.choice(['add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'add', 'sub'])
            if op in ('shl', 'lshr', 'ashr'): b = y = R.randrange(s)
            if op in ('udiv', 'urem', 'sdiv', 'srem'): b = y = R.choice([1, 2, 3, 7, 10, 100])
            if op in ('sdiv', 'srem') and not T.IOPS: pass
            add(T.binop(op, s, a, b), T.IOPS[op](s, x, y), op)
        elif k == 4:
            (a, x), (b, y) = pick(s), pick(s); pr = R.choice(['eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'])
            add(T.icmp(pr, s, a, b), T.c_icmp(pr, s, x, y), 'icmp' + pr)
        elif k == 5:
            (a, x), (b, y) = pick(f), pick(f); pr = R.choice(['oeq', 'one', 'olt', 'ole', 'ogt', 'oge', 'ueq', 'une', 'ult', 'ule', 'ugt', 'uge', 'uno', 'ord'])
            add(T.fcmp(pr, f, a, b), T.c_fcmp(pr, x, y), 'fcmp' + pr)
        elif k == 6:
            c, z = pick(1); q = R.choice([s, f]); (a, x), (b, y) = pick(q), pick(q)
            add(T.ite(q, c, a, b), x if z else y, 'ite')
        elif k == 7:
            (a, x), (b, y) = pick(1), pick(1); op = R.choice(['band', 'bor', 'bxor'])
            add(getattr(T, op)(a, b), {'band': x & y, 'bor': x | y, 'bxor': x ^ y}[op], op)
            add(T.bnot(a), 1 - x, 'not')
        elif k == 8:
            w = R.choice([16, 32, 64]); n2 = R.choice([q for q in (8, 16, 32) if q < w]); lo = R.choice([0, 0, w - n2, R.randrange(w - n2 + 1)])
            a, x = pick(w); add(T.ext(a, w, lo, n2), (x >> lo) & ((1 << n2) - 1), 'ext')
        elif k == 9:
            w = R.choice([8, 16, 32]); a, x = pick(w); n2 = R.choice([q for q in (16, 32, 64) if q > w])
            if R.random() < .5: add(T.zext(a, w, n2), x, 'zext')
            else: add(T.sext(a, w, n2), T.sgn(x, w) & ((1 << n2) - 1), 'sext')
        elif k in (10, 11, 12):
            (a, x), (b, y) = pick(f), pick(f); op = R.choice(['fadd', 'fsub', 'fmul', 'fdiv', 'fadd', 'fsub', 'fmul'])
            try: v = T.FOPS[op](f, x, y)
            except OverflowError: continue
            add(T.fop(op, f, a, b), v, op)
        elif k == 13:
            a, x = pick(f); op = R.choice(['fneg', 'fabs', 'floor', 'ceil', 'ftrunc', 'round', 'sqrt', 'rint'])
            add(T.fop(op, f, a), T.FOPS[op](f, x), op)
        elif k == 14:
            if R.random() < .5: a, x = pick(F32); add(T.fpext(a), x, 'fpext')
            else: a, x = pick(F64); add(T.fptrunc(a), T.r32(x), 'fptrunc')
        elif k == 15:
            a, x = pick(s); sg = R.random() < .5
            add(T.itofp(f, sg, s, a), T.c_itofp(f, T.sgn(x, s) if sg else x), 'itofp')
        elif k == 16:
            a, x = pick(f); sg = R.random() < .5
            add(T.fptoi(s, sg, a), T.c_fptoi(s, sg, x), 'fptoi')
        else:
            a, x = pick(F64); op = R.choice(['sin', 'cos', 'tan', 'log10', 'pow', 'exp10', 'frem', 'frem', 'bits', 'table', 'signbit'])
            if op in ('sin', 'cos'): 
                if op in T.FOPS: add(T.fop(op, F64, a), T.FOPS[op](F64, x), op)
            elif op in ('tan', 'log10') and op in T.FOPS:
                try: add(T.fop(op, F64, a), T.FOPS[op](F64, x), op)
                except (ValueError, OverflowError): pass
            elif op == 'pow' and 'pow' in T.FOPS:
                try: v = T.FOPS['pow'](F64, 10.0, x)
                except OverflowError: continue
                add(T.fop('pow', F64, 10.0, a), v, op)
            elif op == 'bits':
                a, x = pick(f); b = T.tobits(f, a); add(b, T.fbits(f, x), op)
                w = -f; k = R.choice([1 << (w - 1), (1 << (w - 1)) - 1, 0])
                o = R.choice(['xor', 'and'])
                add(T.frombits(f, T.binop(o, w, b, k)), T.bitsf(f, T.IOPS[o](w, T.fbits(f, x), k)), 'bitsf')
            elif op == 'signbit':
                a, x = pick(f); add(T.signbit(f, a), int(math.copysign(1, x) < 0), op)
            elif op == 'table':
                i, z = pick(8); i, z = T.binop('and', 8, i, 7), z & 7
                i, z = T.zext(i, 8, 64), z
                es = [cflt(F64) for _ in range(8)]
                add(T.table(F64, i, 0, es), es[z], op)
            elif op == 'frem':
                b, y = pick(F64)
                if y == 0 or y != y: continue
                add(T.fop('frem', F64, a, b), T.FOPS['frem'](F64, x, y), 'frem')
    return env, pool
t0 = time.time(); n = q = 0
while time.time() - t0 < budget:
    s0 = R.getrandbits(48); R.seed(s0); n += 1
    try:
        env, pool = build()
        ctx = realctx.Ctx(realctx.Stats(), 4000)
        vs = [t for s in pool for t, v in pool[s] if isT(t) and t.op == 'var']
        pc = [t if v else T.bnot(t) for t, v in pool[1] if isT(t) and R.random() < .3]
        for t in vs:
            if R.random() < .5:
                v = env[t.p[0]]
                pc.append(T.icmp('eq', t.s, t, v) if t.s > 0 else T.fcmp('oeq', t.s, t, v))
        pc = [c for c in pc if isT(c)]
        ctx.sync(pc)
        for s in pool:
            for t, v in pool[s]:
                if not isT(t) or t.op == 'var': continue
                if s < 0 and (v != v or abs(v) == math.inf): continue
                if s == 1: conds = [t if v else T.bnot(t)]
                elif s > 0: conds = [T.icmp('eq', s, t, v), T.icmp('ule', s, t, v), T.icmp('sge', s, t, v)]
                else: conds = [T.fcmp('oeq', s, t, v), T.fcmp('ole', s, t, v), T.fcmp('oge', s, t, v)]
                for c in conds:
                    if not isT(c):
                        if not c: raise Bad('folded to false: %s %r' % (T.show(t, 6), v))
                        continue
                    q += 1
                    if not ctx.feasible(c): raise Bad('infeasible: %s = %r under %s' % (T.show(t, 7), v, [T.show(x, 5) for x in pc]))
                if s > 1 and R.random() < .2:
                    e = ctx.enum(t, s, 40); q += 1
                    if e is not None and v not in [x & ((1 << s) - 1) for x in e]: raise Bad('enum %r misses %r: %s' % (e, v, T.show(t, 7)))
                if R.random() < .05:
                    c = conds[0]; q += 1
                    if isT(c) and ctx.prove(T.bnot(c), 3, 500)[0]: raise Bad('proved false: %s = %r' % (T.show(t, 7), v))
    except Bad as e:
        print('UNSOUND seed=%d env=%r: %s' % (s0, env if 'env' in dir() else None, e)); sys.exit(1)
    R.seed(s0 + 1)
print('engine self-test: %d graphs, %d queries, no unsoundness' % (n, q))
