"""Path exploration over several processes, obligations, witnesses."""
import os, sys, time, pickle, tempfile, shutil, traceback, math
import terms as T
import sym
from sym import PathEnd, Unsup
from terms import isT, F32, F64

SLOW = float(os.environ.get('SX_SLOW', 0))
class Explorer:
    def __init__(self, E, nproc=8, budget=600, wit=2, nra=4000, level=3, tmp=None, skip=(), grace=40):
        self.skip = skip; self.grace = grace; self.hit = False
        self.E = E; self.nproc = nproc; self.deadline = time.time() + budget; self.wit = wit
        self.nra = nra; self.level = level
        self.rec = self.fresh()
        self.tmp = tmp
        E.on_check = self.on_check
        E.deadline = self.deadline; E.late = self.late
    def late(self):
        if not self.hit and os.path.exists(os.path.join(self.tmp, 'hit')):
            self.hit = True; self.deadline = min(self.deadline, time.time() + self.grace)
        return time.time() > self.deadline
    def fresh(self):
        return {'paths': 0, 'ends': {}, 'steps': 0, 'proved': {}, 'refuted': {}, 'cands': [], 'wits': [], 'wcount': {}, 'unsup': {}, 'stats': None, 'funcs': {}, 'timeouts': 0, 'forks': 0, 'panics': []}
    # ------------------------------------------------------------ obligations
    def env_inputs(self, model):
        out = []
        for kind, v in self.E.st.inputs:
            if isT(v):
                i = v.p[0]
                if model is not None and i in model: x = model[i]
                else: x = mid(v)
                out.append((kind, x))
            else: out.append((kind, v))
        return out
    def on_check(self, c, cid):
        E = self.E; st = E.st; key = (st.harness, cid)
        r = self.rec
        if not isT(c):
            if c:
                r['proved'][key] = r['proved'].get(key, 0) + 1; E.stats.trivial += 1
                return
            E.ctx.sync(st.pc)
            m = E.ctx.path_model()
            if m is None and E.ctx._check() == 'unsat': raise PathEnd('infeasible')
            ok, models = E.ctx.prove(0, self.level, self.nra)      # is this path really feasible?
            if ok: raise PathEnd('infeasible')
            self.refute(key, ([m] if m is not None else []) + [x for x in models if x is not None] or [None], 'check', cond=0)
            st.tainted = True
            return
        k = st.known.get(c.id)
        if k == 1:
            r['proved'][key] = r['proved'].get(key, 0) + 1; return
        E.ctx.sync(st.pc)
        tq = time.time()
        ok, models = E.ctx.prove(c, self.level, self.nra)
        if SLOW and time.time() - tq > SLOW: print('SLOW %.1f' % (time.time() - tq), key, st.choices, file=sys.stderr)
        if ok:
            r['proved'][key] = r['proved'].get(key, 0) + 1
            st.known[c.id] = 1
            if c.op == 'icmp' and c.p[0] == 'eq' and c.p[1] >= 8 and isT(c.args[0]) and isT(c.args[1]): st.pc.append(c)      # a fact from here on
            return
        if os.environ.get('SX_DEBUG'):
            print('UNPROVED', key, st.choices, T.show(c, int(os.environ.get("SX_SHOW", 5)))[:2000], [dict(m) for m in models], file=sys.stderr)
        if os.environ.get('SX_PC'):
            for q in st.pc: print('   PC', T.show(q, 9)[:600] if isT(q) else q, file=sys.stderr)
        if os.environ.get('SX_VAL'):
            C = E.ctx
            def pv(t):
                v = C.enc(t)
                return v and ' + '.join('%.6g*%s' % (float(k), '*'.join(C.atoms[i].name + str(i) + '[%.3g,%.3g]' % (float(C.atoms[i].lo if C.atoms[i].lo is not None else -9e99), float(C.atoms[i].hi if C.atoms[i].hi is not None else 9e99)) for i in m)) for m, k in v.p.items())
            for x in C.cone([c]).values():
                if x.op == 'fcmp':
                    for a in x.args: print('   VAL', T.show(a, 5), '=', pv(a), file=sys.stderr)
                if x.s < 0 and int(os.environ['SX_VAL']) > 1: print('   TERM', x.id, T.show(x, 1), '=', pv(x), file=sys.stderr)
        self.refute(key, models, 'check', cond=c)
        st.tainted = True
        if E.ctx.feasible(c):
            st.pc.append(c); st.known[c.id] = 1
        else: raise PathEnd('refuted')
    def refute(self, key, models, kind, info='', cond=0):
        r = self.rec
        if not self.hit and key[0] not in self.skip:
            for m in models:
                if m is not None and self.genuine(m, cond):
                    # a counterexample that the exact semantics confirms: explore only a little longer
                    open(os.path.join(self.tmp, 'hit'), 'w').close(); self.hit = True
                    self.deadline = min(self.deadline, time.time() + self.grace)
                    break
        r['refuted'][key] = r['refuted'].get(key, 0) + 1
        if r['refuted'][key] <= 12:
            for m in models:
                r['cands'].append({'harness': key[0], 'id': key[1], 'kind': kind, 'info': info, 'inputs': self.env_inputs(m), 'doms': [dom(v) for _, v in self.E.st.inputs], 'choices': list(self.E.st.choices)})
            if not models:
                r['cands'].append({'harness': key[0], 'id': key[1], 'kind': kind, 'info': info, 'inputs': self.env_inputs(None), 'doms': [dom(v) for _, v in self.E.st.inputs], 'choices': list(self.E.st.choices)})
    def genuine(self, m, cond):
        st = self.E.st
        env = {v.p[0]: m.get(v.p[0], mid(v)) for kind, v in st.inputs if isT(v)}
        try: vals = T.evaluate([c for c in st.pc if isT(c)] + ([cond] if isT(cond) else []), env)
        except Exception: return False
        return all(vals[:-1]) and not vals[-1] if isT(cond) else all(vals)
    # ------------------------------------------------------------ ends
    def on_end(self, kind, info):
        E = self.E; st = E.st; r = self.rec
        r['paths'] += 1; r['steps'] += st.steps
        r['ends'][(st.harness, kind)] = r['ends'].get((st.harness, kind), 0) + 1
        if os.environ.get('SX_DEBUG') and kind not in ('done', 'assume', 'infeasible'):
            print('END', st.harness, kind, info, E.where(), st.choices, file=sys.stderr)
        if kind in ('panic', 'memfault', 'steps', 'unsupported'):
            E.ctx.sync(st.pc)
            rs = E.ctx._check()
            if str(rs) == 'unsat': return
            if kind == 'panic' and E.ctx.prove(0, self.level, self.nra)[0]: return
            E.ctx._check()
            m = E.ctx.model(E.ctx.solver.model(), E.ctx.cone(st.pc)) if str(rs) == 'sat' else None
            key = (st.harness, kind)
            if kind == 'unsupported':
                r['unsup'][(st.harness, info)] = r['unsup'].get((st.harness, info), 0) + 1
            self.refute(key, [m], kind, info + ' @ ' + E.where())
        elif kind == 'done':
            n = r['wcount'].get(st.harness, 0)
            if n < self.wit and not st.tainted:
                w = self.witness()
                if w is not None:
                    r['wcount'][st.harness] = n + 1; r['wits'].append(w)
            for c in st.cover: r['ends'][(st.harness, 'cover%d' % c)] = r['ends'].get((st.harness, 'cover%d' % c), 0) + 1
    def witness(self):
        E = self.E; st = E.st
        E.ctx.sync(st.pc)
        m = E.ctx.path_model()
        if m is None: return None
        env = {}
        for kind, v in st.inputs:
            if isT(v): env[v.p[0]] = m.get(v.p[0], mid(v))
        try:
            vals = T.evaluate(st.pc, env)
        except Exception: return None
        if not all(vals): return None
        try: o = T.evaluate([v for _, v in st.obs], env)
        except Exception: return None
        obs = []
        for (k, _), v in zip(st.obs, o):
            obs.append((k, T.fbits(F64, v) if k == 'f64' else T.fbits(F32, v) if k == 'f32' else v))
        return {'harness': st.harness, 'inputs': self.env_inputs(m), 'obs': obs, 'choices': list(st.choices)}
    # ------------------------------------------------------------ main loop
    def loop(self, work):
        E = self.E
        kids = []
        while work:
            while len(work) > 1 and self.take():
                give = work.pop(0)
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        self.rec = self.fresh(); self.stat0()
                        E.fresh_ctx()
                        open(os.path.join(self.tmp, 'start.%d' % os.getpid()), 'w').close()
                        try: kk = self.loop([give])
                        except BaseException:
                            traceback.print_exc(); kk = []; code = 3
                        self.dump()
                        self.release()
                        for k in kk: os.waitpid(k, 0)
                    finally:
                        os._exit(code)
                kids.append(pid)
            st = work.pop()
            if self.late():
                self.rec['timeouts'] += 1; continue
            E.activate(st)
            x = E.step_run()
            if x[0] == 'fork':
                self.rec['forks'] += 1
                alts = x[1]
                new = []
                for i, (c, kn) in enumerate(alts):
                    s = st if i == len(alts) - 1 else st.fork()
                    if s is st: st.tok = object()
                    if c is not None and isT(c): s.pc.append(c)
                    s.known.update(kn)
                    new.append(s)
                work.extend(reversed(new))
            else:
                if x[1] == 'timeout': self.rec['timeouts'] += 1
                else: self.on_end(x[1], x[2])
        return kids
    def stat0(self):
        s = self.E.stats; s.queries = s.unsat = s.sat = s.unknown = s.exact = s.trivial = 0; s.time = 0.0
    def dump(self):
        self.rec['stats'] = dict(self.E.stats.__dict__); self.rec['funcs'] = dict(self.E.funcs_seen)
        f = os.path.join(self.tmp, 'res.%d' % os.getpid())
        with open(f + '.tmp', 'wb') as h: pickle.dump(self.rec, h)
        os.rename(f + '.tmp', f)
    def take(self):
        if self.nproc <= 1: return False
        try: return len(os.read(self.rfd, 1)) == 1
        except BlockingIOError: return False
    def release(self): os.write(self.wfd, b'x')
    def run(self, harnesses):
        E = self.E
        own = self.tmp is None
        if own: self.tmp = tempfile.mkdtemp(prefix='sx')
        self.rfd, self.wfd = os.pipe(); os.set_blocking(self.rfd, False)
        os.write(self.wfd, b'x' * (self.nproc - 1))
        work = []
        for h in harnesses: work.append(E.start(h, h))
        work.reverse()
        open(os.path.join(self.tmp, 'start.%d' % os.getpid()), 'w').close()
        kids = self.loop(work)
        self.dump()
        for k in kids: os.waitpid(k, 0)
        tot = None; crashed = 0
        for f in os.listdir(self.tmp):
            if f.startswith('start.'):
                g = os.path.join(self.tmp, 'res.' + f[6:])
                if not os.path.exists(g): crashed += 1; continue
                with open(g, 'rb') as h: tot = merge(tot, pickle.load(h))
        tot['crashed'] = crashed
        if own: shutil.rmtree(self.tmp)
        os.close(self.rfd); os.close(self.wfd)
        return tot

def merge(a, b):
    if a is None: return b
    for k in ('paths', 'steps', 'timeouts', 'forks'): a[k] += b[k]
    for k in ('ends', 'proved', 'refuted', 'unsup', 'wcount'):
        for x, n in b[k].items(): a[k][x] = a[k].get(x, 0) + n
    a['cands'] += b['cands']; a['wits'] += b['wits']
    a['funcs'].update(b['funcs'])
    for k, v in b['stats'].items(): a['stats'][k] += v
    return a
def dom(v):
    return (v.p[1], v.p[2], v.s) if isT(v) else None
def mid(v):
    lo, hi = v.p[1], v.p[2]
    if v.s < 0: return T.rnd(v.s, (lo + hi) / 2)
    return ((lo + hi) // 2) & T.mask(v.s)
