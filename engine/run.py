"""Driver: build, explore, replay, report."""
import os, sys, re, json, time, subprocess, shutil, tempfile, hashlib, random, struct, concurrent.futures
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
CACHE = os.path.join(VERIF, '.cache')
REPO = os.environ.get('BAE_REPO', '/repo')

def env():
    e = dict(os.environ)
    e['RUSTUP_TOOLCHAIN'] = 'nightly'; e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'target')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'): e.pop(k, None)
    return e
def build_ir(prop):
    """LLVM IR of the harnesses of one property linked with the crate, its dependencies and std"""
    f = prop.lower()
    rel = os.path.join(CACHE, 'target', 'release')
    def lls():
        return [os.path.join(d, n) for d, _, ns in os.walk(rel) for n in ns if n.startswith('harness') and n.endswith('.ll')]
    for p in lls(): os.unlink(p)
    r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml'), '--features', f, '--',
                        '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'linker=/bin/true', '--cfg', 'sx_%d' % (time.time() * 1000)],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    l = lls()
    if r.returncode or not l: return None, r.stdout
    with open(max(l, key=os.path.getmtime)) as h: return h.read(), r.stdout
def start_native(prop):
    return subprocess.Popen(['cargo', 'build', '--release', '--offline', '--manifest-path', os.path.join(VERIF, 'replay', 'Cargo.toml'), '--features', prop.lower()],
                            env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
NATIVE = os.path.join(CACHE, 'target', 'release', 'replay')

def enc_inputs(inputs):
    out = []
    for k, v in inputs:
        if k == 'f64': out.append(struct.unpack('<Q', struct.pack('<d', v))[0])
        elif k == 'f32': out.append(struct.unpack('<I', struct.pack('<f', v))[0])
        else: out.append(v & (2**64 - 1))
    return out
def native(harness, inputs, tmp, timeout=20):
    """run the real code on a concrete input vector"""
    fd, p = tempfile.mkstemp(dir=tmp); os.close(fd)
    with open(p, 'w') as h: h.write('\n'.join(map(str, enc_inputs(inputs))))
    try:
        r = subprocess.run([NATIVE, harness, p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, cwd=tmp)
        out = r.stdout.splitlines(); code = r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace').splitlines() if isinstance(e.stdout, (bytes, type(None))) else e.stdout.splitlines()
        out.append('HANG'); code = -1
    os.unlink(p)
    res = {'obs': [], 'fail': [], 'panic': None, 'hang': False, 'assume': False, 'end': False}
    for l in out:
        if l.startswith('OBS '):
            _, k, b = l.split(); res['obs'].append((k, int(b)))
        elif l.startswith('FAIL '): res['fail'].append(int(l[5:]))
        elif l.startswith('PANIC'): res['panic'] = l[6:]
        elif l == 'HANG': res['hang'] = True
        elif l == 'ASSUME': res['assume'] = True
        elif l == 'END': res['end'] = True
    if not res['end'] and not res['panic'] and not res['hang'] and not res['assume']: res['panic'] = 'abnormal end (status %s)' % code
    return res
def bad(res): return bool(res['fail'] or ((res['panic'] or res['hang']) and not res['assume']))

def variations(c, rng, n):
    """the solver's candidate first, then neighbours of it inside the same domain"""
    yield c['inputs']
    for k in range(n):
        out = []
        for (kind, v), d in zip(c['inputs'], c['doms']):
            if d is None: out.append((kind, v)); continue
            lo, hi, s = d
            if s < 0:
                w = (hi - lo); f = 10.0 ** rng.choice([-7, -6, -5, -4, -3, -2, -1])
                x = v + w * f * rng.uniform(-1, 1)
                if k % 4 == 3: x = rng.uniform(lo, hi)
                x = max(lo, min(hi, x))
                if s == -32: x = struct.unpack('<f', struct.pack('<f', x))[0]; x = max(lo, min(hi, x))
                out.append((kind, x))
            else:
                x = v if rng.random() < .5 else v + rng.choice([-2, -1, 1, 2])
                if kind == 'i64' and x >> 63: x -= 1 << 64
                out.append((kind, max(lo, min(hi, x))))
        yield out

def messages(prop):
    src = open(os.path.join(VERIF, 'harness', 'src', prop.lower() + '.rs')).read().splitlines()
    return lambda i: src[i - 1].strip() if isinstance(i, int) and 0 < i <= len(src) else str(i)

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k['property'] == prop and k.get('status') == 'open']

def main(argv):
    t0 = time.time()
    prop = argv[0]; tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = argv[2].split(',') if len(argv) > 2 else None
    os.makedirs(CACHE, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    import llparse, terms, sym, explore, config
    cfg = config.get(prop, tier)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    text, log = build_ir(prop)
    if text is None:
        print(log[-4000:]); print('ERROR property=%s: the harness does not build against /repo' % prop); return 2
    nat = start_native(prop)
    mod = llparse.Module(text)
    tb = time.time() - t0
    E = sym.Executor(mod, {'timeout': cfg.get('timeout', 8000), 'maxsteps': cfg.get('maxsteps', 2_000_000), 'prefix': [int(x) for x in os.environ['SX_PREFIX'].split(',')] if os.environ.get('SX_PREFIX') else None})
    hs = [h for h in cfg['harnesses'](mod) if not only or h in only]
    tmp = tempfile.mkdtemp(prefix='sx', dir=CACHE)
    tx = time.time()
    X = explore.Explorer(E, nproc=int(os.environ.get('SX_NPROC', cfg.get('nproc', 8))), budget=cfg.get('budget', 500 if tier == 'quick' else 3000), nra=cfg.get('nra', 4000), level=cfg.get('level', 3), tmp=tmp, wit=cfg.get('wit', 2), skip={k['harness'] for k in known_findings(prop)})
    R = X.run(hs)
    tx = time.time() - tx
    nlog = nat.communicate()[0]
    if nat.returncode:
        print(nlog[-3000:]); print('ERROR property=%s: replay binary does not build' % prop); return 2
    fcntl.flock(lock, fcntl.LOCK_UN)
    msg = messages(prop)
    rng = random.Random(seed)
    # ---- witnesses: the encoding against the compiled code, bit for bit
    wit_ok = 0; wit_bad = []; viol = {}
    pool = concurrent.futures.ThreadPoolExecutor(8)
    wl = {}
    for w in R['wits']: wl.setdefault(w['harness'], []).append(w)
    ws = []
    for h, l in wl.items():
        l.sort(key=lambda w: (w['choices'], repr(w['inputs']))); rng.shuffle(l); ws += l[:cfg.get('maxwit', 25)]
    for w, r in zip(ws, pool.map(lambda w: native(w['harness'], w['inputs'], tmp), ws)):
        if bad(r): viol.setdefault((w['harness'], r['fail'][0] if r['fail'] else 'panic'), (w, r)); continue
        if r['obs'] == w['obs']: wit_ok += 1
        elif nan_eq(r['obs'], w['obs']): wit_ok += 1
        else: wit_bad.append((w, r))
    # ---- candidates: only what the real code reproduces counts
    groups = {}
    for c in R['cands']: groups.setdefault((c['harness'], c['id']), []).append(c)
    def try_cands(item):
        key, cs = item
        rg = random.Random('%d %s' % (seed, key))
        for extra in (0, 24):
            for c in cs[:24 if extra == 0 else 8]:
                for k, v in enumerate(variations(c, rg, extra)):
                    if extra and k == 0: continue
                    r = native(c['harness'], v, tmp)
                    if bad(r): return key, dict(c, inputs=v), r
        return key, None, None
    for key, c, r in pool.map(try_cands, sorted(groups.items(), key=repr)):
        if c is not None: viol.setdefault(key, (c, r))
    # ---- report
    known = known_findings(prop); rc = 0; nviol = 0; printed = set()
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for (h, i), (c, r) in sorted(viol.items(), key=repr):
        what = 'harness %s: %s' % (h, '; '.join('check failed at line %d: %s' % (k, msg(k)) for k in sorted(set(r['fail']))[:3]) if r['fail'] else ('panic: ' + r['panic']) if r['panic'] else 'does not terminate')
        kf = [k for k in known if k['harness'] == h and re.search(k['match'], what) and (not k.get('where') or eval(k['where'], {}, {'inputs': [v for _, v in c['inputs']]}))]
        if kf:
            for k in kf:
                if k['id'] not in printed:
                    printed.add(k['id']); print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        nviol += 1
        f = os.path.join(rdir, '%s-%s-%s.json' % (prop, h, i))
        json.dump({'property': prop, 'harness': h, 'what': what, 'inputs': [[k, v if k != 'f64' and k != 'f32' else repr(v)] for k, v in c['inputs']], 'u64': enc_inputs(c['inputs']), 'native': r}, open(f, 'w'), indent=1)
        if nviol <= 10: print('VIOLATION property=%s replay=%s  %s' % (prop, f, what))
        rc = 1
    proved = sum(R['proved'].values()); refuted = sum(R['refuted'].values())
    und = {k: n for k, n in R['refuted'].items() if k not in viol and not any(v[0] == k[0] for v in viol)}
    expect = [h for h in hs if not any(k[0] == h and e == 'done' for (k, e) in [((x[0],), x[1]) for x in R['ends']])]
    for (h, i), n in sorted(und.items(), key=repr):
        infos = sorted(set(c['info'] for c in groups.get((h, i), []) if c['info']))
        print('INCONCLUSIVE property=%s %s %s (%d obligations) %s %s' % (prop, h, i, n, msg(i), infos[:3]))
    for h in expect:
        if not any(v[0] == h for v in viol): print('INCONCLUSIVE property=%s %s: no path ran to completion' % (prop, h))
    if R['timeouts']: print('INCONCLUSIVE property=%s: %d paths left unexplored within the time budget' % (prop, R['timeouts']))
    if R['crashed']: print('INCONCLUSIVE property=%s: %d workers died' % (prop, R['crashed']))
    if wit_bad:
        print('INCONCLUSIVE property=%s: %d witnesses where the encoding and the compiled code differ: %s' % (prop, len(wit_bad), [(w['harness'], w['inputs'], [(a, b) for a, b in zip(w['obs'], r['obs']) if a != b][:3]) for w, r in wit_bad[:2]]))
    st = R['stats']
    ends = {'%s:%s' % k: n for k, n in sorted(R['ends'].items())}
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': nviol,
          'coverage': {
              'states': R['paths'] + R['forks'], 'transitions': R['steps'], 'traces_validated_against_impl': wit_ok,
              'samples': [{'harness': w['harness'], 'choices': w['choices'], 'inputs': [[k, repr(v)] for k, v in w['inputs']][:40]} for w in ws[:6]] or [{'harness': h, 'id': i} for h, i in list(groups)[:5]],
              'obligations': proved + refuted, 'discharged': proved,
              'obligations_by_check': {'%s:%s' % k: n for k, n in sorted(R['proved'].items(), key=repr)},
              'undecided': {'%s:%s' % k: n for k, n in sorted(und.items(), key=repr)},
              'paths': R['paths'], 'path_ends': ends, 'unexplored_paths': R['timeouts'],
              'functions_encoded': functions(R['funcs']), 'instructions_executed': R['steps'],
              'queries': st['queries'], 'unsat': st['unsat'], 'sat': st['sat'], 'unknown': st['unknown'], 'decided_by_intervals': st['trivial'],
              'solver_time_s': round(st['time'], 2), 'build_s': round(tb, 2), 'explore_s': round(tx, 2),
              'bounds': cfg['bounds'], 'known_findings_seen': sorted(printed), 'solver': 'z3 ' + __import__('z3').get_version_string(),
              'explanation': 'Every path of the listed harness functions over the LLVM IR of the current /repo tree; each obligation is decided for all values of the symbolic inputs in the stated bounds.'},
          'assumptions': cfg.get('assumptions', []) + ['the IR is that of rustc -O with overflow checks, panic=abort, fat LTO; libm functions obey the error bounds stated in DESIGN.md']}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, sort_keys=True)
    shutil.rmtree(tmp, ignore_errors=True)
    print('%s %s: %d paths, %d/%d obligations discharged, %d queries, solver %.1fs, %d traces validated, build %.1fs explore %.1fs wall %.1fs' % (prop, tier, R['paths'], proved, proved + refuted, st['queries'], st['time'], wit_ok, tb, tx, wall))
    if rc == 0 and proved == 0:
        print('ERROR property=%s: nothing was decided' % prop); return 2
    return rc
def nan_eq(a, b):
    if len(a) != len(b): return False
    for (k, x), (l, y) in zip(a, b):
        if k != l: return False
        if x == y: continue
        n = (lambda v: (v & 0x7fffffff) > 0x7f800000) if k == 'f32' else (lambda v: (v & (2**63-1)) > 0x7ff0000000000000)
        if not (k in ('f32', 'f64') and n(x) and n(y)): return False
    return True
def functions(fs):
    out = {}
    for n, k in fs.items():
        d = demangle(n)
        out[d] = out.get(d, 0) + k
    keep = {d: k for d, k in out.items() if 'bae_rs' in d or d.startswith('c') or 'wav' in d or 'riff' in d or 'petgraph' in d or 'main' in d}
    r = ['%s (%d instr)' % (d, k) for d, k in sorted(keep.items())]
    o = len(out) - len(keep)
    return r[:150] + (['and %d further std/dependency functions (%d instr)' % (o, sum(out.values()) - sum(keep.values()))] if o else [])
def demangle(n):
    """v0 names reduced to their path components"""
    if not n.startswith('_R'): return n
    parts = []; i = 0
    for m in re.finditer(r'(?:s[0-9a-zA-Z]*_)?(\d+)_?', n): pass
    i = 2
    while i < len(n):
        m = re.compile(r'(\d+)(_?)').match(n, i)
        if m and int(m.group(1)) < 80 and int(m.group(1)) > 0:
            k = int(m.group(1)); s = n[m.end():m.end() + k]
            if len(s) == k and re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', s): parts.append(s); i = m.end() + k; continue
        i += 1
    return '::'.join(parts) or n
