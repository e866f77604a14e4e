"""Driver: python3-vt vc/check.py <property> [--tier quick|thorough] [--only proof] [--keep]
Recompiles the real sources of /repo together with the contracts of /verif/contracts, generates and discharges the obligations
of every proof of the property, replays counterexamples natively, writes evidence/<property>.json."""
import sys, os, re, json, time, subprocess, glob, shutil, hashlib, argparse, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import inlinestd
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18'
PY = sys.executable

TRUSTED = [
 'clang 18 (C++ to LLVM IR at -O0), the IR executor in /verif/vc (generator of the obligations), z3 5.3.2 / cvc5 1.1.2',
 'models of malloc/new, memcpy/memset/strlen/..., C++ exceptions and libm in vc/builtins_vc.py; libstdc++ node hooks (list, map)',
 'memory allocation succeeds below 2^40 bytes; distinct objects never overlap; object addresses do not wrap',
 'float and double are treated as mathematical reals (no rounding, overflow or NaN inputs); sin, cos, ... by their algebraic identities',
]

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)

def directives(path):
    d = {}
    for l in open(path, errors='replace'):
        m = re.match(r'//\s*VC-([A-Z]+):\s*(.*)', l)
        if m: d[m.group(1)] = (d.get(m.group(1), '') + ' ' + m.group(2)).strip()
    return d

def includes():
    inc = ['-I' + VERIF + '/contracts', '-I' + VERIF + '/stubs_pre']
    for p in sorted(glob.glob(REPO + '/*/include')): inc.append('-I' + p)
    inc += ['-I' + VERIF + '/stubs', '-I' + REPO, '-isystem', '/usr/include/eigen3']
    return inc

def expand(s): return s.replace('${REPO}', REPO).replace('${VERIF}', VERIF).split()

class Unit:
    def __init__(self, path, work, tier):
        self.path = path; self.name = os.path.splitext(os.path.basename(path))[0]; self.work = work; self.d = directives(path); self.tier = tier
        self.src = re.sub(r'^#include "(\w+\.inc)"', lambda m: open(os.path.join(os.path.dirname(path), m.group(1))).read(), open(path).read(), flags=re.M)
        m = re.search(r'^#define P\(n\) (\w+?)##n', self.src, re.M)
        if m: self.src = re.sub(r'\bP\((\w+)\)', lambda k: m.group(1) + k.group(1), self.src)
        self.nat = None; self.lock = threading.Lock()
    def compile(self):
        self.bc = os.path.join(self.work, self.name + '.bc')
        std = self.d.get('STD', 'c++14')
        ll = os.path.join(self.work, self.name + '.ll')
        cmd = [CLANG, '-std=' + std, '-g', '-emit-llvm', '-S', '-fno-discard-value-names', '-fno-access-control', '-w',
               '-DVC_SYMBOLIC', '-DVC_TIER=%d' % (self.tier == 'thorough'), '-include', VERIF + '/contracts/vc_prelude.h',
               '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize']
        cmd += expand(self.d.get('PREINC', '')) + includes() + expand(self.d.get('FLAGS', '')) + expand(self.d.get('SYMFLAGS', ''))
        r = sh(cmd + [self.path, '-o', ll])
        if r.returncode: return 'compilation of %s against %s failed:\n%s' % (self.name, REPO, r.stderr[-4000:])
        inlinestd.run(ll, ll)
        r = sh(['opt-18', '-passes=always-inline,function(sroa)', ll, '-o', self.bc])
        if r.returncode: return 'opt failed: ' + r.stderr[-2000:]
        os.unlink(ll)
        return None
    def native(self, proof):
        with self.lock:
            if self.nat is None:
                std = self.d.get('STD', 'c++14')
                base = [CLANG, '-std=' + std, '-g', '-O1', '-w', '-fno-access-control', '-fsanitize=address,undefined,float-divide-by-zero', '-fno-sanitize=vptr,alignment',
                        '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-DVC_NATIVE', '-DVC_TIER=%d' % (self.tier == 'thorough')]
                o = os.path.join(self.work, self.name + '.nat.o'); rt = os.path.join(self.work, self.name + '.rt.o')
                r = sh(base + includes() + expand(self.d.get('FLAGS', '')) + expand(self.d.get('NATFLAGS', '')) + ['-c', self.path, '-o', o])
                if r.returncode == 0: r = sh(base + includes() + ['-c', HERE + '/native.cpp', '-o', rt])
                self.nat = (base, o, rt) if r.returncode == 0 else ('error', r.stderr[-3000:])
            if self.nat[0] == 'error': return None
            exe = os.path.join(self.work, proof + '.exe')
            if not os.path.exists(exe):
                th = exe + '.cpp'
                open(th, 'w').write('extern "C" void vc_proof_%s(); extern "C" void vc_entry() { vc_proof_%s(); }\n' % (proof, proof))
                r = sh(self.nat[0] + [th, self.nat[1], self.nat[2], '-o', exe] + expand(self.d.get('LIBS', '')) + ['-lpthread', '-lrt'])
                if r.returncode: self.nat = ('error', r.stderr[-3000:]); return None
            return exe

def proofs_of(unit, prop):
    out = []
    for m in re.finditer(r'^VC_PROOF\((\w+)', unit.src, re.M):
        if m.group(1).split('_')[0] == prop: out.append(m.group(1))
    return out

def cases_of(unit, pid):
    m = re.search(r'^VC_CASES\(%s,\s*([^)]*)\)' % pid, unit.src, re.M)
    if not m: return 1
    e = m.group(1)
    t = re.match(r'VC_TIER\s*\?\s*(\d+)\s*:\s*(\d+)', e.strip())
    if t: return int(t.group(1 if unit.tier == 'thorough' else 2))
    return int(e)

def bounded_of(unit, pid):
    m = re.search(r'^VC_BOUNDED\(%s,\s*"([^"]*)"\)' % pid, unit.src, re.M)
    return m.group(1) if m else None

def known(prop):
    p = VERIF + '/KNOWN_FINDINGS.json'
    if not os.path.exists(p): return []
    return [e for e in json.load(open(p))['findings'] if e['property'] == prop and e['status'] == 'open']

def write_inputs(path, f, head):
    with open(path, 'w') as o:
        for l in head: o.write('# ' + l.replace('\n', '\n# ') + '\n')
        o.write('case %d\n' % f.get('case', 0))
        for x in f['inputs'] or []:
            if x[0] == 'array':
                _, name, kd, es, cnt, vals = x
                vs = [repr(v[0] / v[1]) if isinstance(v, list) else str(v) for v in vals]
                o.write('a %d %d %s %s %s\n' % (cnt, es, kd, ' '.join(vs), name))
            elif x[0] == 'f':
                v = x[3]; o.write('f %s %s\n' % (repr(v[0] / v[1]) if isinstance(v, list) else v, x[1]))
            else: o.write('i %s %s\n' % (x[3], x[1]))

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')

def run_native(exe, args, timeout, work, fork=False):
    try: r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=dict(ENV, VC_FORK='1') if fork else ENV, cwd=work, errors='replace')
    except subprocess.TimeoutExpired as e: return 'timeout', ''
    t = r.stdout + r.stderr
    if r.returncode == 0: return 'held', t
    if r.returncode == 3 and 'DISCARDED' in t: return 'discarded', t
    if 'VC-VIOLATION' in t or 'ERROR: AddressSanitizer' in t or 'runtime error' in t or r.returncode < 0 or 'terminate' in t: return 'violation', t
    return 'held?', t

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true'); ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); prop = a.prop
    strict = os.environ.get('VC_STRICT')
    work = os.path.join(VERIF, 'out', prop + ('-' + a.only if a.only else '')); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    units = []
    for p in sorted(glob.glob(VERIF + '/contracts/*.cpp')):
        u = Unit(p, work, a.tier)
        ps = [x for x in proofs_of(u, prop) if not a.only or re.search(a.only, x)]
        if ps: u.proofs = ps; units.append(u)
    if not units: print('no proofs for', prop); return 2
    with ThreadPoolExecutor(8) as ex: errs = list(ex.map(lambda u: u.compile(), units))
    if any(errs):
        for e in errs:
            if e: print('EXTRACTION FAILED:', e)
        return 2
    deadline = t0 + (780 if a.tier == 'quick' else 14000)
    tasks = []
    for u in units:
        for p in u.proofs:
            for c in range(cases_of(u, p)): tasks.append((u, p, c))
    tasks.reverse()      # the widest types come last and take longest
    jr, jw = os.pipe(); os.set_blocking(jr, False); os.write(jw, b'+' * a.j)
    jenv = dict(os.environ, VC_JOBS='%d,%d' % (jr, jw))
    def slot():
        while True:
            try:
                if os.read(jr, 1): return
            except BlockingIOError: time.sleep(0.05)
    def work1(t):
        slot()
        try: return work2(t)
        finally: os.write(jw, b'+')
    def work2(t):
        u, p, c = t
        out = os.path.join(work, '%s.%d.json' % (p, c))
        wall = min(700 if a.tier == 'quick' else 3000, max(30, deadline - time.time())); o = {'wall': wall}
        try: r = subprocess.run([PY, HERE + '/prove.py', u.bc, p, str(c), out, json.dumps(o)], capture_output=True, text=True, timeout=wall + 60, env=jenv, pass_fds=(jr, jw))
        except subprocess.TimeoutExpired: r = None; d = {'proof': p, 'case': c, 'error': 'worker timeout'}
        if r is not None: d = json.load(open(out)) if os.path.exists(out) else {'proof': p, 'case': c, 'error': 'worker died: ' + r.stderr[-800:]}
        for k, v in (('obligations', {}), ('failures', []), ('undecided', []), ('covers', {}), ('targets', {}), ('functions', []), ('solver_time', 0), ('queries', 0), ('backends', {}), ('paths', 0), ('time', 0)): d.setdefault(k, v)
        if a.v: print('  %-40s case %d  paths %5d  oblig %5d  fail %d  undecided %d  %.1fs (solver %.1fs) %s' % (p, c, d['paths'], sum(o['n'] for o in d['obligations'].values()), len(d['failures']), len(d['undecided']), d['time'], d['solver_time'], (d['error'] or '')[-600:])); sys.stdout.flush()
        return d
    with ThreadPoolExecutor(a.j) as ex: results = list(ex.map(work1, tasks))
    byp = {}
    for (u, p, c), d in zip(tasks, results): byp.setdefault(p, (u, []))[1].append(d)
    # ---- aggregate
    ob_n = ob_ok = b_n = b_ok = 0; obnames = []; backends = {}; funcs = set(); stime = 0; violations = []; undecided = []; knownlines = []; problems = []; bounded = []; queries = paths = 0
    targets = {}
    kf = {e['proof']: e for e in known(prop)}
    samples = []
    for p, (u, ds) in byp.items():
        bt = bounded_of(u, p)
        if p in kf:
            fl = [f for d in ds for f in d['failures']]
            e = kf[p]
            other = [f for f in fl if f['name'] not in e['obligations']]
            hit = [f for f in fl if f['name'] in e['obligations']]
            if hit: knownlines.append('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
            else: print('note: known finding %s no longer shows' % p)
            if other: violations.append((u, p, other))
            for d in ds:
                if d['error']: undecided.append((u, p, d['case'], d['error']))
            continue
        if bt: bounded.append('%s: %s' % (p, bt))
        n = sum(o['n'] for d in ds for o in d['obligations'].values()); ok = sum(o['ok'] for d in ds for o in d['obligations'].values())
        if bt: b_n += n; b_ok += ok
        else: ob_n += n; ob_ok += ok
        ens = 0
        for d in ds:
            for k, o in d['obligations'].items():
                if o['kind'] != 'safety': ens += o['n']
                obnames.append('%s/%s' % (p, k))
                for b, x in o['backends'].items(): backends[b] = backends.get(b, 0) + x
            funcs.update(d['functions']); stime += d['solver_time']; queries += d['queries']; paths += d['paths']
            for k, v in d['targets'].items(): targets[k] = targets.get(k, False) or v
            if d['error']: undecided.append((u, p, d['case'], d['error']))
            for x in d['undecided']: undecided.append((u, p, d['case'], x))
        cov = {}
        for d in ds:
            for k, v in d['covers'].items(): cov[k] = cov.get(k, False) or v
        bad = [k for k, v in cov.items() if not v]
        if bad: problems.append('%s: unreachable cover %s (vacuous contract?)' % (p, bad))
        if ens == 0 and not any(d['error'] for d in ds): problems.append('%s: no postcondition was reached (vacuous contract?)' % p)
        tl = {}
        for d in ds:
            for k, v in d['targets'].items(): tl[k] = tl.get(k, False) or v
        miss = [k for k, v in tl.items() if not v]
        if miss and not any(d['error'] for d in ds): problems.append('%s: function under contract never executed: %s' % (p, miss))
        fl = [f for d in ds for f in d['failures']]
        if fl: violations.append((u, p, fl))
    # ---- replay
    out_lines = []; replays = []
    def confirm(u, p, fl):
        """(path, confirmed)"""
        inductive = re.search(r'^VC_INDUCTIVE\(%s\)' % p, u.src, re.M)   # starts from states allowed by an invariant, which need not be reached
        rp = os.path.join(work, 'replay-%s.txt' % p)
        seen = {}
        for f in fl: seen.setdefault(f['name'], []).append(f)
        exe = None if a.no_native or inductive else u.native(p)
        cand = []
        for n in seen: cand += seen[n][:4]
        log = []
        for f in cand[:24]:
            head = ['property %s, proof %s, failed obligation: %s' % (prop, p, f['name']), 'at ' + f['where'], 'call stack: ' + ' <- '.join(reversed(f['stack'][-8:]))]
            if f['inputs'] is None: continue
            ip = os.path.join(work, 'cex-%s.txt' % p); write_inputs(ip, f, head)
            if exe:
                res, txt = run_native(exe, ['replay', ip], 60, work)
                log.append('%s: native replay: %s' % (f['name'], res))
                if res == 'violation':
                    with open(rp, 'w') as o: o.write(open(ip).read() + '# native replay of the counterexample against the real code:\n# ' + txt[-3000:].replace('\n', '\n# ') + '\n')
                    return rp, True
        if exe:
            for c in sorted(set(f['case'] for f in fl))[:4]:
                wf = os.path.join(work, 'wit-%s.txt' % p)
                if os.path.exists(wf): os.unlink(wf)
                res, txt = run_native(exe, ['search', str(seed), '2000000', '15', str(c), wf], 60, work, 'NATIVE' in u.d)
                log.append('native search case %d: %s' % (c, res))
                if res == 'violation':
                    with open(rp, 'w') as o:
                        o.write('# property %s, proof %s, failed obligations: %s\n' % (prop, p, ', '.join(seen)))
                        if os.path.exists(wf): o.write(open(wf, errors='replace').read())
                        o.write('# native run against the real code:\n# ' + txt[-3000:].replace('\n', '\n# ') + '\n')
                    return rp, True
        f = cand[0]
        write_inputs(rp, f, ['property %s, proof %s, failed obligations: %s' % (prop, p, ', '.join(seen)), 'at ' + f['where'], 'call stack: ' + ' <- '.join(reversed(f['stack'][-8:])), 'solver counterexample below; not reproduced natively'] + log + ([] if exe or a.no_native else ['native harness: ' + str(u.nat)]))
        return rp, False
    confirmed = False; nviol = 0
    with ThreadPoolExecutor(4) as ex: confs = list(ex.map(lambda v: confirm(*v), violations))
    order = sorted(zip(violations, confs), key=lambda x: not x[1][1])
    for (u, p, fl), (rp, okk) in order:
        nviol += 1
        names = sorted(set(f['name'] for f in fl))
        print('failed: %s: %s%s' % (p, '; '.join(names), '' if okk else ' (not reproduced natively)'))
        f = fl[0]; print('   at', f['where'])
    if order:
        (u, p, fl), (rp, okk) = order[0]
        out_lines.append('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if okk else ' no-failing-input-found'))
    # ---- undecided obligations: native exploration of the same contract as bounded stand-in
    fallback = []
    if undecided and not order and not strict:
        seen = set()
        todo = []
        for u, p, c, why in undecided:
            print('undecided: %s case %d: %s' % (p, c, why[-300:]))
            if (p, c) not in seen: seen.add((p, c)); todo.append((u, p, c, why))
        def fb(t):
            u, p, c, why = t
            exe = u.native(p)
            if not exe: return t, 'error', ''
            wf = os.path.join(work, 'wit-%s-%d.txt' % (p, c))
            res, txt = run_native(exe, ['search', str(seed), '3000000', '20', str(c), wf], 90, work, 'NATIVE' in u.d)
            return t, res, txt
        with ThreadPoolExecutor(8) as ex:
            for (u, p, c, why), res, txt in ex.map(fb, todo[:40]):
                fallback.append({'proof': p, 'case': c, 'why_undecided': why[-200:], 'bounded_stand_in': txt.strip()[-100:] if res.startswith('held') else res})
                if res == 'violation':
                    wf = os.path.join(work, 'wit-%s-%d.txt' % (p, c)); rp = os.path.join(work, 'replay-%s.txt' % p)
                    with open(rp, 'w') as o:
                        o.write('# property %s, proof %s: obligations undecided by the verifier; failing input found by running the contract natively\n' % (prop, p))
                        if os.path.exists(wf): o.write(open(wf, errors='replace').read())
                        o.write('# ' + txt[-3000:].replace('\n', '\n# ') + '\n')
                    nviol += 1
                    out_lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
    for x in problems: print('problem:', x)
    wall_s = time.time() - t0
    # ---- evidence
    meta = json.load(open(VERIF + '/MANIFEST.json'))
    lvl = next((c['level'] for c in meta['checks'] if c['property'] == prop), 'proof')
    ass = sorted(set(x for u in units for x in [l.strip() for l in u.d.get('ASSUME', '').split('|')] if x))
    cov = {'obligations': ob_n, 'discharged': ob_ok, 'checker_cmd': 'python3-vt vc/check.py %s --tier %s' % (prop, a.tier), 'trusted_base': TRUSTED,
           'bounded_obligations': b_n, 'bounded_discharged': b_ok, 'bounded_proofs': bounded,
           'proofs': {p: {'cases': len(ds), 'obligations': sum(o['n'] for d in ds for o in d['obligations'].values()), 'paths': sum(d['paths'] for d in ds), 'time_s': round(sum(d.get('time', 0) for d in ds), 2),
                          'functions_under_contract': sorted(ds[0]['targets']), 'bounded': bounded_of(u, p)} for p, (u, ds) in byp.items()},
           'functions_under_contract': sorted(k for k, v in targets.items() if v), 'functions_executed_as_real_code': len(funcs), 'functions_executed': sorted(funcs)[:200],
           'distinct_obligation_names': len(set(obnames)), 'backends': backends, 'solver_queries': queries, 'solver_time_s': round(stime, 2), 'paths': paths,
           'undecided': len(undecided), 'fallback': fallback, 'known_findings': knownlines, 'vacuity_problems': problems,
           'contract_units': {u.name: {'sha256': hashlib.sha256(open(u.bc, 'rb').read()).hexdigest()[:16], 'options': u.d} for u in units}}
    if lvl == 'other':
        cov['explanation'] = ('Contracts on the real functions, every path executed symbolically and every obligation discharged by an SMT solver, for all values of the symbolic inputs, '
            'but with stated bounds on lengths (bounded_proofs); bounded obligations are counted apart from proved ones and never as proved.')
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': lvl, 'coverage': cov, 'assumptions': ass, 'wall_s': round(wall_s, 2), 'violations': nviol}
    if not a.only:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)
    for f in glob.glob(work + '/*.exe') + glob.glob(work + '/*.o') + glob.glob(work + '/*.exe.cpp'): os.unlink(f)
    print('%s: %d/%d obligations discharged (%d/%d bounded), %d proofs, %d undecided, %d violations, %.1fs' % (prop, ob_ok, ob_n, b_ok, b_n, len(byp), len(undecided), nviol, wall_s))
    for l in knownlines: print(l)
    if out_lines:
        print(out_lines[0]); return 1
    if undecided and strict: 
        for u, p, c, why in undecided: print('undecided: %s case %d: %s' % (p, c, why[-400:]))
        return 2
    if undecided and any(f['bounded_stand_in'] == 'error' for f in fallback): return 2
    if problems: return 2
    return 0
sys.exit(main())
