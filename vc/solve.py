"""Satisfiability back ends: z3 in process with independence slicing and caches; z3 (int-blasting), z3 binary and cvc5 as fall-backs."""
import z3, time, subprocess, os, tempfile
from vals import *

class Solver:
    def __init__(self, timeout_ms=10000, hard_ms=60000):
        self.fv_cache = {}      # ast id -> frozenset of symbol ids
        self.keep = []
        self.axioms = []        # globally valid facts (expr)
        self.ax_by_sym = {}
        self.cache = {}; self.models = []
        self.timeout = timeout_ms; self.hard = hard_ms
        self.time = 0.0; self.queries = 0; self.backends = {}
        self.unknowns = 0

    def fv(self, e):
        i = e.get_id()
        r = self.fv_cache.get(i)
        if r is not None: return r
        out = set(); seen = set(); st = [e]
        while st:
            x = st.pop(); xi = x.get_id()
            if xi in seen: continue
            seen.add(xi)
            c = self.fv_cache.get(xi)
            if c is not None: out |= c; continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.get_id()); self.keep.append(d)
                for k in range(x.num_args()): st.append(x.arg(k))
            elif z3.is_quantifier(x): st.append(x.body())
        r = frozenset(out); self.fv_cache[i] = r; self.keep.append(e)
        return r

    def axiom(self, e, owner=None):
        """a fact; owner: the symbols it defines (any values of the others extend to them), so that it matters only where these occur"""
        self.axioms.append(e)
        for s in self.fv(e) if owner is None else [o.decl().get_id() for o in owner]: self.ax_by_sym.setdefault(s, []).append(e)

    def slice(self, pc, conds):
        need = set()
        for c in conds: need |= self.fv(c)
        rest = list(pc); out = []
        work = True; axs = set(); axl = []
        pend = list(need)
        while True:
            # axioms
            while pend:
                s = pend.pop()
                for a in self.ax_by_sym.get(s, ()):
                    if a.get_id() in axs: continue
                    axs.add(a.get_id()); axl.append(a)
                    for t in self.fv(a):
                        if t not in need: need.add(t); pend.append(t)
            nr = []
            for c in rest:
                f = self.fv(c)
                if not f or not need.isdisjoint(f):
                    out.append(c)
                    for t in f:
                        if t not in need: need.add(t); pend.append(t)
                else: nr.append(c)
            if len(nr) == len(rest) and not pend: break
            rest = nr
        return out + axl

    def check(self, pc, conds, full=False, hard=False, model=True):
        """('sat', model) / ('unsat', None) / ('unknown', None) for pc and conds"""
        cs = list(pc) + self.axioms if full else self.slice(pc, conds)
        cs = cs + list(conds)
        ids = frozenset(c.get_id() for c in cs)
        r = self.cache.get(ids)
        if r is not None and (r[0] != 'unknown' or not hard): return r
        t = time.time()
        self.queries += 1
        if not full:         # does a model found earlier already satisfy this?
            for k, m in enumerate(self.models):
                try:
                    if all(z3.is_true(m.eval(c, model_completion=True)) for c in cs[::-1]):
                        if k: self.models.insert(0, self.models.pop(k))
                        self.keep.extend(cs); r = ('sat', m, 'model'); self.cache[ids] = r
                        self.time += time.time() - t; self.backends['model'] = self.backends.get('model', 0) + 1
                        return r
                except z3.Z3Exception: pass
        s = z3.Solver()
        s.set('timeout', self.hard if hard else self.timeout)
        s.add(*cs)
        res = str(s.check()); be = 'z3'
        m = s.model() if res == 'sat' else None
        if m is not None: self.models.insert(0, m); del self.models[8:]
        if res == 'unknown' and hard:
            res, m, be = self.portfolio(cs, s)
        self.time += time.time() - t
        if os.environ.get('VC_SLOW') and time.time() - t > float(os.environ['VC_SLOW']):
            open('/tmp/slow_%d_%d.smt2' % (os.getpid(), self.queries), 'w').write('; %s %.2f %s\n; conds %s\n' % (res, time.time() - t, be, str(list(conds)).replace('\n', ' ')) + s.to_smt2())
        self.backends[be] = self.backends.get(be, 0) + 1
        if res == 'unknown': self.unknowns += 1
        self.keep.extend(cs)
        r = (res, m, be)
        self.cache[ids] = r
        return r

    def portfolio(self, cs, s):
        # integer-blasting in z3
        for opts in ({'smt.bv.solver': 2},):
            try:
                s2 = z3.SolverFor('ALL'); s2.set('timeout', self.hard)
                for k, v in opts.items(): s2.set(k, v)
                s2.add(*cs)
                r = str(s2.check())
                if r != 'unknown': return r, (s2.model() if r == 'sat' else None), 'z3-intblast'
            except z3.Z3Exception: pass
        text = s.to_smt2()
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f.write('(set-logic ALL)\n' + text); f.close()
        try:
            for name, cmd in (('cvc5-bvint', ['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % self.hard, f.name]),
                              ('cvc5', ['cvc5', '--tlimit=%d' % self.hard, f.name])):
                try:
                    o = subprocess.run(cmd, capture_output=True, text=True, timeout=self.hard / 1000 + 10).stdout
                except Exception: continue
                if o.startswith('unsat'): return 'unsat', None, name
                # a sat answer without a z3 model is kept as unknown
        finally: os.unlink(f.name)
        return 'unknown', None, 'none'
