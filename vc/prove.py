"""Worker: prove.py module.bc proof_id case out.json [json options]"""
import sys, json, time, os, subprocess, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import llvm, exec as X
from vals import VCError

def demangle(names):
    names = list(names)
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, r))

def gstr(mod, name):
    g = mod.globals.get(name)
    if g is None or g.init_ref is None: return None
    v = mod.val(g.init_ref)
    if v[0] == 'bytes': return v[1].rstrip(b'\0').decode()
    if v[0] == 'int': return v[1]
    return ''

def main():
    bc, pid, case, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    opts = json.loads(sys.argv[5]) if len(sys.argv) > 5 else {}
    resource.setrlimit(resource.RLIMIT_AS, (int(opts.pop('mem', 4 << 30)),) * 2)
    t0 = time.time()
    res = {'proof': pid, 'case': case, 'error': None}
    try:
        mod = llvm.Module(bc)
        txt = gstr(mod, 'vc_options_' + pid)
        if txt:
            for kv in txt.split():
                k, v = kv.split('=')
                opts[k] = {'true': True, 'false': False}.get(v, int(v) if v.lstrip('-').isdigit() else v)
        E = X.Executor(mod, opts)
        E.demangled = demangle(mod.funcs)
        def find(nm):
            if nm in mod.funcs: return [nm]
            import re
            pat = re.compile(r'(^|[\s&*])' + re.escape(nm) + r'(\(|<|\[|$)') if not nm.endswith(')') else re.compile(re.escape(nm))
            return [n for n, d in E.demangled.items() if pat.search(d)]
        E.find_funcs = find
        res['t_load'] = time.time() - t0
        j = os.environ.get('VC_JOBS')
        if j:
            r, w = map(int, j.split(',')); E.jobs = (r, w, out)
        try: E.run('vc_proof_' + pid, case)
        except VCError as e:
            res['error'] = str(e)
            if os.environ.get('VC_TRACE'):
                import traceback; traceback.print_exc()
        e2 = E.join()
        res['error'] = res['error'] or e2
        targets = [t.strip() for t in (gstr(mod, 'vc_targets_' + pid) or '').split(';') if t.strip()]
        res['targets'] = {t: any(E.executed.get(n) for n in find(t)) for t in targets}
        fns = set()
        for n in E.executed:
            f = mod.funcs[n]
            src = ''
            for b in f.blocks().values():
                for i in b.insts:
                    if i.file: src = i.file; break
                if src: break
            if '/repo/' in src or '/ecl/' in src or '/ecl_' in src or src.startswith('/repo'): fns.add((E.dem(n), src))
        res['functions'] = sorted(set(x for x, s in fns if '/stubs/' not in s))
    except VCError as e:
        res['error'] = str(e); E = None
    except MemoryError:
        res['error'] = 'memory limit'
    except Exception as e:
        import traceback
        res['error'] = 'internal: ' + traceback.format_exc()[-1500:]
    if 'E' in dir() and E is not None:
        res.update(obligations=E.oblig, failures=E.failures, undecided=E.undecided, covers=E.covers, paths=E.npaths, ended=E.nended,
                   solver_time=E.S.time, queries=E.S.queries, backends=E.S.backends, notes=E.notes)
    res['time'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)

main()
