"""mut.py PROP FILE 'old' 'new' [count-index]: plant a textual change in a scratch copy of /repo and run one check against it"""
import sys, os, subprocess, shutil
prop, f, a, b = sys.argv[1:5]; k = int(sys.argv[5]) if len(sys.argv) > 5 else 0
W = '/tmp/mutrepo'
if not os.path.exists(W): subprocess.run(['cp', '-a', '/repo', W])
subprocess.run('git -C %s checkout -q -- . ; git -C %s pull -q 2>/dev/null; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W, W), shell=True)
p = os.path.join(W, f); s = open(p, newline='').read(); parts = s.split(a)
if len(parts) < 2 + k: print('PATTERN NOT FOUND', f, a); sys.exit(2)
s = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
open(p, 'w', newline='').write(s)
extra = sys.argv[6:] 
r = subprocess.run(['python3-vt', '/verif/vc/check.py', prop] + extra, env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
out = r.stdout.strip().split('\n')
print(prop, f.split('/')[-1], repr(a), '->', repr(b), '| exit', r.returncode, '|', (r.stderr[-300:] or ''), ' || '.join(x[:170] for x in out[:3] if x.startswith(('failed', 'EXTR', 'undec', 'prob'))), '||', out[-1][:130])
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
