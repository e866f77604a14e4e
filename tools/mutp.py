"""mutp.py PROP PATCH: run one check against a scratch copy of /repo with a patch applied"""
import sys, os, subprocess
prop, patch = sys.argv[1:3]
W = '/tmp/mutrepo'
if not os.path.exists(W): subprocess.run(['cp', '-a', '/repo', W])
subprocess.run('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD; git -C %s apply %s' % (W, W, W, W, patch), shell=True)
r = subprocess.run(['python3-vt', '/verif/vc/check.py', prop] + sys.argv[3:], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
out = r.stdout.strip().split('\n')
print(prop, patch.split('/')[-2], '| exit', r.returncode, '|', (r.stderr[-300:] or ''), ' || '.join(x[:170] for x in out[:3] if x.startswith(('failed', 'EXTR', 'undec', 'prob'))), '||', out[-1][:130])
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
