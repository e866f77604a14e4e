#!/usr/bin/env python3
# Turns tools/seeds/*.seed into seeded/<id>/ and (with -c) confirms each one: it builds, the stable tests pass, the demo tells it from the clean tree.
import sys, os, re, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def parse(p):
    s = open(p).read(); parts = re.split(r'^@@(\w+)(?: (.*))?\n', s, flags=re.M)[1:]
    d = {'edits': [], 'files': []}
    for k, a, b in zip(parts[::3], parts[1::3], parts[2::3]):
        if k == 'file': cur = a.strip()
        elif k == 'old': old = b
        elif k == 'new': d['edits'].append((cur, old, b))
        elif k == 'demo': d['demo'] = b; d['flags'] = a or ''
        elif k == 'extra': d['files'].append((a.strip(), b))
        elif k == 'stubs': d['stubs'] = a.split()
        else: d[k] = (a or b).strip()
    return d
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
cd "${{REPO:-/repo}}" 2>/dev/null || true
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
I=(); for d in /repo/ecl_*/include; do I+=(-I "$d"); done
g++ -std=c++14 -w {flags} -I "$H/stubs" "${{I[@]}}" -I /repo -I /usr/include/eigen3 "$H/demo.cpp" -o "$T/demo" {libs} || exit 99
cd "$T" && timeout 120 ./demo
'''
def make(p, confirm):
    i = os.path.basename(p)[:-5]; d = parse(p); out = f'{V}/seeded/{i}'
    for f, o, n in d['edits']:
        t = open(f'{R}/{f}').read(); o2, n2 = o.rstrip('\n'), n.rstrip('\n')
        if t.count(o2) != 1: print(i, 'old text found', t.count(o2), 'times'); sh(f'git -C {R} checkout -- .'); return False
        open(f'{R}/{f}', 'w').write(t.replace(o2, n2))
    patch = sh(f'git -C {R} diff').stdout
    os.makedirs(out, exist_ok=True)
    open(f'{out}/patch.diff', 'w').write(patch); open(f'{out}/demo.cpp', 'w').write(d['demo'])
    open(f'{out}/demo.sh', 'w').write(d.get('sh') or DEMO.format(flags=d['flags'], libs=d.get('libs', '-lpthread'))); os.chmod(f'{out}/demo.sh', 0o755)
    if d.get('stubs'):
        for s in d['stubs']:
            os.makedirs(os.path.dirname(f'{out}/stubs/{s}'), exist_ok=True); shutil.copy(f'{V}/stubs/{s}', f'{out}/stubs/{s}')
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
    ok = True
    if confirm:
        r = sh(f'cd {R} && timeout 300 {out}/demo.sh'); bad = r.returncode
        sh('bash /opt/vp/test.sh /tmp/seed_test.json'); j = json.load(open('/tmp/seed_test.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        st = base.get('stable') or base.get('passed') or base
        names = set(st if isinstance(st, list) else st.keys()); tests = names <= set(j['passed'])
        sh(f'git -C {R} checkout -- .')
        r2 = sh(f'cd {R} && timeout 300 {out}/demo.sh'); good = r2.returncode
        ok = bad not in (0, 99) and tests and good == 0
        print(i, 'OK' if ok else 'NOT CONFIRMED', 'patched', bad, 'clean', good, 'tests', tests, '' if ok else (r.stderr + r2.stderr)[-600:])
    sh(f'git -C {R} checkout -- .')
    return ok
if __name__ == '__main__':
    c = '-c' in sys.argv; a = [x for x in sys.argv[1:] if x != '-c']
    if sh(f'git -C {R} status --porcelain').stdout.strip(): sys.exit('repo not clean')
    for p in sorted(os.listdir(f'{V}/tools/seeds')):
        if p.endswith('.seed') and (not a or p[:-5] in a): make(f'{V}/tools/seeds/{p}', c)
    if c: sh('bash /opt/vp/build.sh')
