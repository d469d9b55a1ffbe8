#!/usr/bin/env python3
"""Catch matrix (development aid): apply each planted bug to a scratch copy and run checks.
usage: matrix.py OUT.json [--own] [--scale X] [id ...]"""
import json, os, shutil, subprocess, sys
out = sys.argv[1]
own = '--own' in sys.argv
scale = sys.argv[sys.argv.index('--scale') + 1] if '--scale' in sys.argv else '1'
only = [a for a in sys.argv[2:] if not a.startswith('--') and a != scale]
IDS = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
d = '/tmp/mat'
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + '/verif')
subprocess.run(['cp', '-a', '/repo', d + '/repo'])
subprocess.run(['cp', '-a', '/verif/harness', d + '/verif/harness'])
subprocess.run(['cp', '-a', '/verif/target', d + '/verif/target'])
shutil.copy('/verif/known-findings.json', d + '/verif/')
res = json.load(open(out)) if os.path.exists(out) else {}
for s in sorted(os.listdir('/verif/seeded')):
    if only and s not in only:
        continue
    p = f'/verif/seeded/{s}'
    prop = json.load(open(p + '/meta.json'))['property']
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d + '/repo')
    if subprocess.run(['git', 'apply', p + '/patch.diff'], cwd=d + '/repo').returncode:
        print(s, 'DOES NOT APPLY'); continue
    e = dict(os.environ, CARGO_TARGET_DIR=d + '/verif/target', CARGO_NET_OFFLINE='true', VERIF_DIR=d + '/verif', VERIF_SCALE=scale, VERIF_SEED='1')
    b = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=d + '/verif/harness', env=e, capture_output=True, text=True)
    if b.returncode:
        print(s, 'NO BUILD', b.stderr[-500:]); continue
    hit, odd = [], []
    for i in ([prop] if own else IDS):
        r = subprocess.run(['timeout', '-k', '1', '120', d + '/verif/target/release/bcverif', i], env=e, cwd=d, capture_output=True, text=True, errors='replace')
        if r.returncode == 1 and f'VIOLATION property={i}' in r.stdout:
            hit.append(i)
        elif r.returncode:
            odd.append([i, r.returncode])
    res[s] = {'property': prop, 'hit': hit, 'odd': odd}
    json.dump(res, open(out, 'w'), indent=1)
    print(s, prop, 'CAUGHT' if prop in hit else 'MISSED', hit, odd, flush=True)
shutil.rmtree(d)
