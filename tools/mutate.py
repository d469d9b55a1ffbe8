#!/usr/bin/env python3
"""Mutation run (development aid, not a registered check): mutate /repo's sources in scratch copies, keep mutants that
compile and pass the stable tests, and record which checks report them.
usage: mutate.py OUT.jsonl WORKERS [--files a,b] [--scale X] [--sample N] [--seed S]"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
out = sys.argv[1]
W = int(sys.argv[2])
def opt(n, d=None):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
scale = opt('--scale', '0.1')
files = opt('--files')
rng = random.Random(int(opt('--seed', '1')))
SRC = '/repo/src'
base = json.load(open('/opt/vp/BASELINE.json'))
IDS = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]

def code_lines(path):
    t = open(path).read().split('\n')
    n = len(t)
    for i, l in enumerate(t):
        if '#[cfg(test)]' in l:
            n = i
            break
    return t, n

KINDS = ['InvalidInput', 'UnexpectedEos', 'EncoderFull', 'IncompleteDecoding', 'InconsistentState', 'DecoderTerminated', 'Other']
def muts(line):
    s = line.strip()
    if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub fn') and s.endswith('{') or s.startswith('impl') or s.startswith('fn '):
        return
    def sub(pat, rep):
        for m in re.finditer(pat, line):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            new = line[:m.start()] + r + line[m.end():]
            if new != line:
                yield new
    R = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
         (r' < ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
         (r' \+= ', ' = '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
         (r'if !', 'if '), (r'\bif (?!let|!)', 'if !'), (r'!self\.', 'self.'), (r'\.back\([^()]*(\([^()]*\))*[^()]*\)', ''),
         (r'\.is_idle\(\)', '.is_idle() == false'), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
         (r'\.take\(\)', '.clone()'), (r'\.is_reached\(\)', '.is_reached() == false'), (r'\.is_empty\(\)', '.is_empty() == false'),
         (r'add_for_decoding', 'add_for_encoding'), (r'add_for_encoding', 'add_for_decoding'),
         (r'ByteCount::Unknown', 'ByteCount::Finite(0)'), (r'ByteCount::Finite\(', 'ByteCount::Finite(1 + '), (r'ByteCount::Infinite', 'ByteCount::Unknown'),
         (r'ByteCount::Unknown', 'ByteCount::Infinite'), (r'ByteCount::Finite\(0\)', 'ByteCount::Unknown'),
         (r'\beos\b(?=[,)])', 'Eos::new(false)'), (r'\beos\b(?=[,)])', 'Eos::new(true)'),
         (r'Ok\(0\)', 'Ok(1)'), (r'None', 'None.or(None)') ]
    for p, r in R:
        yield from sub(p, r)
    if 'ErrorKind::' in line:
        for m in re.finditer(r'ErrorKind::(\w+)', line):
            k = 'Other' if m.group(1) != 'Other' else 'InvalidInput'
            yield line[:m.start(1)] + k + line[m.end(1):]
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', line):
        v = int(m.group(1))
        yield line[:m.start()] + str(v + 1) + line[m.end():]
        if v > 0:
            yield line[:m.start()] + str(v - 1) + line[m.end():]
    if s.endswith(';') and not s.startswith('let ') and not s.startswith('type ') and not s.startswith('return') and not s.startswith('pub ') and not s.startswith('const'):
        ind = line[:len(line) - len(line.lstrip())]
        yield ind + '();' if s.count('(') == s.count(')') else line
    m = re.match(r'(\s*)if (?!let)(.*) \{$', line)
    if m:
        yield f'{m.group(1)}if true || {m.group(2)} {{'
        yield f'{m.group(1)}if false && ({m.group(2)}) {{'
    m = re.match(r'(\s*)while (.*) \{$', line)
    if m:
        yield f'{m.group(1)}if {m.group(2)} {{'

jobs = []
for f in sorted(os.listdir(SRC)):
    if files and f[:-3] not in files.split(','):
        continue
    t, n = code_lines(f'{SRC}/{f}')
    for i in range(n):
        seen = set()
        for new in muts(t[i]):
            if new != t[i] and new not in seen:
                seen.add(new)
                jobs.append((f, i, new))
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l)
        if d['status'] in ('SURVIVED', 'ODD'):
            continue
        done.add((d['file'], d['line'], d['new']))
jobs = [j for j in jobs if j not in done]
rng.shuffle(jobs)
if opt('--sample'):
    jobs = jobs[:int(opt('--sample'))]
if '--count' in sys.argv:
    print(len(jobs)); sys.exit()
q = queue.Queue()
for j in jobs:
    q.put(j)
lock = threading.Lock()
score = {}
def run(cmd, cwd, t, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', **(env or {}))
    try:
        p = subprocess.run(['setsid', 'timeout', '-k', '1', str(t)] + cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout
    except Exception as x:
        return 99, str(x)
def worker(k):
    d = f'/tmp/mut/w{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', f'{d}/repo'])
    os.makedirs(f'{d}/verif')
    subprocess.run(['cp', '-a', '/verif/harness', f'{d}/verif/harness'])
    shutil.copy('/verif/known-findings.json', f'{d}/verif/')
    subprocess.run(['cp', '-a', '/verif/target', f'{d}/verif/target'])
    while True:
        try:
            f, i, new = q.get_nowait()
        except queue.Empty:
            return
        p = f'{d}/repo/src/{f}'
        orig = open(f'{SRC}/{f}').read()
        t = orig.split('\n')
        old = t[i]
        t[i] = new
        open(p, 'w').write('\n'.join(t))
        rec = {'file': f, 'line': i, 'old': old.strip(), 'new': new}
        rc, o = run(['cargo', 'check', '--all-features', '--offline', '-q'], f'{d}/repo', 120)
        if rc != 0:
            rec['status'] = 'nocompile'
        else:
            rc, o = run(['cargo', 'test', '--all-features', '--offline', '-q', '--lib'], f'{d}/repo', 120)
            if rc == 0:
                rc, o = run(['cargo', 'test', '--all-features', '--offline', '-q', '--doc'], f'{d}/repo', 240)
            if rc != 0:
                rec['status'] = 'tests'
            else:
                rc, o = run(['cargo', 'build', '--release', '--offline', '-q'], f'{d}/verif/harness', 300, {'CARGO_TARGET_DIR': f'{d}/verif/target'})
                if rc != 0:
                    rec['status'] = 'nobuild'
                    rec['why'] = o[-400:]
                else:
                    hit, odd = [], []
                    with lock:
                        order = sorted(IDS, key=lambda x: -score.get((f, x), 0))
                    for id in order:
                        if id == 'C01' and f not in ('fixnum.rs', 'bytes.rs') or len(odd) >= 2:
                            continue
                        rc, o = run([f'{d}/verif/target/release/bcverif', id], f'{d}/verif', 25, {'VERIF_DIR': f'{d}/verif', 'VERIF_SCALE': scale, 'VERIF_SEED': '1', 'VERIF_NOSHRINK': '1'})
                        if rc == 1 and f'VIOLATION property={id}' in o:
                            hit.append(id)
                            with lock:
                                score[(f, id)] = score.get((f, id), 0) + 1
                            break
                        elif rc != 0:
                            odd.append([id, rc])
                    rec['status'] = 'caught' if hit else 'ODD' if odd else 'SURVIVED'
                    rec['hit'], rec['odd'] = hit, odd
        open(p, 'w').write(orig)
        with lock:
            open(out, 'a').write(json.dumps(rec) + '\n')
ths = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ths]
[t.join() for t in ths]
