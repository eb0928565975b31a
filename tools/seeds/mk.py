"""python3 mk.py [ID...]   makes /verif/seeded/ID from specs.py: applies the edit in a scratch copy of /repo,
confirms that it builds, passes the stable tests and that the demonstration tells it from the unchanged tree,
then runs the property's quick check against it (VERIF_REPO) and reports whether it is caught."""
import fcntl, json, os, re, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
BASE = 'ee48f2c'
spec = importlib.util.spec_from_file_location('specs', os.path.join(HERE, 'specs.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
IMPORTS = {'debug': 'runtime/debug', 'bufio': 'bufio', 'bytes': 'bytes', 'errors': 'errors', 'fmt': 'fmt', 'io': 'io', 'math': 'math', 'os': 'os', 'strings': 'strings', 'sync': 'sync', 'time': 'time', 'runtime': 'runtime',
           'leaves': 'github.com/dmitryikh/leaves', 'mat': 'github.com/dmitryikh/leaves/mat', 'util': 'github.com/dmitryikh/leaves/util',
           'transformation': 'github.com/dmitryikh/leaves/transformation', 'pickle': 'github.com/dmitryikh/leaves/internal/pickle', 'xgbin': 'github.com/dmitryikh/leaves/internal/xgbin'}
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0: the property holds here, 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat >"$T/o.json" <<E
{"Replace": {"$PWD/zzdemo/main.go": "$D/main.go", "$PWD/zzdemo/kit.go": "$D/kit.go"}}
E
go run%s -overlay "$T/o.json" ./zzdemo
'''

def sh(c, cwd=None, env=None, timeout=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passing', 'tests', 'pass'):
        if k in b: return b[k]
    raise SystemExit('BASELINE keys: %s' % list(b))

def one(s, check=True):
    sid = s['id']
    S = '/tmp/seedscratch'
    shutil.rmtree(S, ignore_errors=True)
    shutil.copytree('/repo', S, symlinks=True)
    D = os.path.join(V, 'seeded', sid)
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    body = s['main']
    imps = [p for n, p in IMPORTS.items() if re.search(r'\b%s\.' % n, body)]
    open(D + '/main.go', 'w').write('package main\n\nimport (\n%s)\n\n%s\n' % (''.join('\t"%s"\n' % p for p in sorted(imps)), body.strip()))
    shutil.copy(HERE + '/kit.go.txt', D + '/kit.go')
    open(D + '/demo.sh', 'w').write(DEMO % (' -race' if s.get('race') else ''))
    os.chmod(D + '/demo.sh', 0o755)
    json.dump({'property': s['p'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(D + '/meta.json', 'w'), indent=1)
    rc, out = sh('bash %s/demo.sh' % D, cwd=S)
    if rc: return 'BAD demo fails on the clean tree: ' + out
    for f, old, new in s['edits']:
        t = open(os.path.join(S, f)).read()
        n = s.get('nth', {}).get(old, 0)
        if t.count(old) != 1 and old not in s.get('nth', {}): return 'BAD %s: %d matches of %r' % (f, t.count(old), old)
        parts = t.split(old)
        t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(os.path.join(S, f), 'w').write(t)
    sh('gofmt -l .', cwd=S)
    rc, diff = sh('git diff', cwd=S)
    open(D + '/patch.diff', 'w').write(diff)
    # every removed line has to be older than the fixes
    f = None; removed = 0; own = []
    for line in diff.splitlines():
        if line.startswith('--- a/'): f = line[6:]
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            removed += 1
            _, b = sh('git blame -l -L %d,%d HEAD -- %s' % (n, n, f), cwd=S)
            h = b.split()[0].lstrip('^')
            if sh('git merge-base --is-ancestor %s %s' % (h, BASE), cwd=S)[0]: own.append(line)
            n += 1
        elif line.startswith(' '): n += 1
    note = ''
    if not removed: note += ' [no removed line]'
    if own: note += ' [OWN LINES %s]' % own
    rc, out = sh('. /opt/vp/env.sh; go build ./... && go test ./... 2>&1 | tail -30', cwd=S)
    if rc or 'FAIL' in out: return 'BAD tests: ' + ' '.join(l for l in out.splitlines() if 'FAIL' in l or '.go:' in l)[:300] + note
    rc, out = sh('bash %s/demo.sh' % D, cwd=S)
    if rc == 0: return 'BAD demo does not fail' + note
    demo = out.strip().splitlines()[0][:150] if out.strip() else ''
    if not check: return 'ok' + note + ' | ' + demo
    import time
    t = time.time()
    rc, out = sh('bash %s/run.sh %s quick' % (V, s['p']), env={'VERIF_REPO': S, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
    hit = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s' % s['p'])]
    res = 'caught' if rc == 1 and hit else 'MISSED (rc %d) %s' % (rc, out[-500:])
    return '%s %.0fs%s | %s' % (res, time.time() - t, note, demo)

lock = open('/tmp/seedscratch.lock', 'w')
fcntl.flock(lock, fcntl.LOCK_EX)  # one at a time: the scratch copy is shared
ids = sys.argv[1:]
for s in m.SEEDS:
    if ids and not any(s['id'].startswith(i) for i in ids): continue
    try: r = one(s)
    except subprocess.TimeoutExpired: r = 'BAD timeout'
    print('%s: %s' % (s['id'], r), flush=True)
shutil.rmtree('/tmp/seedscratch', ignore_errors=True)
