"""python3 mk.py [NAME-prefix...]   applies refactorings that keep the behaviour (specs.py) in a scratch copy of /repo and
confirms that the repository's tests pass and that the quick checks stay quiet."""
import os, re, shutil, subprocess, sys, time, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
spec = importlib.util.spec_from_file_location('specs', os.path.join(HERE, 'specs.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)

def sh(c, cwd=None, env=None, timeout=1800):
    p = subprocess.run(c, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

S = '/tmp/refscratch'
for name, checks, edit in m.REFACTORINGS:
    if sys.argv[1:] and not any(name.startswith(a) for a in sys.argv[1:]): continue
    shutil.rmtree(S, ignore_errors=True)
    shutil.copytree('/repo', S, symlinks=True)
    edit(S)
    rc, out = sh('. /opt/vp/env.sh; go build ./... && go test ./... 2>&1 | tail -30', cwd=S)
    if rc or 'FAIL' in out:
        print('%s: BAD tests: %s' % (name, out[-600:]), flush=True); continue
    bad = []
    t = time.time()
    for c in checks.split():
        rc, out = sh('bash %s/run.sh %s quick' % (V, c), env={'VERIF_REPO': S, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
        if rc or 'VIOLATION' in out or 'exhaustive=true' not in out or 'degraded' in out: bad.append('%s rc %d %s' % (c, rc, out[-700:]))
    print('%s: %s %.0fs' % (name, 'quiet' if not bad else 'NOT QUIET\n  ' + '\n  '.join(bad), time.time() - t), flush=True)
shutil.rmtree(S, ignore_errors=True)
