#!/usr/bin/env python3
"""Builds the machinery from /repo's working tree (through build overlays) and runs a check."""
import glob, json, os, re, shutil, subprocess, sys

V, R, S = sys.argv[1:4]
args = sys.argv[4:]


def build(name, srcs, quiet=False):
    """builds the harness directories srcs as the virtual command /repo/zzverif/name"""
    rep = {}
    for src in srcs:
        for f in sorted(glob.glob(os.path.join(V, src, '*.go'))):
            rep[os.path.join(R, 'zzverif', name, os.path.basename(f))] = f
    ov = os.path.join(S, name + '.overlay.json')
    json.dump({'Replace': rep}, open(ov, 'w'))
    mod = os.path.join(S, 'go.mod')
    shutil.copy(os.path.join(R, 'go.mod'), mod)
    if os.path.exists(os.path.join(R, 'go.sum')):
        shutil.copy(os.path.join(R, 'go.sum'), os.path.join(S, 'go.sum'))
    out = os.path.join(S, name)
    p = subprocess.run(['go', 'build', '-modfile', mod, '-overlay', ov, '-o', out, './zzverif/' + name], cwd=R,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if not quiet:
            print(p.stdout)
        return None
    return out


def build_sched():
    """builds the command of C08, C22 and C29: the sources rewritten to run under sched/vsched, with the race detector"""
    rep = {}
    for d in ('vsched', 'vsync', 'vatomic', 'vruntime'):
        for f in sorted(glob.glob(os.path.join(V, 'sched', d, '*.go'))):
            rep[os.path.join(R, 'zzverif', d, os.path.basename(f))] = f
    for src in ('harness', 'harness_sched'):
        for f in sorted(glob.glob(os.path.join(V, src, '*.go'))):
            rep[os.path.join(R, 'zzverif', 'vhs', os.path.basename(f))] = f
    mod = os.path.join(S, 'sched.mod')
    text = open(os.path.join(R, 'go.mod')).read()
    m = re.search(r'(?m)^go\s+1\.(\d+)', text)
    if not m:
        text += '\ngo 1.21\n'
    elif int(m.group(1)) < 21:  # generics are needed; per-iteration loop variables must not come in
        text = re.sub(r'(?m)^go\s+\S+', 'go 1.21', text, count=1)
    open(mod, 'w').write(text)
    if os.path.exists(os.path.join(R, 'go.sum')):
        shutil.copy(os.path.join(R, 'go.sum'), os.path.join(S, 'sched.sum'))
    out = os.path.join(S, 'vhs')
    ov = os.path.join(S, 'vhs.overlay.json')

    def compile(rewritten, flags):
        json.dump({'Replace': dict(rep, **rewritten)}, open(ov, 'w'))
        p = subprocess.run(['go', 'build', '-race', '-modfile', mod, '-overlay', ov] + flags + ['-o', out, './zzverif/vhs'], cwd=R,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-3000:])
        return p.returncode == 0

    instr = os.path.join(S, 'instr')
    gen = os.path.join(S, 'rewritten')
    os.makedirs(gen, exist_ok=True)
    p = subprocess.run(['go', 'build', '-o', instr, '.'], cwd=os.path.join(V, 'tools', 'instr'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        p = subprocess.run([instr, R, gen, '-modfile', mod], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p.stdout.strip())
    if p.returncode == 0 and compile(json.load(open(os.path.join(gen, 'files.json'))), []):
        return out
    print('note: the sources cannot be rewritten for the controlled scheduler; they run freely under the race detector instead (not exhaustive)')
    if compile({}, ['-ldflags', '-X main.degraded=1']):
        return out
    return None


def build_for(check):
    if check in ('C08', 'C22', 'C29'):
        return build_sched()
    if check == 'C20':
        out = build('vhp', ['harness', 'harness_pickle'])
        if out:
            return out
        print('note: the decoder package does not fit harness_pickle; the pickle reader is checked through the public API only')
    return build('vh', ['harness'])


def main():
    os.environ['GORACE'] = 'exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4'
    if args[:1] == ['build']:
        ok = build('vh', ['harness']) and build('vhp', ['harness', 'harness_pickle']) and build_sched()
        return 0 if ok else 2
    name = args[0]
    if name == 'replay':
        name = json.load(open(args[1]))['property']
    vh = build_for(name)
    if vh is None:
        print('the machinery does not build against', R)
        return 2
    if args[0] == 'replay':
        return subprocess.run([vh, 'replay', args[1]]).returncode
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return subprocess.run([vh, 'check', args[0], tier]).returncode


sys.exit(main())
