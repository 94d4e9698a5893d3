#!/usr/bin/env python3
"""Plants the bugs described in a spec file (python: BUGS = [...]) into /verif/seeded after
confirming each one in a scratch copy of /repo: it compiles, the existing tests pass, and the
demonstration passes without the change and fails with it.  Usage: plant.py SPEC [ID...]"""
import sys, os, subprocess, shutil, json, runpy, difflib, re
spec, only = sys.argv[1], sys.argv[2:]
BUGS = runpy.run_path(spec)['BUGS']
R = '/tmp/plant-repo'
def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
base_orig = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.strip()
for b in BUGS:
    bid = b['id']
    if only and bid not in only: continue
    if os.path.exists(R): shutil.rmtree('/tmp/plant-repo')
    sh(f'cp -a /repo {R}')
    ok = True
    for f, old, new in b['edits']:
        p = f'{R}/{f}'; s = open(p).read()
        if s.count(old) != b.get('count', 1):
            print(bid, 'EDIT MISMATCH', f, s.count(old)); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    diff = sh('git diff', R).stdout
    # every removed line must be an original one
    bad = []
    for f, old, new in b['edits']:
        bl = sh(f'git blame -s -l {f}', '/repo').stdout.splitlines()
        src = open(f'/repo/{f}').read()
        start = src.index(old); a = src[:start].count('\n'); o = old.splitlines(); n = new.splitlines()
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, o, n, autojunk=False).get_opcodes():
            if tag in ('replace', 'delete'):
                for k in range(i1, i2):
                    if base_orig[:30] not in bl[a + k]: bad.append(bl[a + k])
    if bad: print(bid, 'CHANGES LINES OF OUR COMMITS', *bad, sep='\n  ')
    d = f'/verif/seeded/{bid}'
    tmp = f'/tmp/plant-{bid}'; os.makedirs(tmp, exist_ok=True)
    open(f'{tmp}/patch.diff', 'w').write(diff)
    shutil.copy('/verif/tools/demo.sh', f'{tmp}/demo.sh'); os.chmod(f'{tmp}/demo.sh', 0o755)
    open(f'{tmp}/main.rs', 'w').write(b['demo'].lstrip('\n'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{tmp}/meta.json', 'w'), indent=1)
    r = sh('cargo check --workspace --no-default-features --offline 2>&1 && cargo check --workspace --offline 2>&1 && cargo test --workspace --all-features --no-fail-fast --offline 2>&1', R)
    tests = 'ok' if r.returncode == 0 else 'FAIL'
    clean = sh(f'bash {tmp}/demo.sh', '/repo')
    bugd = sh(f'bash {tmp}/demo.sh', R)
    good = tests == 'ok' and clean.returncode == 0 and bugd.returncode not in (0, 2) and not bad
    if 'could not compile' in bugd.stdout + clean.stdout: good = False
    print(bid, 'tests', tests, 'demo clean', clean.returncode, 'patched', bugd.returncode, 'KEEP' if good else 'REJECT', flush=True)
    if not good:
        print('\n'.join(re.findall(r'^(?:test .*FAILED|error.*)$', r.stdout, re.M)[:8]))
        print(clean.stdout[-1500:] if clean.returncode else ''); print(bugd.stdout[-600:])
    else:
        print('   ', bugd.stdout.strip().splitlines()[:3])
        if os.path.exists(d): shutil.rmtree(d)
        shutil.move(tmp, d)
shutil.rmtree('/tmp/plant-repo', ignore_errors=True)
