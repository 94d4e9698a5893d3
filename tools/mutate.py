#!/usr/bin/env python3
"""Mutation campaign: changes one token or line of /repo's sources at a time (in copies under /tmp),
runs all checks with a fraction of their quick runs and lists the mutants none of them notices.
Usage: mutate.py OUT [SLICE/OF] [FILE...]"""
import sys, os, re, subprocess, shutil, random, json, time
out = sys.argv[1]
W = '/tmp/mut'
RUNS = dict(R01=300000,R02=300000,R03=300000,R04=60000,R05=20000,R06=300000,R07=250000,R08=300000,R09=200000,R10=200000,R11=300000,R12=300000,R13=30000,R14=200000,R15=100000)
FR = float(os.environ.get('FRAC', '0.5'))
ORDER = {'serialize.rs': 'R10 R09', 'print.rs': 'R15 R04', 'visit.rs': 'R14', 'visit_mut.rs': 'R14', 'ber.rs': 'R08 R10', 'integer.rs': 'R08',
         'multi.rs': 'R11 R03', 'tagged.rs': 'R12 R11', 'parser.rs': 'R07 R06 R01', 'wrap_any.rs': 'R07 R05'}
def sh(c, cwd=None, t=600):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace')
    except subprocess.TimeoutExpired as e:
        sh('pkill -9 -f /tmp/mut/verif/sim/target/release/dersim')
        class X: returncode = 124; stdout = 'TIMEOUT'
        return X()
def setup():
    if os.path.exists(W): shutil.rmtree('/tmp/mut')
    os.makedirs(W)
    sh(f'git -C /repo worktree list; cp -a /repo {W}/repo; mkdir {W}/verif; cp -a /verif/sim /verif/check.sh /verif/KNOWN_FINDINGS.txt {W}/verif/')
    sh(f"sed -i 's#path = \"/repo\"#path = \"{W}/repo\"#' {W}/verif/sim/Cargo.toml")
    r = sh('bash check.sh build', f'{W}/verif', 900); assert r.returncode == 0, r.stdout
SUB = [
 (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r' \+ 1\b', ' + 2'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' - 1\b', ' - 2'), (r' - 2\b', ' - 1'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' % ', ' / '), (r' / ', ' % '),
 (r' << ', ' >> '), (r' >> ', ' << '), (r' \| ', ' ^ '), (r' & ', ' | '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\bcut\((\w)\)', r'\1'), (r'complete\(cut\(f\)\)', 'cut(f)'), (r'Class::Universal', 'Class::Application'), (r'Class::ContextSpecific', 'Class::Private'),
 (r'\bSome\(\w+\)', 'None'), (r'MAX_RECURSION', '(MAX_RECURSION - 1)'), (r'MAX_RECURSION', '(MAX_RECURSION + 1)'), (r'\.is_empty\(\)', '.len() == 1'), (r'!(\w)', r'\1'),
 (r'\bTag::(\w+)', 'Tag::RealType'), (r'\bTag::Sequence\b', 'Tag::Set'), (r'\bTag::Set\b', 'Tag::Sequence'), (r'\.max\(', '.min('), (r'Err\(_\)', 'Err(Err::Error(_))'),
 (r'be_u8\(', 'be_u8(1 ^ '), (r'\[\.\.', '[1..'), (r'from_seq', 'from_set'), (r'from_set', 'from_seq'), (r'Length::Indefinite', 'Length::Definite(7)'),
 (r'\bberobjectx', ''), (r'parse_der_', 'parse_ber_'), (r'der_read_', 'ber_read_'), (r'from_der', 'from_ber'), (r'_utf8', '_utf8'), (r'depth\b', '0'), (r'as u64', 'as u8 as u64'), (r'as u32', 'as u16 as u32'),
]
def mutants(f):
    src = open(f'/repo/{f}').read().splitlines(keepends=True)
    res = []; skip_from = None
    for n, l in enumerate(src):
        if '#[cfg(test)]' in l or l.strip() == '#[test]': break
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#[') or s.startswith('pub use'): continue
        code = l.split('//')[0] if '//' in l and '"' not in l else l
        for a, b in SUB:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code: res.append((n, new if new.endswith('\n') else new + '\n'))
        # only where generics cannot be meant
        for m in re.finditer(r'(?<![\w.#:\'])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w.])', code):
            v = int(m.group(1).replace('_', ''), 0)
            for d in (1, -1):
                if v + d >= 0: res.append((n, code[:m.start()] + str(v + d) + code[m.end():]))
        if s.endswith('?;') or re.match(r'^(v\.|self\.|return |rem = |bytes = |i = |res|objects\.|output|resulting|last_byte|identifier)', s):
            res.append((n, '\n'))
        if re.match(r'^[|]? ?BerObjectContent::\w+(\([^)]*\))? ?\|?$', s) or re.match(r'^\| Tag::\w+$', s) or re.match(r'^BerObjectContent::.*=> .*,$', s) or re.match(r'^\| BerObjectContent', s):
            res.append((n, '\n'))
        if s.startswith('if ') and s.endswith('{'):
            c = s[3:-1].strip()
            if not c.startswith('let '):
                ind = l[:len(l) - len(l.lstrip())]
                res.append((n, f'{ind}if !({c}) {{\n')); res.append((n, f'{ind}if false && ({c}) {{\n')); res.append((n, f'{ind}if true || ({c}) {{\n'))
    seen = set(); r2 = []
    for x in res:
        if x not in seen and x[1] != src[x[0]]: seen.add(x); r2.append(x)
    return src, r2
def main():
    files = sys.argv[3:] or ['src/ber/parser.rs','src/ber/wrap_any.rs','src/der/parser.rs','src/ber/ber.rs','src/ber/serialize.rs','src/ber/print.rs','src/ber/multi.rs','src/der/multi.rs','src/ber/tagged.rs','src/der/tagged.rs','src/ber/integer.rs','src/ber/visit.rs','src/ber/visit_mut.rs']
    k, of = (int(x) for x in (sys.argv[2] if len(sys.argv) > 2 else '0/1').split('/'))
    setup(); log = open(out, 'a'); todo = []
    for f in files:
        src, ms = mutants(f)
        for i, m in enumerate(ms): todo.append((f, src, m))
    random.Random(1).shuffle(todo); todo = todo[k::of]
    print(len(todo), 'mutants', file=log, flush=True)
    for f, src, (n, new) in todo:
        s2 = list(src); s2[n] = new
        p = f'{W}/repo/{f}'
        open(p, 'w').writelines(s2)
        t = time.time(); by = None
        if sh('cargo check --offline --features std,serialize,bigint,as_bitvec', f'{W}/repo').returncode != 0: by = 'uncompilable'
        else:
            b = sh('bash check.sh build', f'{W}/verif', 900)
            if b.returncode != 0: by = 'uncompilable'
            else:
                order = ORDER.get(f.split('/')[-1], '').split(); order += [c for c in RUNS if c not in order]
                for c in order:
                    r = sh(f'VERIF_DIR={W}/verif sim/target/release/dersim check {c} --runs {int(RUNS[c]*FR)}', f'{W}/verif', 120)
                    if r.returncode != 0: by = c if 'VIOLATION' in r.stdout else c + f' rc={r.returncode}'; break
        open(p, 'w').writelines(src)
        print(json.dumps([f, n + 1, by, round(time.time() - t, 1), src[n].strip(), new.strip()]), file=log, flush=True)
main()
