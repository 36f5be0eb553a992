#!/usr/bin/env python3
"""Looks for gaps of the checks: small changes of the code, one at a time, in a scratch copy (/tmp/mut).
mutate.py FILE-PREFIX EVERY OFFSET   changes the OFFSETth, OFFSET+EVERYth, ... site of the files
Prints what catches each change; one that no check catches is also run through the repository's tests."""
import os, re, subprocess, sys, time
M = os.environ.get('MUT', '/tmp/mut'); R = f'{M}/repo'; V = f'{M}/verif'
CHECKS = [
    ('lzma-rust/src/enc/lzma2_writer', 'C03 C09 C15'), ('lzma-rust/src/enc/lzma_writer', 'C04 C15'), ('lzma-rust/src/enc', 'C03 C04'),
    ('lzma-rust/src/lz/lz_decoder', 'C05 C12 C03'), ('lzma-rust/src/lz/', 'C03 C04'),
    ('lzma-rust/src/lzma2_reader', 'C05 C12 C03 C09'), ('lzma-rust/src/lzma_reader', 'C05 C24 C04 C12 C09'), ('lzma-rust', 'C05 C12 C03 C04'),
    ('src/bcj2', 'C07 C12'), ('src/bcj', 'C06 C12 C09'), ('src/delta', 'C06 C12'), ('src/aes', 'C08 C09 C12 C13'), ('src/password', 'C08'),
    ('src/reader', 'C21 C10 C11 C17 C23 C22 C13'), ('src/writer', 'C23 C20 C19 C01 C02 C15 C14 C16 C09'),
    ('src/archive', 'C19 C18 C02 C21 C11'), ('src/en_funcs', 'C19'), ('src/de_funcs', 'C18 C19'),
    ('src/decoders', 'C21 C12 C09 C20'), ('src/encoders', 'C20 C01 C12'), ('src/method', 'C20 C01'), ('src/folder', 'C21 C11 C07'), ('src', 'C21 C13 C12'),
]
ENV = dict(os.environ, CARGO_PROFILE_RELEASE_INCREMENTAL='true', MC_FAST='1')
def sh(c, t=900, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace', **k)
    except subprocess.TimeoutExpired:
        return None
OPS = [
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' << ', ' >> '), (r' >> ', ' << '),
    (r' & ', ' | '), (r' \| ', ' & '), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'if !', 'if '), (r'Some\((\w+)\) =>', None),
]
def sites(path):
    out = []
    lines = open(path).read().split('\n')
    for n, l in enumerate(lines):
        t = l.strip()
        if t.startswith('#[cfg(test)]'):
            break
        if not t or t.startswith(('//', 'impl', 'pub fn', 'fn', 'where', 'use ', '#', 'pub use', 'mod ', 'pub mod')):
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            if b is None:
                continue
            for m in re.finditer(a, code):
                out.append((n, m.start(), m.end(), b))
        for m in [] if 'NOCONST' in os.environ or t.startswith('const ') else re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            out.append((n, m.start(), m.end(), str(int(m.group(1)) + 1)))
        if re.match(r'^\s+[\w.\[\]*]+(\.\w+\(.*\)\??| [-+|&^]?= .*|\(.*\)\??);$', code) and not t.startswith(('let ', 'return', 'type ', 'const ')):
            out.append((n, len(l) - len(l.lstrip()), len(l), ''))
    return lines, out
def main():
    pre, every, off = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.makedirs(V, exist_ok=True)
    sh(f'rsync -a --delete --exclude target /repo/ {R}/; rsync -a /verif/mc /verif/check.sh /verif/known_findings.txt {V}/ --exclude mc/target; sed -i "s#\\"/repo#\\"{R}#" {V}/mc/Cargo.toml')
    print(sh('./check.sh build', cwd=V, env=ENV).returncode, flush=True)
    files = [f for f in sh('git ls-files', cwd=R).stdout.split() if f.startswith(pre) and f.endswith('.rs') and '/tests/' not in f and not f.startswith(('tests', 'examples')) and not f.endswith(('wasm.rs', 'verif.rs'))]
    k = 0
    for f in files:
        lines, ss = sites(f'{R}/{f}')
        for s in ss:
            k += 1
            if k % every != off % every:
                continue
            n, a, b, r = s
            new = list(lines)
            new[n] = lines[n][:a] + r + lines[n][b:]
            open(f'{R}/{f}', 'w').write('\n'.join(new))
            t = time.time()
            name = f'{f}:{n + 1}: {lines[n].strip()}  ==>  {new[n].strip() or "(removed)"}'
            res = None
            if sh('./check.sh build', cwd=V, env=ENV).returncode:
                res = 'no build'
            else:
                for c in next(c for p, c in CHECKS if f.startswith(p)).split():
                    x = sh(f'timeout 500 ./check.sh {c} quick', cwd=V, env=ENV)
                    if x is None or x.returncode:
                        res = f'{c} {"timeout" if x.returncode == 124 else x.returncode}'
                        break
                else:
                    x = sh(f'. /opt/vp/env.sh; CARGO_TARGET_DIR={M}/t timeout 300 cargo test -p sevenz-rust -p lzma-rust --all-features --no-fail-fast --offline -- --test-threads 8', 400, cwd=R)
                    ok = len(re.findall(r'^test .*ok$', x.stdout, re.M)) if x else -1
                    res = f'NOT CAUGHT ({ok} tests pass)'
            print(f'[{time.time() - t:.0f} s] {res} | {name}', flush=True)
            open(f'{R}/{f}', 'w').write('\n'.join(lines))
    print('sites', k)
main()
