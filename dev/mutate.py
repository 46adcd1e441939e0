#!/usr/bin/env python3
"""Developer tool, used by no check: makes small mechanical changes to /repo's sources (in scratch copies), keeps those that
build and pass the repository's tests, and runs the monitors on them until one alarms. What no monitor reports is printed as
SURVIVED: either the change keeps the behaviour, or a monitor is missing something.
usage: mutate.py OUT.json [-n WORKERS] [-s SCALE] [-f REGEX] [-l LIMIT] [-r REGEX]"""
import argparse, json, os, re, shutil, subprocess, sys, threading, random
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('-n', type=int, default=2); ap.add_argument('-s', default='0.02'); ap.add_argument('-f', default='.'); ap.add_argument('-l', type=int, default=10**9)
ap.add_argument('-w', default='/tmp/mut'); ap.add_argument('-r', help='judge again those survivors of OUT.json that match')
A = ap.parse_args()
SRC = '/repo/src'
ORDER = 'C04 C03 C25 C02 C07 C08 C09 C10 C12 C13 C11 C28 C27 C06 C05 C15 C16 C17 C18 C19 C20 C21 C22 C14 C26 C29 C30 C31 C23 C01 C24 C32'.split()
def sh(cmd, cwd='/', env=None, t=600):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env={**os.environ, **(env or {})}, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, 'timeout')
RUST = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|', '&&'),
        (r' \+ ', ' - '), (r' - ', ' + '), (r'\+= ', '-= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '3'),
        (r'\b16\b', '15'), (r'\b16\b', '17'), (r'\b64\b', '65'), (r'\.find\(', '.rfind('), (r'splitn\(2, ', 'rsplitn(2, '), (r'\.to_ascii_lowercase\(\)', '.to_ascii_uppercase()'),
        (r'\.to_ascii_lowercase\(\)', '.to_string()'), (r'\bSome\((\w+)\)$', 'None'), (r'if !', 'if '), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'), (r'\.next\(\)', '.last()'),
        (r'\.start\b', '.end'), (r'\.end\b', '.start'), (r'saturating_sub\(1\)', 'saturating_sub(0)'), (r'saturating_sub\(1\)', 'saturating_sub(2)'), (r'Err\(_\)', 'Err(_) if false'),
        (r'\.iter\(\)', '.iter().rev()'), (r"'(.)'", "'\\\\u{7f}'"), (r'"localhost"', '"localhos"'), (r'"scratch"', '"scratc"'), (r'\bstart\b', 'end'), (r'\bend\b', 'start'), (r'\.push\(', '.insert(0, '),
        (r'\.or_else\(', '.and_then('), (r'A-Za-z', 'A-Z'), (r'0-9', '1-9'), (r'a-f', 'a-e'), (r'A-F', 'A-E'), (r'_\]', ']'), (r'\.pop\(\)\.unwrap\(\)', '.remove(0)'), (r'len - 1', '0'),
        (r'if let Some\((\w+)\) = (.*) \{', r'if let Some(\1) = (\2).filter(|_| false) {'), (r'usize>', 'u8>'), (r'\bisize\b', 'i16'), (r'content\.as_bytes\(\)\.iter\(\)\.enumerate\(\)', 'content.chars().enumerate()')]
PEST = [(r'\^"', '"'), (r'\*', '+'), (r'\+', '*'), (r'\?', ''), (r'![A-Z"(a-z]', lambda m: m.group(0)[1:]), (r'&\(', '('), (r'\bws\*', ''), (r'"\\t"', '"\\\\u{b}"'), (r'= @\{', '= ${'), (r'= \$\{', '= @{'), (r'= _\{', '= {'),
        (r'arg_ws_maybe ~ ', ''), (r'\barg_ws\b', 'ws+'), (r'\barg_ws_maybe\b', 'arg_ws'), (r'ASCII_ALPHANUMERIC', 'ASCII_ALPHA'), (r'ASCII_ALPHA\b', 'ASCII_ALPHANUMERIC'), (r'ASCII_HEX_DIGIT', 'ASCII_DIGIT'),
        (r'\{4\}', '{3}'), (r'\{8\}', '{7}'), (r'\{2,\}', '{3,}'), (r'\{2,\}', '{1,}'), (r' \| "[^"]*"', ''), (r'"[^"]*" \| ', ''), (r' \| \w+', ''), (r'\w+ \| ', ''), (r' ~ \w+', ''), (r'\w+ ~ ', ''), (r' ~ "[^"]*"', ''), (r'NEWLINE', '"\\n"'), (r'\bANY\b', 'ASCII'), (r'\bws\b', '" "')]
def mutants():
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if not re.search(A.f, rel): continue
            s = open(p).read()
            cut = s.find('#[cfg(test)]')
            body = s if cut < 0 or f == 'lib.rs' else s[:cut]
            lines = body.split('\n')
            for i, l in enumerate(lines):
                t = l.strip()
                if not t or t.startswith('//') or t.startswith('use ') or t.startswith('#['): continue
                for pat, rep in (PEST if f.endswith('.pest') else RUST):
                    for k, m in enumerate(re.finditer(pat, l)):
                        n = l[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + l[m.end():]
                        if n != l: yield rel, i, l, n, s
                if f.endswith('.rs') and t.endswith(';') and not t.startswith('let ') and not t.startswith('return') and t not in ('};', ');', '});'):
                    yield rel, i, l, '', s
                # two neighbouring alternatives of the grammar
                if f.endswith('.pest') and t.endswith('|') and i + 1 < len(lines) and lines[i + 1].strip().endswith('|'):
                    yield rel, i, l, '@swap', s
                    yield rel, i, l, '', s
def text(m):
    rel, i, l, n, s = m
    L = s.split('\n')
    if n == '@swap': L[i], L[i + 1] = L[i + 1], L[i]
    else: L[i] = n
    return '\n'.join(L)
seen, todo = set(), []
for m in mutants():
    t = text(m)
    if t not in seen:
        seen.add(t); todo.append(m)
random.Random(7).shuffle(todo)
todo = todo[:A.l]
try: R = json.load(open(A.out))
except Exception: R = {}
lock = threading.Lock()
it = iter(todo)
def work(w):
    W = f'{A.w}/{w}'
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh(f'cp -a /repo {W}/repo; git -C {W}/repo checkout -q -- .; cp -a /verif/harness {W}/harness; sed -i "s#/repo\\"#{W}/repo\\"#; s/^opt-level = 2/opt-level = 0/; s/^debug = 1/debug = 0/" {W}/harness/Cargo.toml; mkdir -p {W}/v/evidence {W}/v/replays; cp /verif/KNOWN_FINDINGS {W}/v/')
    open(f'{W}/harness/Cargo.toml', 'a').write('opt-level = 2\n\n[profile.release.package."*"]\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\n')
    while True:
        with lock:
            m = next(it, None)
        if m is None: break
        rel, i, l, n, s = m
        key = f'{rel}:{i + 1}: {l.strip()} -> {n.strip()}'
        if A.r:
            if R.get(key) != 'SURVIVED' or not re.search(A.r, key): continue
        elif key in R: continue
        p = f'{W}/repo/src/{rel}'
        open(p, 'w').write(text(m))
        try:
            env = {'CARGO_INCREMENTAL': '1'}
            t = sh('cargo test --offline -q -- --test-threads 4', f'{W}/repo', env, 180)
            if t.returncode:
                res = 'tests' if 'could not compile' not in t.stdout else 'compile'
            else:
                b = sh('cargo build --release --offline', f'{W}/harness', {'CARGO_TARGET_DIR': f'{W}/t', 'CARGO_INCREMENTAL': '0'})
                if b.returncode: res = 'harness build'
                else:
                    res = 'SURVIVED'
                    for sc in (A.s,):
                        for c in ORDER:
                            if c == 'C32' : continue
                            r = sh(f'timeout 300 {W}/t/release/dfmon run {c}', f'{W}/v', {'DF_VERIF': f'{W}/v', 'DF_REPO': f'{W}/repo', 'DF_SCALE': sc, 'DF_SLOW': '10', 'DF_EVIDENCE': f'{W}/v/evidence/{c}.json', 'VERIF_TIER': 'quick'})
                            if r.returncode == 1 and 'VIOLATION' in r.stdout: res = 'caught ' + c; break
                            if r.returncode: res = f'odd {c} {r.returncode}'
                        if res.startswith('caught'): break
        finally:
            open(p, 'w').write(s)
        with lock:
            R[key] = res
            json.dump(R, open(A.out, 'w'), indent=1)
            if not res.startswith(('tests', 'compile')): print(res, '|', key, flush=True)
    shutil.rmtree(W, ignore_errors=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(A.n)]
print(len(todo), 'changes', flush=True)
[t.start() for t in ts]; [t.join() for t in ts]
