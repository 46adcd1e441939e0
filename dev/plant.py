#!/usr/bin/env python3
"""Developer tool, used by no check: makes and confirms planted bugs.
usage: plant.py SPECS.py [ID...]   SPECS.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust)]
For each: patches a scratch copy of /repo, runs the repository's tests there, runs the demonstration with and without the patch, and
keeps the bug in /verif/seeded/ID when everything is as it must be."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Run with cwd = the repository. Builds a small program against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"

[dependencies]
dockerfile-parser = { path = "$repo" }

[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
ulimit -c 0
timeout 60 "$tmp/target/debug/demo"
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def one(b):
    d = f'/tmp/plant/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = d + '/repo'
    sh(f'cp -a /repo {r}', '/')
    sh('git checkout -q -- .', r)
    try:
        for f, old, new in b['edits']:
            p = f'{r}/src/{f}'
            s = open(p).read()
            n = s.count(old)
            if n != 1: return b['id'], f'edit of {f}: {n} matches for {old!r}'
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git diff', r).stdout
        base = sh('git rev-list --max-parents=0 HEAD', r).stdout.strip()
        # lines removed must be original ones
        for f in set(e[0] for e in b['edits']):
            blame = sh(f'git blame -s --abbrev=40 HEAD -- src/{f}', r).stdout.splitlines()
            for line in re.findall(r'^-(?!--)(.*)$', sh(f'git diff src/{f}', r).stdout, re.M):
                hits = [x for x in blame if re.sub(r'^\S+ +(\S+ +)?\d+\) ?', '', x) == line]
                if hits and not any(x.lstrip('^').startswith(base[:39]) for x in hits):
                    return b['id'], f'touches a line of a fix: {line}'
        t = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1', r)
        p = sum(int(x) for x in re.findall(r'test result: .*? (\d+) passed', t.stdout)); f = sum(int(x) for x in re.findall(r'(\d+) failed;', t.stdout))
        if t.returncode or f or p != 59: return b['id'], f'tests: {p} passed {f} failed ' + ' '.join(re.findall(r'^    (\S+::\S+|parse_\w+)$', t.stdout, re.M)) + ' '.join(re.findall(r'^error.*', t.stdout, re.M))
        out = d + '/seed'
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/main.rs', 'w').write(b['demo'])
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        x = sh(out + '/demo.sh', r)
        if x.returncode == 0 or x.returncode == 3: return b['id'], f'demo with patch: exit {x.returncode}\n{x.stdout[-1500:]}'
        sh('git checkout -q -- .', r)
        y = sh(out + '/demo.sh', r)
        if y.returncode: return b['id'], f'demo without patch: exit {y.returncode}\n{y.stdout[-1500:]}'
        shutil.rmtree(f'{SEEDED}/{b["id"]}', ignore_errors=True)
        shutil.copytree(out, f'{SEEDED}/{b["id"]}')
        return b['id'], 'ok'
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    bugs = [b for b in g['BUGS'] if not want or b['id'] in want]
    with ThreadPoolExecutor(4) as ex:
        for i, res in ex.map(one, bugs): print(i, res, flush=True)
main()
