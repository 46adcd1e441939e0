#!/usr/bin/env python3
"""Developer tool, used by no check: which checks catch which planted bugs, on scratch copies of /repo and of the harness.
usage: matrix.py [-p] [-g] [-w DIR] [ID...]   -p: only the bug's own property; -g: dev/grammar-bugs instead of seeded; -d DIR: such a directory of one's own (a refactoring is caught by nothing); -w: scratch directory; writes DIR.json"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import argparse
ap = argparse.ArgumentParser()
ap.add_argument('-p', action='store_true'); ap.add_argument('-g', action='store_true'); ap.add_argument('-w', default='/tmp/matrix'); ap.add_argument('-d'); ap.add_argument('ids', nargs='*')
A = ap.parse_args()
own, W = A.p, A.w
D = A.d or ('/verif/dev/grammar-bugs' if A.g else '/verif/seeded')
ids = A.ids or sorted(os.listdir(D))
props = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']] if 'property' in json.load(open('/verif/MANIFEST.json'))['checks'][0] else [c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
def sh(cmd, cwd='/', env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **(env or {})})
def prep():
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    sh(f'git clone -q /repo {W}/repo; cp /repo/Cargo.lock {W}/repo/ 2>/dev/null; cp -a /verif/harness {W}/harness; sed -i "s#/repo\\"#{W}/repo\\"#" {W}/harness/Cargo.toml')
    os.makedirs(f'{W}/v'); sh(f'cp /verif/KNOWN_FINDINGS {W}/v/; mkdir -p {W}/v/evidence {W}/v/replays')
WORK = '-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard'
def run(p):
    exe = f'{W}/t/release/dfmon'
    if p == 'C32':
        b = sh('cargo build --release --offline --target x86_64-unknown-linux-gnu --features work', f'{W}/harness', {'CARGO_TARGET_DIR': f'{W}/tw', 'CARGO_INCREMENTAL': '0', 'RUSTFLAGS': WORK})
        if b.returncode: return p, 99, False, b.stdout
        exe = f'{W}/tw/x86_64-unknown-linux-gnu/release/dfmon'
    r = sh(f'timeout 900 {exe} run {p}', f'{W}/v', {'DF_VERIF': f'{W}/v', 'DF_REPO': f'{W}/repo', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': os.environ.get('VERIF_TIER', 'quick'), 'DF_EVIDENCE': f'{W}/v/evidence/{p}.json'})
    hit = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
    return p, r.returncode, hit, r.stdout
prep()
try: M = json.load(open(W + '.json'))
except Exception: M = {}
for i in ids:
    meta = json.load(open(f'{D}/{i}/meta.json'))
    sh('git checkout -q -- .', f'{W}/repo')
    a = sh(f'git apply {D}/{i}/patch.diff', f'{W}/repo')
    if a.returncode: print(i, 'does not apply', a.stdout); continue
    sh(f'find {W}/repo/src -type f -exec touch {{}} +')
    b = sh(f'cargo build --release --offline', f'{W}/harness', {'CARGO_TARGET_DIR': f'{W}/t', 'CARGO_INCREMENTAL': '0'})
    if b.returncode: print(i, 'build', b.stdout[-2000:]); continue
    ps = [meta['property']] if own else props
    with ThreadPoolExecutor(2) as ex: res = list(ex.map(run, ps))
    M[i] = {'property': meta['property'], 'caught': [p for p, rc, hit, o in res if hit], 'odd': [(p, rc) for p, rc, hit, o in res if rc not in (0, 1)]}
    ok = meta['property'] in M[i]['caught']
    print(i, meta['property'], 'CAUGHT' if ok else 'MISSED', 'by', ' '.join(M[i]['caught']), 'ODD ' + str(M[i]['odd']) if M[i]['odd'] else '', flush=True)
    json.dump(M, open(W + '.json', 'w'), indent=1)
shutil.rmtree(W, ignore_errors=True)
