#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugdefs.py, validating each one in a scratch copy of /repo:
it applies, builds, passes the tests, and its demo passes without and fails with the change.
usage: mkbugs.py [ID...]"""
import json, os, re, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugdefs import BUGS
OUT = '/verif/seeded'
S = '/tmp/bugwork/repo'
ENV = dict(os.environ, RUST_BACKTRACE='0', CARGO_TERM_COLOR='never')
DEMO_SH = r'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
layered-nlp = { path = "$repo" }
@DEPS@
TOML
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$w/Cargo.lock"; fi
cd "$w" && RUST_BACKTRACE=0 CARGO_TARGET_DIR="$w/target" timeout 280 cargo run -q --offline
'''
PRELUDE = r'''#![allow(dead_code, unused_imports)]
use layered_nlp::*;
use std::fmt::Debug;
struct Rec<T, F>(F, std::marker::PhantomData<T>);
impl<T: Debug + 'static + Send + Sync, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>> Resolver for Rec<T, F> {
    type Attr = T;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<T>> {
        (self.0)(s)
    }
}
fn rec<T: Debug + 'static + Send + Sync, F: Fn(LLSelection) -> Vec<LLCursorAssignment<T>>>(f: F) -> Rec<T, F> {
    Rec(f, std::marker::PhantomData)
}
/// the token spans holding values of a type
fn spans<T: 'static>(l: &LLLine) -> Vec<(usize, usize)> {
    l.query::<T>().into_iter().map(|q| q.0).collect()
}
fn texts(l: &LLLine) -> Vec<String> {
    l.ll_tokens().iter().map(|t| match t.get_token() { LToken::Text(s, _) => s.clone(), LToken::Value => "<>".into() }).collect()
}
#[derive(Debug, Clone, PartialEq)]
struct A(u32);
#[derive(Debug, Clone, PartialEq)]
struct B(u32);
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, env=ENV, capture_output=True, text=True, **k)
def main():
    want = sys.argv[1:]
    fresh = not os.path.exists(S)
    if fresh:
        os.makedirs('/tmp/bugwork', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', S])
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh(f'git -C {S} fetch -q /repo && git -C {S} reset -q --hard {head}')
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
    for b in BUGS:
        if want and b['id'] not in want: continue
        sh(f'git -C {S} checkout -q -- .')
        ok = True
        for f, old, new in b['edits']:
            p = f'{S}/{f}'
            t = open(p).read()
            n = t.count(old)
            k = b.get('nth', {}).get(old)
            if n == 0 or (n > 1 and k is None):
                print(b['id'], 'EDIT matches', n, 'times in', f); ok = False; break
            if k is None: t = t.replace(old, new)
            else:
                parts = t.split(old); t = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
            open(p, 'w').write(t)
        if not ok: continue
        diff = sh(f'git -C {S} diff').stdout
        d = f'{OUT}/{b["id"]}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.rs', 'w').write(PRELUDE + b['demo'].strip() + '\n')
        deps = '\n'.join(f'{x} = {{ path = "$repo/{x}" }}' for x in b.get('deps', []))
        deps += '\n' + '\n'.join(b.get('xdeps', []))
        open(f'{d}/demo.sh', 'w').write(DEMO_SH.replace('@DEPS@', deps.strip()))
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(f'{d}/meta.json', 'w'), indent=1)
        r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=S)
        out = r.stdout + r.stderr
        passed = len(re.findall(r'^test .* \.\.\. ok$', out, re.M)); failed = re.findall(r'^test (.*) \.\.\. FAILED$', out, re.M)
        if r.returncode != 0:
            print(b['id'], 'TESTS FAIL', failed, re.findall(r'^error.*', out, re.M)[:3]); continue
        with_rc = sh(f'bash {d}/demo.sh', cwd=S)
        sh(f'git -C {S} checkout -q -- .')
        wo = sh(f'bash {d}/demo.sh', cwd=S)
        good = with_rc.returncode != 0 and 'error' not in with_rc.stderr.split('panicked')[0] and wo.returncode == 0
        print(b['id'], b['property'], 'OK' if good else 'BAD', f'tests {passed} ok; demo with={with_rc.returncode} without={wo.returncode}')
        if not good: print('   with:', with_rc.stderr[-600:], '\n   without:', wo.stderr[-900:])
main()
