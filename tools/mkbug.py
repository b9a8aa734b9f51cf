#!/usr/bin/env python3
"""Makes seeded/<id>/ from a spec file (Python): ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], MAIN (main.rs body).

The demonstration is a small crate that lies beside demo.sh and is compiled against ./scale-decode."""
import os, re, shutil, subprocess, sys
import json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#![allow(unused)]
use scale_decode::visitor::{self, types::*, *};
use scale_decode::{DecodeAsFields, DecodeAsType, Error, Field, IntoVisitor};
use codec::{Compact, Encode, Decode};
use scale_info::{PortableRegistry, TypeInfo, MetaType};

fn reg<T: TypeInfo + 'static>() -> (u32, PortableRegistry) {
    let mut r = scale_info::Registry::new();
    let id = r.register_type(&MetaType::new::<T>()).id;
    (id, r.into())
}
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
scale-decode = { path = "@REPO@/scale-decode" }
scale-info = { version = "2.7.0", default-features = false, features = ["bit-vec", "derive"] }
codec = { package = "parity-scale-codec", version = "3.0.0", default-features = false, features = ["derive", "bit-vec"] }
bitvec = { version = "1.0.1", default-features = false }
scale-bits = { version = "0.7.0", default-features = false, features = ["scale-info"] }
primitive-types = { version = "0.13.1", default-features = false, features = ["scale-info"] }
scale-type-resolver = { version = "0.2.0", default-features = false, features = ["scale-info"] }
'''
SH = '''#!/bin/bash
# Compiles the demonstration beside this file against the working tree it is started in, and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.rs" "$here/Cargo.lock" "$tmp/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$tmp/target CARGO_TERM_COLOR=never
cargo run --offline --quiet 2>&1
'''


def load(path):
    g = {}
    exec(open(path).read(), g)
    return g


def main(spec):
    g = load(spec)
    only = sys.argv[2:]
    for x in g.get('SEEDS', [g]):
        if not only or any(o in x['ID'] for o in only):
            make(x)


def make(g):
    d = os.path.join(ROOT, 'seeded', g['ID'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = '/tmp/mkbug'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (wt, wt, wt), shell=True)
    for ed in g['EDITS']:
        f, old, new = ed[:3]
        p = os.path.join(wt, f)
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (n > 1 and len(ed) < 4):
            sys.exit('%s: %d occurrences of %r' % (g['ID'], n, old[:80]))
        if len(ed) > 3:
            i = -1
            for _ in range(ed[3]):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else:
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = subprocess.check_output(['git', 'diff'], cwd=wt, text=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(g.get('PRE', PRE) + g['MAIN'])
    open(d + '/Cargo.toml.in', 'w').write(TOML.replace('/scale-decode" }', '/scale-decode"%s }' % (', ' + g['FEATURES'] if 'FEATURES' in g else '')))
    shutil.copy(os.path.join(ROOT, 'tools', 'demo.lock'), d + '/Cargo.lock')
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(wt)
    print(g['ID'], len(diff.splitlines()), 'lines')


main(sys.argv[1])
