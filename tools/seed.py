#!/usr/bin/env python3
"""Build and validate planted changes from tools/seeds/*.py.  usage: seed.py [--check] [--nodemo] ID...|all
Each spec file defines S(id, property, edits, demo, needs, breaks)."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/seed'
SPECS = {}
PRE = '''#![allow(unused)]
use cv_core::nalgebra::*;
use cv_core::*;
use cv_core::sample_consensus::*;
fn near(a: f64, b: f64, tol: f64, what: &str) { if !((a - b).abs() <= tol) { eprintln!("{}: {} is not {}", what, a, b); std::process::exit(1); } }
fn check(b: bool, what: &str) { if !b { eprintln!("{}", what); std::process::exit(1); } }
fn unit(x: f64, y: f64, z: f64) -> UnitVector3<f64> { Unit::new_normalize(Vector3::new(x, y, z)) }
'''
def S(id, property, edits, demo, needs, breaks):
    SPECS[id] = dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)
def A(id, property, edits, demo, needs, breaks):
    S(id, property, edits, demo, needs, breaks)
    SPECS[id]['akaze'] = True
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# run with the repository as current directory
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"; cp "$here/Cargo.lock" "$d/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/demo.toml" > "$d/Cargo.toml"
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$d/t" cargo run --offline -q --manifest-path "$d/Cargo.toml"
'''
TOML = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[profile.dev]\nopt-level = 1\ndebug = false\n[dependencies]\nnum-traits = "0.2"\n' + ''.join('%s = { path = "@REPO@/%s"%s }\n' % (c, c, ', features = ["alloc"]' if c == 'cv-pinhole' else '') for c in ['cv-core', 'cv-geom', 'cv-pinhole', 'cv-optimize', 'eight-point', 'lambda-twist', 'nister-stewenius'])
# the feature extractor is not built here (image, ndarray ... are not installed): built from its sources with stand-ins for them
ADEMO = '''#!/bin/bash
# run with the repository as current directory
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir "$d/demo" "$d/demo/src" "$d/akaze"; cp "$here/main.rs" "$d/demo/src/main.rs"; cp "$here/Cargo.lock" "$d/Cargo.lock"
cp -r "$here/stubs" "$d/stubs"; cp -r "$repo/akaze/src" "$d/akaze/src"
sed -i 's/^mod /pub mod /' "$d/akaze/src/lib.rs"
sed "s|@REPO@|$repo|" "$here/akaze.toml" > "$d/akaze/Cargo.toml"; cp "$here/demo.toml" "$d/demo/Cargo.toml"; cp "$here/ws.toml" "$d/Cargo.toml"
export CARGO_NET_OFFLINE=true
cd "$d"; CARGO_TARGET_DIR="$d/t" timeout 250 cargo run --offline -q -p demo
'''
ST = ['image', 'ndarray', 'nshare', 'primal', 'bitarray']
AKAZE = '[package]\nname = "akaze"\nversion = "9.9.9"\nedition = "2021"\n[features]\nserde = []\nrayon = []\n[dependencies]\ncv-core = { path = "@REPO@/cv-core" }\nlog = { version = "0.4.14", default-features = false }\nderive_more = "0.99.17"\nthiserror = "1.0.40"\nwide = "0.7"\nfloat-ord = "0.3.2"\n' + ''.join('%s = { path = "../stubs/%s" }\n' % (x, x) for x in ST)
AWS = '[workspace]\nresolver = "2"\nmembers = ["demo", "akaze"]\n[profile.dev]\nopt-level = 1\ndebug = false\n'
ATOML = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nnum-traits = "0.2"\nakaze = { path = "../akaze" }\n' + ''.join('%s = { path = "../stubs/%s" }\n' % (x, x) for x in ['image', 'ndarray', 'bitarray'])
APRE = '''#![allow(unused)]
use akaze::{evolution::EvolutionStep, image::*, Akaze, KeyPoint};
use image::{ImageBuffer, Luma};
fn near(a: f64, b: f64, tol: f64, what: &str) { if !((a - b).abs() <= tol) { eprintln!("{}: {} is not {}", what, a, b); std::process::exit(1); } }
fn check(b: bool, what: &str) { if !b { eprintln!("{}", what); std::process::exit(1); } }
fn of(w: usize, h: usize, f: impl Fn(usize, usize) -> f32) -> GrayFloatImage { GrayFloatImage(ImageBuffer::from_raw(w as u32, h as u32, (0..w * h).map(|i| f(i % w, i / w)).collect()).unwrap()) }
'''
def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
def reset():
    if not os.path.exists(SCR + '/repo'):
        os.makedirs(SCR)
        sh(['git', 'clone', '-q', '/repo', SCR + '/repo'])
        os.makedirs(SCR + '/ws')
        for f in ['Cargo.toml', 'Cargo.lock']:
            shutil.copy('/opt/vp/ws/' + f, SCR + '/ws/' + f)
        for l in os.listdir('/opt/vp/ws'):
            if os.path.islink('/opt/vp/ws/' + l):
                os.symlink(SCR + '/repo/' + l, SCR + '/ws/' + l)
    sh(['git', 'checkout', '-q', '--', '.'], SCR + '/repo')
    sh(['git', 'pull', '-q'], SCR + '/repo')
def baseline():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b
def tests():
    r = sh(['bash', '-c', '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/t; cd %s/ws && cargo test --offline --workspace --features "$FEATURES" 2>&1' % (SCR, SCR)])
    bad = [l for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED') and 'triangulation::test::' not in l]
    built = 'could not compile' not in r.stdout
    return built, bad, r.stdout
def demo(d):
    env = dict(os.environ); env.pop('CARGO_TARGET_DIR', None)
    r = sh(['bash', d + '/demo.sh'], SCR + '/repo', env, 400)
    return r.returncode, (r.stdout + r.stderr)[-600:]
def checks(props):
    env = dict(os.environ, VERIF_REPO=SCR + '/repo', VERIF_BUILD=SCR + '/build', VERIF_EVIDENCE=SCR + '/evidence', VERIF_SEED='1')
    out = {}
    for p in props:
        r = sh([sys.executable, V + '/engine/check.py', p, 'quick'], V, env, 1000)
        out[p] = (r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l], r.stdout[-700:] + r.stderr[-300:])
    return out
def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    ids = list(SPECS) if a == ['all'] else [i for i in SPECS if any(i == x or i.startswith(x + '-') for x in a)]
    for i in ids:
        s = SPECS[i]
        d = V + '/seeded/' + i
        reset()
        os.makedirs(d, exist_ok=True)
        ak = 'akaze' in s
        open(d + '/main.rs', 'w').write((APRE if ak else PRE) + s['demo'])
        open(d + '/demo.sh', 'w').write(ADEMO if ak else DEMO)
        open(d + '/demo.toml', 'w').write(ATOML if ak else TOML)
        shutil.copy(V + '/engine/lock/areal.lock' if ak else '/opt/vp/ws/Cargo.lock', d + '/Cargo.lock')
        if ak:
            open(d + '/akaze.toml', 'w').write(AKAZE)
            open(d + '/ws.toml', 'w').write(AWS)
            shutil.rmtree(d + '/stubs', ignore_errors=True)
            for x in ST:
                shutil.copytree(V + '/engine/stubs/' + x, d + '/stubs/' + x, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
            open(d + '/stubs/image/Cargo.toml', 'w').write('[package]\nname = "image"\nversion = "9.9.9"\nedition = "2021"\n[features]\nsym = []\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        msg = []
        if '--nodemo' not in sys.argv:
            rc, o = demo(d)
            msg.append('demo-clean=%s' % rc)
            if rc: msg.append(o)
        for f, old, new, *o in s['edits']:
            p = SCR + '/repo/' + f
            t = open(p).read()
            if t.count(old) != 1 and not (o and t.count(old)):
                print(i, 'EDIT DOES NOT MATCH', f, t.count(old)); break
            open(p, 'w').write(t.replace(old, new, 1))
        else:
            diff = sh(['git', 'diff'], SCR + '/repo').stdout
            open(d + '/patch.diff', 'w').write(diff)
            if '--nodemo' not in sys.argv:
                built, bad, o = tests()
                msg.append('built=%s failing=%s' % (built, bad))
                rc, o = demo(d)
                msg.append('demo-patched=%s %s' % (rc, o.strip()[-160:]))
            if '--check' in sys.argv:
                for p, (rc, l, o) in checks([s['property']]).items():
                    msg.append('CHECK %s rc=%s %s' % (p, rc, 'caught' + (' (no input)' if l and 'no-failing' in l[0] else '') if rc == 1 and l else 'MISSED ' + o))
        print(i, '|', ' | '.join(msg), flush=True)
    reset()
main()
