#!/usr/bin/env python3
"""Regenerate /verif/build/{sym,real} from /repo's current source (mechanically, through xform)."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', V + '/build')
X = B + '/xform-target/release/xform'
NALG = 'nalgebra = { version = "0.30.1", default-features = false, features = ["std"] }'
DEPS = {
 'cv-core': [NALG, 'derive_more = "0.99.17"', 'SC', 'num-traits = { version = "0.2.14", default-features = false }'],
 'cv-geom': ['@cv-core', 'FO'],
 'cv-pinhole': ['@cv-core', 'derive_more = "0.99.17"', 'num-traits = { version = "0.2.14", default-features = false }', 'FO', NALG],
 'cv-optimize': ['@cv-core', '@cv-geom', 'itertools = "0.10.3"', 'log = { version = "0.4.14", default-features = false }', 'FO'],
 'eight-point': ['@cv-core', '@cv-pinhole', 'FO', 'derive_more = "0.99.17"', 'num-traits = { version = "0.2.14", default-features = false }', 'arrayvec = { version = "0.7.2", default-features = false }'],
 'lambda-twist': ['@cv-core', 'num-traits = { version = "0.2.14", default-features = false }', 'arrayvec = { version = "0.7.2", default-features = false }'],
 'nister-stewenius': ['@cv-core', '@cv-pinhole', 'FO', 'SC', 'arrayvec = { version = "0.7.2", default-features = false }'],
}
SEQ = {'cv-geom': ('loops', 'counts'), 'cv-optimize': ('loops', 'counts', 'slices'), 'lambda-twist': ('counts',)}
def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)
def sc_dir():
    for d in glob.glob(os.path.expanduser('~/.cargo/registry/src/*/sample-consensus-1.0.2')):
        return d
    sys.exit('sample-consensus source not found')
def table():
    return [l.split(None, 2) for l in open(V + '/engine/private.txt') if l.strip() and not l.startswith('#')]
def all_private(images=False):
    return [t[0] for t in table() if (t[1] == 'akaze') == images]
def private(images=False):
    """contracts that name a private function are compiled only when it is there, with the signature they expect"""
    out = []
    if os.environ.get('NOPRIVATE'):
        return out
    for feature, crate, sig in [t for t in table() if (t[1] == 'akaze') == images]:
        src = ''
        for r, _, fs in os.walk(f'{REPO}/{crate}/src'):
            for f in fs:
                if f.endswith('.rs'):
                    src += open(f'{r}/{f}', errors='replace').read()
        strip = lambda x: ''.join(x.split()).replace(',)', ')')
        if strip(sig) in strip(src):
            out.append(feature)
    return out
PROFILE = '[profile.release]\nopt-level = %s\ndebug = false\ncodegen-units = 16\npanic = "unwind"\nincremental = true\n[profile.release.package."*"]\nopt-level = 2\n'
def images(mode):
    """akaze, whose dependencies are not installed: built against stand-ins (engine/stubs) in a workspace of its own"""
    root, sym = f'{B}/{mode}', mode == 'asym'
    def x(src, out, flags=()):
        a = [X, 'sym' if sym else 'real', src, out] + ([V + '/engine/hooks.txt'] + list(flags) if sym else [])
        r = subprocess.run(a, capture_output=True, text=True)
        if r.returncode:
            print(f'extraction of {src} failed: {r.stderr}', file=sys.stderr)
            sys.exit(3)
    symdep = f'sym = {{ path = "{V}/engine/sym" }}\n' if sym else ''
    scdep = 'sample-consensus = ' + ('{ path = "../sample-consensus" }' if sym else '"1.0.2"') + '\n'
    members = ['cv-core', 'akaze', 'contracts']
    if sym:
        x(sc_dir() + '/src', f'{root}/sample-consensus/src')
        write(f'{root}/sample-consensus/Cargo.toml', f'[package]\nname = "sample-consensus"\nversion = "1.0.2"\nedition = "2018"\n[dependencies]\n{symdep}')
        members.append('sample-consensus')
    x(f'{REPO}/cv-core/src', f'{root}/cv-core/src')
    head = '[package]\nname = "%s"\nversion = "9.9.9"\nedition = "2021"\n[features]\ndefault = ["alloc"]\nalloc = []\nserde-serialize = []\nserde = []\nrayon = []\n[dependencies]\n'
    write(f'{root}/cv-core/Cargo.toml', head % 'cv-core' + NALG + '\nderive_more = "0.99.17"\nnum-traits = "0.2.14"\n' + scdep + symdep)
    x(f'{REPO}/akaze/src', f'{root}/akaze/src', ['narrow'])
    stub = lambda n: f'{n} = {{ path = "{V}/engine/stubs/{n}"' + (', features = ["sym"]' if sym and n == 'image' else '') + ' }\n'
    deps = ''.join(stub(n) for n in ('image', 'ndarray', 'nshare', 'primal', 'bitarray'))
    wide = stub('wide') if sym else 'wide = "0.7"\n'
    write(f'{root}/akaze/Cargo.toml', head % 'akaze' + 'cv-core = { path = "../cv-core" }\nlog = { version = "0.4.14", default-features = false }\nderive_more = "0.99.17"\nthiserror = "1.0.40"\n' + deps + wide + symdep + ('' if sym else 'float-ord = "0.3.2"\n'))
    vc = 'vcx = { package = "%s", path = "%s/engine/%s" }\n' % (('sym', V, 'sym') if sym else ('vcf', V, 'vcf'))
    write(f'{root}/contracts/Cargo.toml', f'[package]\nname = "contracts"\nversion = "0.1.0"\nedition = "2021"\n[[bin]]\nname = "contracts-{mode}"\npath = "{V}/contracts/akaze/main.rs"\n[features]\ndefault = [{", ".join(chr(34) + x + chr(34) for x in [mode[1:]] + private(True))}]\nsym = []\nreal = []\n{"".join(x + " = []" + chr(10) for x in all_private(True))}[dependencies]\n{vc}{NALG}\nakaze = {{ path = "../akaze" }}\ncv-core = {{ path = "../cv-core" }}\n' + stub('image') + stub('ndarray') + stub('bitarray') )
    write(f'{root}/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"{m}"' for m in members) + ']\n' + PROFILE % ('1' if sym else '2'))
    if not os.path.exists(f'{root}/Cargo.lock') and os.path.exists(V + f'/engine/lock/{mode}.lock'):
        write(f'{root}/Cargo.lock', open(V + f'/engine/lock/{mode}.lock').read())
def main():
    modes = sys.argv[1:] or ['sym', 'real']
    for mode in [m for m in modes if m.startswith('a')]:
        images(mode)
        modes.remove(mode)
    hooks = V + '/engine/hooks.txt'
    for mode in modes:
        root = f'{B}/{mode}'
        members = []
        hooked = []
        def x(src, out, flags=()):
            a = [X, mode, src, out] + ([hooks] + list(flags) if mode == 'sym' else [])
            r = subprocess.run(a, capture_output=True, text=True)
            if r.returncode:
                print(f'extraction of {src} failed: {r.stderr}', file=sys.stderr)
                sys.exit(3)
            hooked.extend(r.stdout.split())
        if mode == 'sym':
            x(sc_dir() + '/src', f'{root}/sample-consensus/src')
            write(f'{root}/sample-consensus/Cargo.toml', f'[package]\nname = "sample-consensus"\nversion = "1.0.2"\nedition = "2018"\n[dependencies]\nsym = {{ path = "{V}/engine/sym" }}\n')
            members.append('sample-consensus')
        for c, deps in DEPS.items():
            # loops over any number of elements; NOLOOPS=1 when the source does not allow it
            x(f'{REPO}/{c}/src', f'{root}/{c}/src', SEQ.get(c, ()) if not os.environ.get('NOLOOPS') else ())
            t = f'[package]\nname = "{c}"\nversion = "9.9.9"\nedition = "2021"\n[features]\ndefault = ["alloc"]\nalloc = []\nserde-serialize = []\n[dependencies]\n'
            for d in deps:
                if d.startswith('@'):
                    t += f'{d[1:]} = {{ path = "../{d[1:]}" }}\n'
                elif d == 'SC':
                    t += 'sample-consensus = { path = "../sample-consensus" }\n' if mode == 'sym' else 'sample-consensus = "1.0.2"\n'
                elif d == 'FO':
                    t += '' if mode == 'sym' else 'float-ord = "0.3.2"\n'
                else:
                    t += d + '\n'
            if mode == 'sym':
                t += f'sym = {{ path = "{V}/engine/sym" }}\n'
            write(f'{root}/{c}/Cargo.toml', t)
            members.append(c)
        vc = 'vcx = { package = "sym", path = "%s/engine/sym" }' % V if mode == 'sym' else 'vcx = { package = "vcf", path = "%s/engine/vcf" }' % V
        t = '[package]\nname = "contracts"\nversion = "0.1.0"\nedition = "2021"\n'
        t += f'[[bin]]\nname = "contracts-{mode}"\npath = "{V}/contracts/main.rs"\n[dependencies]\n{vc}\n{NALG}\narrayvec = "0.7"\nnum-traits = "0.2"\nsample-consensus = {"{ path = %s }" % chr(34) if False else ("{ path = " + chr(34) + "../sample-consensus" + chr(34) + " }" if mode == "sym" else chr(34) + "1.0.2" + chr(34))}\n'
        for c in DEPS:
            t += f'{c} = {{ path = "../{c}" }}\n'
        have = private()
        t += f'[features]\ndefault = [{", ".join(chr(34) + x + chr(34) for x in [mode] + have)}]\n{mode} = []\n' + ''.join(f'{x} = []\n' for x in all_private())
        if mode == 'sym':
            if not os.environ.get('NOLOOPS'):
                hooked.append('@loops')
            write(f'{root}/hooked.txt', '\n'.join(hooked) + '\n')
        write(f'{root}/contracts/Cargo.toml', t)
        members.append('contracts')
        w = '[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"{m}"' for m in members) + ']\n'
        w += '[profile.release]\nopt-level = %s\ndebug = false\ncodegen-units = 16\npanic = "unwind"\nincremental = true\n[profile.release.package."*"]\nopt-level = 2\n' % ('1' if mode == 'sym' else '2')
        write(f'{root}/Cargo.toml', w)
        if not os.path.exists(f'{root}/Cargo.lock'):
            write(f'{root}/Cargo.lock', open(V + f'/engine/lock/{mode}.lock').read() if os.path.exists(V + f'/engine/lock/{mode}.lock') else open('/opt/vp/ws/Cargo.lock').read())
main()
