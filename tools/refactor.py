#!/usr/bin/env python3
"""Run checks on behaviour-preserving edits: refactor.py [ID...|all].  Spec files tools/refactors/*.py call R(id, props, edits)."""
import glob, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {}
def R(id, props, edits):
    SPECS[id] = (props, edits)
for f in sorted(glob.glob(V + '/tools/refactors/*.py')):
    exec(open(f).read())
W = '/tmp/rf/repo'
def main():
    ids = [a for a in sys.argv[1:]] or ['all']
    ids = list(SPECS) if ids == ['all'] else [k for a in ids for k in SPECS if k == a or k.startswith(a)]
    shutil.rmtree('/tmp/rf', ignore_errors=True)
    os.makedirs('/tmp/rf')
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    for k in ids:
        props, edits = SPECS[k]
        subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
        bad = False
        for e in edits:
            p = f'{W}/{e[0]}'
            s = open(p).read()
            n = s.count(e[1])
            if n < 1 or (n > 1 and len(e) < 4):
                print(f'{k}: edit matches {n} times: {e[1][:60]!r}'); bad = True; break
            s = s.replace(e[1], e[2]) if len(e) < 4 or e[3] == 'all' else s.replace(e[1], e[2], 1)
            open(p, 'w').write(s)
        if bad:
            continue
        for pr in props.split():
            t = time.time()
            r = subprocess.run([sys.executable, 'engine/check.py', pr, 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_BUILD='/tmp/rf/build', VERIF_EVIDENCE='/tmp/rf/evidence'), capture_output=True, text=True)
            out = (r.stdout + r.stderr).strip().splitlines()
            tag = {0: 'quiet', 1: 'ALARM'}.get(r.returncode, f'NOANSWER {r.returncode}')
            print(f'{k} {pr} {tag} {time.time()-t:.0f}s', flush=True)
            if r.returncode:
                print('   ' + '\n   '.join(l[:400] for l in out[-12:]), flush=True)
            else:
                for l in out:
                    if 'not checked' in l or 'fallback' in l or 'skipped' in l: print('   ' + l[:300], flush=True)
main()
