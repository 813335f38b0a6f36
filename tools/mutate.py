#!/usr/bin/env python3
"""Mutation campaign: small changes of one token, which checks notice them.  usage: mutate.py N SEED WORKERS [FILE-substring]
Prints every mutant no check reports; those that the existing tests do not notice either deserve a look."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get('MUT_SCR', '/tmp/mut')
IMAGES = {'akaze/src/fed_tau.rs': ['A01'], 'akaze/src/evolution.rs': ['A01'], 'akaze/src/image.rs': ['A02'], 'akaze/src/derivatives.rs': ['A02'], 'akaze/src/nonlinear_diffusion.rs': ['A03'],
          'akaze/src/contrast_factor.rs': ['A03'], 'akaze/src/detector_response.rs': ['A03'], 'akaze/src/lib.rs': ['A03', 'A04'], 'akaze/src/scale_space_extrema.rs': ['A04'], 'akaze/src/descriptors.rs': ['A04']}
REPO = os.environ.get('MUT_REPO', '/repo')
FILES = IMAGES if 'akaze' in sys.argv[4:] else {
    'cv-core/src/so3.rs': ['C04', 'C05', 'G06'], 'cv-core/src/pose.rs': ['C03', 'C02', 'C06', 'C04'], 'cv-core/src/point.rs': ['C01', 'C02'], 'cv-core/src/triangulation.rs': ['C07'],
    'cv-pinhole/src/essential.rs': ['E01', 'E02', 'E03'], 'cv-pinhole/src/lib.rs': ['P01', 'P02', 'P03', 'P04'],
    'cv-geom/src/epipolar.rs': ['G06'], 'cv-geom/src/triangulation.rs': ['G02', 'G05', 'G04', 'G01', 'G03'],
    'cv-optimize/src/single_view_optimizer.rs': ['O01'], 'cv-optimize/src/three_view_optimizer.rs': ['O02'],
    'eight-point/src/lib.rs': ['M01'], 'nister-stewenius/src/lib.rs': ['M02'], 'lambda-twist/src/lib.rs': ['M03'],
}
RULES = [
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r'(?<![-=<>])>(?= )', ['<', '>=']), (r' < ', [' > ', ' <= ']), (r' >= ', [' > ', ' < ']), (r' <= ', [' < ']),
    (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' == ', [' != ']), (r' != ', [' == ']),
    (r'\b0\.5\b', ['1.0']), (r'\b1\.0\b', ['2.0', '0.0']), (r'\b2\.0\b', ['1.0', '4.0']), (r'\b3\.0\b', ['2.0']), (r'\b0\.0\b', ['1e-3', '-1.0']), (r'\b1e-(\d+)', ['1e-2', '1e-20']),
    (r'\.x\b', ['.y']), (r'\.y\b', ['.z']), (r'\.z\b', ['.x']), (r'(?<=[(,= ])-(?=[a-z(])', ['']), (r'\.transpose\(\)', ['']), (r'\.inverse\(\)', ['']), (r'\.abs\(\)', ['']), (r'\.sqrt\(\)', ['']),
    (r'\.norm\(\)', ['.norm_squared()']), (r'\bis_sign_positive\b', ['is_sign_negative']), (r'\bis_sign_negative\b', ['is_sign_positive']), (r'\bmin_by', ['max_by']), (r'\bmax_by', ['min_by']), (r'\.all\(', ['.any(']), (r'\.any\(', ['.all(']),
    (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]', '[2]']), (r'\[2\]', ['[1]']), (r'column\((\d)\)', ['column(0)', 'column(1)', 'column(2)']), (r'row\((\d)\)', ['row(0)', 'row(1)']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\ba\.', ['b.']), (r'\bb\.', ['a.']), (r'\.skip\(1\)', ['', '.skip(2)']), (r'\b(\d+)\.\.', ['1..']), (r'\bcross\(', ['dot(']), (r'\.filter\(\|.*\)$', ['']),
]
def mutants():
    out = []
    for f in FILES:
        lines = open(REPO + '/' + f).read().split('\n')
        skip = False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#[cfg(test)]'):
                break
            if s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('impl') or 'fn ' in s or not s:
                continue
            code = l.split('//')[0]
            for r, subs in RULES:
                for m in re.finditer(r, code):
                    for t in subs:
                        new = l[:m.start()] + t + l[m.end():]
                        if new != l:
                            out.append((f, n, l, new))
    return out
def sh(cmd, cwd, env, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
ALL = ['A01', 'A02', 'A03', 'A04'] if FILES is IMAGES else [c['property'] if 'property' in c else c['id'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
def work(w, q, res):
    d = '%s/%d' % (SCR, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['git', 'clone', '-q', REPO, d + '/repo'])
    os.makedirs(d + '/ws')
    for x in ['Cargo.toml', 'Cargo.lock']:
        shutil.copy('/opt/vp/ws/' + x, d + '/ws/' + x)
    for x in os.listdir('/opt/vp/ws'):
        if os.path.islink('/opt/vp/ws/' + x):
            os.symlink(d + '/repo/' + x, d + '/ws/' + x)
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build', VERIF_EVIDENCE=d + '/ev', VERIF_SEED='1')
    while True:
        try:
            f, n, old, new = q.get_nowait()
        except queue.Empty:
            return
        p = d + '/repo/' + f
        src = open(p).read().split('\n')
        src[n] = new
        open(p, 'w').write('\n'.join(src))
        first = FILES[f]
        verdict, by = None, ''
        rc, o = (0, '') if FILES is IMAGES else sh(['bash', '-c', '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/t0; cargo check --offline -q --workspace --features "$FEATURES"' % d], d + '/ws', env)
        if rc:
            verdict = 'no build'
        else:
            odd = []
            for i in first + [x for x in ALL if x not in first]:
                rc, o = sh([sys.executable, V + '/engine/check.py', i, 'quick'], V, env)
                if 'NOT CHECKED' in o:
                    verdict = 'no build'
                    break
                if rc == 1:
                    verdict, by = 'caught', i + (' no-input' if 'no-failing-input-found' in o else '')
                    break
                if rc:
                    odd.append('%s rc=%d' % (i, rc))
            if not verdict and FILES is IMAGES:
                verdict = 'SURVIVED ' + ' '.join(odd)
            if not verdict:
                rc, o = sh(['bash', '-c', '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/t; cd %s/ws && cargo test --offline --workspace --features "$FEATURES" -- --skip triangulation::test:: 2>&1' % (d, d)], d, env)
                bad = [l for l in o.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
                verdict = ('SURVIVED' if rc == 0 else 'tests only') + ' ' + ' '.join(odd)
        sh(['git', 'checkout', '-q', '--', '.'], d + '/repo', env)
        line = '%-12s %-12s %s:%d\n      - %s\n      + %s' % (verdict, by, f, n + 1, old.strip(), new.strip())
        res.append((verdict, f))
        print(line, flush=True)
if __name__ == '__main__':
    n, seed, workers = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    m = [x for x in mutants() if len(sys.argv) < 5 or sys.argv[4] in x[0]]
    print(len(m), 'mutants', flush=True)
    random.Random(seed).shuffle(m)
    # about evenly over the files
    rank, cnt = {}, {}
    for x in m:
        cnt[x[0]] = cnt.get(x[0], 0) + 1
        rank[x] = cnt[x[0]]
    m.sort(key=lambda x: rank[x])
    q = queue.Queue()
    for x in m[:n]:
        q.put(x)
    res = []
    ts = [threading.Thread(target=work, args=(w, q, res)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    c = {}
    for v, f in res:
        c[v.split()[0]] = c.get(v.split()[0], 0) + 1
    print(c)
