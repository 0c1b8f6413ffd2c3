"""Validate a planted bug: seed.py ID...   (applies it to /repo, builds, runs the tests, the demo and the check, and undoes it)
   seed.py --new ID PROPERTY FILE OLD NEW  makes seeded/ID/patch.diff from a replacement"""
import sys, os, json, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


if sys.argv[1] == '--new':
    i, prop, *rest = sys.argv[2:]
    d = ROOT + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
    while rest:
        f, old, new = rest[:3]
        rest = rest[3:]
        p = R + '/cli/src/' + f
        s = open(p).read()
        assert s.count(old) >= 1, 'OLD not found'
        open(p, 'w').write(s.replace(old, new, 1))
    open(d + '/patch.diff', 'w').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE, text=True).stdout)
    clean()
    m = d + '/meta.json'
    if not os.path.exists(m):
        json.dump({'property': prop, 'needs': '', 'what_it_breaks': ''}, open(m, 'w'), indent=1)
    sys.exit(0)

base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
for i in sys.argv[1:]:
    d = ROOT + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    clean()
    r0 = sh('bash %s/demo.sh' % d, cwd=R) if '--no-clean' not in sys.argv else None
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        print(i, 'APPLY FAILED', a.stdout)
        continue
    try:
        b = sh('cd /repo/cli && cargo build --release --offline')
        t = sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        try:
            o = json.load(open('/tmp/seed-out.json'))
            s = json.dumps(o)
            passed = set(o.get('passed', [])) if isinstance(o, dict) else set()
            nf = len(o.get('failed', []))
        except Exception as e:
            passed, nf = set(), -1
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        c = sh('python3 -m sa.check %s' % meta['property'], cwd=ROOT)
        print('%s %s: build %d, tests %d passed %d failed, demo clean %s patched %d, check %d' % (i, meta['property'], b.returncode, len(passed), nf, r0.returncode if r0 else '-', r1.returncode, c.returncode))
        if r0 and r0.returncode:
            print('   clean demo:', r0.stdout[-600:])
        print('   demo:', r1.stdout.strip().split('\n')[-1][:200])
        print('   check:', '\n          '.join(l[:200] for l in c.stdout.strip().split('\n')[-4:]))
    finally:
        clean()
sh('cd /repo/cli && cargo build --release --offline')
