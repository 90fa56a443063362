"""plant.py SPEC.py : (re)creates /verif/seeded/<id>/ from edit specs and confirms each in /repo's working tree
(applied and undone at once): patch applies, builds, stable tests pass, demo 0 without / nonzero with the patch."""
import json, os, subprocess, sys, shutil, runpy
REPO, SEED = '/repo', '/verif/seeded'
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
orig = subprocess.run(['git', '-C', REPO, 'log', '--format=%h'], capture_output=True, text=True).stdout.split()[-1]

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

specs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
assert sh('git -C /repo status --porcelain').stdout == ''
for s in specs:
    if only and s['id'] not in only:
        continue
    d = os.path.join(SEED, s['id'])
    os.makedirs(d, exist_ok=True)
    try:
        for (fn, old, new) in s['edits']:
            p = os.path.join(REPO, fn)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], fn, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    finally:
        sh('git -C /repo checkout -- .')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n'
        'd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d) || exit 1\ntrap \'rm -rf "$w"\' EXIT\n'
        'cd "$w" || exit 1\nPYTHONPATH=/repo exec_py() { PYTHONPATH=/repo /opt/venv/bin/python -W ignore "$@"; }\nexec_py "$d/demo.py"\n'.replace('PYTHONPATH=/repo exec_py()', 'exec_py()'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = sh('cd /repo && bash %s/demo.sh' % d)
    msg = []
    if r0.returncode != 0:
        msg.append('DEMO FAILS UNCHANGED: ' + r0.stderr[-600:] + r0.stdout[-300:])
    a = sh('git -C /repo apply %s/patch.diff' % d)
    try:
        if a.returncode:
            msg.append('apply failed ' + a.stderr)
        r1 = sh('cd /repo && bash %s/demo.sh' % d)
        if r1.returncode == 0:
            msg.append('DEMO PASSES WITH PATCH')
        if sh('bash /opt/vp/build.sh').returncode:
            msg.append('BUILD FAILS')
        sh('bash /opt/vp/test.sh /tmp/w/t.json')
        t = json.load(open('/tmp/w/t.json'))
        ok = t.get('passed') or [k for k, v in t.items() if v == 'passed']
        miss = [b for b in base if b not in ok]
        if miss:
            msg.append('TESTS FAIL: %s' % miss[:4])
    finally:
        sh('git -C /repo checkout -- .')
    print(s['id'], 'OK' if not msg else msg, '|', r1.stderr.strip().split('\n')[-1][:150], flush=True)
    if msg:
        shutil.rmtree(d)
