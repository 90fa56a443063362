"""Mutation campaign: generated single-token changes of the real code, kept when the stable tests still pass,
then given to the checks of the properties anchored in the changed function.  Development aid; no check uses it.

  mutants.py gen OUT.json [n] [seed]      writes a sample of mutants
  mutants.py run MUTANTS.json RESULT.jsonl [workers]
Each worker has its own mount namespace in which a scratch copy is mounted on /repo.
"""
import io, json, os, random, re, shutil, subprocess, sys, tempfile, tokenize
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['active_subspaces/' + f for f in ('subspaces.py', 'gradients.py', 'domains.py', 'integrals.py', 'optimizers.py', 'response_surfaces.py',
         'utils/misc.py', 'utils/response_surfaces.py', 'utils/designs.py', 'utils/quadrature.py', 'utils/qp_solver.py', 'utils/simrunners.py')]
OPS = {'+': ['-'], '-': ['+'], '*': ['/', '+'], '/': ['*'], '<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='],
       '+=': ['-='], '**': ['*']}
NAMES = {'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'], 'amin': ['amax'], 'amax': ['amin'], 'argmin': ['argmax'], 'argmax': ['argmin'],
         'ones': ['zeros'], 'zeros': ['ones'], 'm': ['n'], 'n': ['m'], 'vstack': ['hstack'], 'hstack': ['vstack'], 'W1': ['W2'], 'W2': ['W1'], 'sum': ['mean'],
         'mean': ['sum'], 'sqrt': ['abs'], 'all': ['any'], 'any': ['all'], 'X': ['Y'], 'Y': ['X'], 'N': ['M'], 'M': ['N'], 'lb': ['ub'], 'ub': ['lb'],
         'A': ['b'], 'min': ['max'], 'max': ['min'], 'not': [''], 'abs': ['']}


def mutants_of(path):
    src = open('/repo/' + path).read().expandtabs(8)
    lines = src.splitlines(True)
    toks = [t for t in tokenize.generate_tokens(io.StringIO(src).readline)]
    cls = fn = None
    out = []
    for k, t in enumerate(toks):
        if t.type == tokenize.NAME and t.string in ('class', 'def'):
            name = toks[k + 1].string
            col = t.start[1]
            if t.string == 'class':
                cls, fn = name, None
            elif col == 0:
                cls, fn = None, name
            else:
                fn = name
        if fn is None or re.match(r'\s*(def|class|raise|print|import|from)\b', t.line):
            continue
        where = (cls + '.' if cls else '') + fn
        reps = []
        if t.type == tokenize.OP:
            reps = OPS.get(t.string, [])
        elif t.type == tokenize.NAME:
            reps = NAMES.get(t.string, [])
        elif t.type == tokenize.NUMBER:
            try:
                v = int(t.string)
                reps = [str(v + 1)] + ([str(v - 1)] if v else [])
            except ValueError:
                reps = ['(2*%s)' % t.string]
        (r, c), (r2, c2) = t.start, t.end
        for s in reps:
            new = lines[:]
            new[r - 1] = new[r - 1][:c] + s + new[r - 1][c2:]
            out.append(dict(file=path, where=where, line=r, old=lines[r - 1].strip(), new=new[r - 1].strip(), text=new[r - 1]))
    # line-level: drop .copy(), .T, simple statements
    cls = fn = None
    for r, l in enumerate(lines, 1):
        m = re.match(r'(\s*)(class|def) (\w+)', l)
        if m:
            if m.group(2) == 'class':
                cls, fn = m.group(3), None
            elif not m.group(1):
                cls, fn = None, m.group(3)
            else:
                fn = m.group(3)
            continue
        if fn is None:
            continue
        where = (cls + '.' if cls else '') + fn
        for pat in (r'\.copy\(\)', r'\.T\b', r'\.transpose\(\)', r'\+ ?1\b', r'- ?1\b', r', ?axis=0', r'np\.abs', r'\[::-1\]'):
            for m in re.finditer(pat, l):
                nl = l[:m.start()] + l[m.end():]
                out.append(dict(file=path, where=where, line=r, old=l.strip(), new=nl.strip(), text=nl))
        for pat, new in ((r'\((\w+), (\w+)\)', r'(\2, \1)'), (r'\[:(\w+)\]', r'[:\1-1]'), (r'\[(\w+):\]', r'[\1+1:]'), (r'range\((\w+)\)', r'range(\1-1)'),
                         (r'tile', 'repeat'), (r'\bif (.*):$', r'if not (\1):'), (r'\bif (.*):$', r'if True:'), (r'\[:, ?(\w+)\]', r'[\1,:]'), (r'\[:,0\]', '[:,-1]'),
                         (r'\bw\b', 'w**2'), (r'= (.+)$', r'= 0.5*(\1)'), (r'\b(\w+)\*(\w+)\b', r'\1*\2**2')):
            if re.search(pat, l.rstrip('\n')):
                nl = re.sub(pat, new, l.rstrip('\n'), count=1) + '\n'
                out.append(dict(file=path, where=where, line=r, old=l.strip(), new=nl.strip(), text=nl))
        m = re.match(r'(\s+)([\w.]+(\[.*\])?|[\w., ]+) *([+*-]?=) .*[^,(\[\\]\n', l)
        if m and l.count('(') == l.count(')'):
            out.append(dict(file=path, where=where, line=r, old=l.strip(), new='pass', text=m.group(1) + 'pass\n'))
    return out


def props_for(m):
    first, second = [], []
    for l in open(V + '/properties.jsonl'):
        d = json.loads(l)
        a = d['anchors']
        names = [x['where'] for x in a['mechanism'] + a['state']]
        c = m['where'].split('.')[0]
        if any(n.startswith(m['file'] + ':') and n.split(':')[1].split('.')[0] == c for n in names):
            first.append(d['id'])
        elif m['file'] in a['files']:
            second.append(d['id'])
    return first + second


def gen(out, n=400, seed=1):
    rnd = random.Random(seed)
    ms = [x for f in FILES for x in mutants_of(f)]
    rnd.shuffle(ms)
    json.dump(ms[:n], open(out, 'w'), indent=0)
    print(len(ms), 'mutants,', min(n, len(ms)), 'sampled')


def worker(mfile, rfile, k, n):
    ms = json.load(open(mfile))
    stable = json.load(open('/opt/vp/BASELINE.json'))
    scratch = tempfile.mkdtemp(prefix='mut%d-' % k)
    subprocess.check_call('cp -a /repo %s/repo && mount --bind %s/repo /repo' % (scratch, scratch), shell=True)
    v = scratch + '/verif'
    subprocess.check_call('mkdir -p %s && cp -a %s/check.py %s/engine %s/contracts %s/concrete %s/known_findings.txt %s/properties.jsonl %s' % (v, V, V, V, V, V, V, v), shell=True)
    base = set(stable['stable'])
    for i, m in enumerate(ms):
        if i % n != k:
            continue
        p = '/repo/' + m['file']
        src = open(p).read()
        lines = src.expandtabs(8).splitlines(True)
        lines[m['line'] - 1] = m['text']
        try:
            open(p, 'w').write(''.join(lines))
            r = dict(m, i=i)
            got = tests(scratch)
            if got is None or not base <= got:
                r['status'] = 'killed by tests'
            else:
                r['status'] = 'missed'
                r['tried'] = []
                for pid in props_for(m):
                    try:
                        q = subprocess.run(['/opt/venv/bin/python', v + '/check.py', pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600,
                                           cwd=v, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                    except subprocess.TimeoutExpired:
                        r['tried'].append(pid + ' timeout')
                        continue
                    b = [x for x in q.stdout.splitlines() if 'bounded stand-in' in x]
                    r['tried'].append(pid + (' bounded %s' % b if b else ''))
                    if q.returncode == 1:
                        r['status'] = 'caught'
                        r['by'] = [x for x in q.stdout.splitlines() if x.startswith('VIOLATION')][0]
                        r['out'] = q.stdout[-1500:]
                        break
                    if q.returncode:
                        r['tried'].append('rc %d' % q.returncode)
        finally:
            open(p, 'w').write(src)
        open(rfile, 'a').write(json.dumps(r) + '\n')


def tests(scratch):
    o = scratch + '/t.json'
    if os.path.exists(o):
        os.remove(o)
    try:
        subprocess.run(['bash', '/opt/vp/test.sh', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200, cwd=scratch)
        d = json.load(open(o))
    except Exception:
        return None
    return {k for k in passed(d)}


def passed(d):
    if isinstance(d, dict):
        for key in ('passed', 'pass'):
            if key in d and isinstance(d[key], list):
                return d[key]
        return [k for k, x in d.items() if x in ('passed', 'pass', True)]
    return []


def run(mfile, rfile, workers=4):
    ps = [subprocess.Popen(['unshare', '-m', sys.executable, os.path.abspath(__file__), 'worker', mfile, rfile, str(k), str(workers)]) for k in range(workers)]
    for p in ps:
        p.wait()


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'gen':
        gen(a[1], *[int(x) for x in a[2:]])
    elif a[0] == 'run':
        run(a[1], a[2], *[int(x) for x in a[3:]])
    else:
        worker(a[1], a[2], int(a[3]), int(a[4]))
