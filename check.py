"""Decides one property:  check.py <property-id>   |   check.py --replay <file>

1. deductive layer: the functions the property depends on are read from /repo's working tree, translated to
   verification conditions against their contracts (contracts/) and every obligation is discharged (engine/);
2. concrete layer: the same contracts, executable, on the real code: the witness search for an obligation that is
   not discharged, and the labelled, bounded stand-in for what is outside the engine's reach.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import os
import sys

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['MPLBACKEND'] = 'agg'
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

import json
import shutil
import tempfile
import time
import traceback


def known_findings():
    """(property, key) pairs of recorded, unrepaired defects"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                pid = line.split('property=')[1].split()[0]
                key = line.split('key=')[1].split()[0]
                out.append((pid, key, line))
    return out


def write_replay(pid, data):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, data['name']))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return os.path.relpath(path, VERIF)


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        return replay(args[1])
    pid = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    import engine.run as er
    ded = er.verify(pid, tier)
    t_ded = time.time() - t0
    from concrete import base
    import concrete.cases1, concrete.cases2   # noqa: registers the cases
    t1 = time.time()
    stats, fails = base.run_all(pid, seed, tier, 40 if tier == 'quick' else 1500)
    failed = ded['failed']
    if failed and not fails:
        # witness search: the executable contracts on more inputs
        for s in range(1, 4):
            st, fails = base.run_all(pid, seed + 7919 * s, tier, 40)
            stats['evaluations'] += st['evaluations']
            if fails:
                break
    t_con = time.time() - t1
    known = [k for k in known_findings() if k[0] == pid]
    violations = []
    for f in fails:
        hit = [k for k in known if k[1] == f['case']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][2]))
            continue
        r = dict(name=f['case'], property=pid, kind='input', case=f['case'], index=f['index'], seed=f['seed'],
                 message=f['message'], failed_obligations=[o['name'] for o in failed],
                 verifier_output=[o.get('detail') for o in failed][:5])
        violations.append((write_replay(pid, r), True, '%s: %s' % (f['case'], f['message'][:800])))
    if failed and not violations:
        for o in failed:
            r = dict(name=o['name'].replace('/', '_').replace(' ', '_')[:80], property=pid, kind='obligation',
                     obligation=o['name'], verifier_output=o.get('detail'), note='no failing input found')
            violations.append((write_replay(pid, r), False, 'obligation not discharged: %s' % o['name']))
    level = 'proof' if ded['obligations'] and not ded['claimed_level'] else (ded['claimed_level'] or 'exploration')
    cov = dict(
        obligations=ded['obligations'], discharged=ded['discharged'], checker_cmd='/opt/venv/bin/python check.py %s' % pid,
        functions_under_contract=ded['functions'], functions_inlined=ded.get('inlined', []), units=ded['units'],
        bounded_units=ded['bounded'], backends=ded['backends'], solver_s=round(ded['solver_s'], 2),
        deductive_s=round(t_ded, 2), trusted_base=ded['trusted'],
        evaluations=stats['evaluations'], distinct_nontrivial=stats['evaluations'],
        rule='each evaluation draws a different generator seed; inputs that violate the precondition are skipped and not counted',
        samples=stats['samples'][:8] or ['none'], per_case=stats['per_case'], skipped=stats['skipped'], concrete_s=round(t_con, 2))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ded['assumptions'],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged in %d units (%s), %d bounded units, %d concrete evaluations, %.1f s' % (
        pid, ded['discharged'], ded['obligations'], len(ded['units']), ded['backends'], len(ded['bounded']), stats['evaluations'],
        time.time() - t0))
    for b in ded['bounded']:
        print('  bounded stand-in: %s' % b)
    for path, found, msg in violations:
        print('  ' + msg.replace('\n', '\n  '))
    for path, found, msg in violations[:1]:
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
    return 1 if violations else 0


def replay(path):
    r = json.load(open(path))
    if r['kind'] == 'obligation':
        import engine.run as er
        ded = er.verify(r['property'], 'quick')
        hit = [o for o in ded['failed'] if o['name'] == r['obligation']]
        print(hit[0]['detail'] if hit else 'the obligation is discharged now')
        return 1 if hit else 0
    from concrete import base
    import concrete.cases1, concrete.cases2   # noqa
    f = [c for c in base.CASES[r['property']] if c[0] == r['case']][0]
    out = base.run_one(f[1], f[0], r['seed'], r['index'])
    print(out or 'held')
    return 1 if out and out != 'skip' else 0


if __name__ == '__main__':
    scratch = tempfile.mkdtemp(prefix='vf-')
    a = [os.path.abspath(x) if x.endswith('.json') else x for x in sys.argv[1:]]
    sys.argv[1:] = a
    try:
        os.chdir(scratch)
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc) if rc else sys.exit(0)
