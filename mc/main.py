"""mc.main <ID> [--replay FILE]: decide one property."""
import importlib
import json
import logging
import os
import sys
import time
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')


def known_findings(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k.get('property') == pid]


def matches(finding, case, msg):
    want = finding.get('case')
    return want == case and finding.get('message_contains', '') in msg


def main(argv):
    t0 = time.time()
    warnings.simplefilter('ignore')
    logging.disable(logging.NOTSET)
    logging.lastResort = None
    logging.getLogger().addHandler(logging.NullHandler())
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all='ignore')
    from mc import engine
    import runlmc
    got = os.path.realpath(list(runlmc.__path__)[0])
    assert got == os.path.realpath(os.path.join(REPO, 'runlmc')), got

    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        mod = importlib.import_module('checks.' + pid.lower())
    except ImportError as e:
        # The code under test no longer offers something the property talks about.
        if 'runlmc' in (getattr(e, 'name', '') or '') or 'runlmc' in str(e):
            mod = None
            import_error = e
        else:
            raise
    if mod is None:
        rep = write_replay(pid, {'import': str(import_error)}, 'import failed: %s' % import_error)
        write_evidence(pid, tier, t0, dict(states=0, transitions=0, traces_validated_against_impl=0,
                                           samples=[]), 1, [])
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        print('  import failed: %s' % import_error)
        return 1

    limit = getattr(mod, 'CASE_LIMIT', 240)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            r = json.load(f)
        x, msg = engine.execute(mod, r['case'], limit)
        print(msg or 'no violation')
        return 1 if msg else 0

    cases = []
    seen = set()
    raw = 0
    for case in mod.cases(tier, engine):
        raw += 1
        k = json.dumps(case, sort_keys=True)
        if k not in seen:
            seen.add(k)
            cases.append(json.loads(k))
    if os.environ.get('MC_LIST'):
        for c in cases:
            print(json.dumps(c))
        return 0
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    res = engine.explore(mod, cases, procs=int(os.environ.get('MC_PROCS', '8')), limit=limit)

    findings = known_findings(pid)
    reported, printed = 0, []
    for i, msg in res['bad']:
        case = cases[i]
        hit = [k for k in findings if matches(k, case, msg)]
        if hit:
            line = 'KNOWN-FINDING: property=%s %s' % (pid, hit[0].get('what', msg))
            if line not in printed:
                printed.append(line)
            continue
        reported += 1
        if reported <= 5:
            path = write_replay(pid, case, msg)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  case: %s' % json.dumps(case, sort_keys=True)[:600])
            print('  %s' % msg)
    for line in printed:
        print(line)

    samples = [cases[i] for i in sorted(res['samples'])[:6]]
    cov = dict(
        states=len(res['states']), transitions=res['transitions'],
        traces_validated_against_impl=res['done'],
        samples=samples, comparisons_against_oracle=res['comparisons'],
        distinct_outcomes=len(res['outcomes']),
        cases_planned=len(cases), choice_paths=raw,
        exhaustive=bool(res['done'] == len(cases) and not res['capped']),
        bounds=getattr(mod, 'BOUNDS', ''), worst_error_over_tolerance=res['worst'],
        slowest_case_s=round(res['slow'][0], 2))
    if res['skips']:
        cov['skipped'] = res['skips']
    write_evidence(pid, tier, t0, cov, reported, getattr(mod, 'ASSUMPTIONS', []))
    print('%s %s: %d executions, %d states, %d transitions, %d comparisons, %d outcomes, worst %.2g of tol, '
          'slowest %.1fs, %.1fs%s' % (
              pid, tier, res['done'], len(res['states']), res['transitions'], res['comparisons'],
              len(res['outcomes']), res['worst'], res['slow'][0], time.time() - t0,
              ' skipped=%s' % res['skips'] if res['skips'] else ''))
    return 1 if reported else 0


def write_replay(pid, case, msg):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, case=case, message=msg,
                       seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                       replay='bin/check %s --replay %s' % (pid, path)), f, indent=1)
    return path


def write_evidence(pid, tier, t0, cov, violations, assumptions):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='model_checking', coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - t0, 2), violations=violations)
    tmp = os.path.join(d, '%s.json.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, '%s.json' % pid))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
