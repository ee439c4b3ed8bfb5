#!/usr/bin/env python3
"""Validate planted bugs: build, stable tests, demo with/without, own check.

usage: seedtest.py [--no-tests] [--no-check] [--all-checks] ID...
Works in a scratch copy of /repo under /tmp, removed afterwards; results are
appended to /tmp/seed_results.jsonl.
"""
import json, os, shutil, subprocess, sys, tempfile, time

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PY = '/opt/pvenv/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', SEED='1234',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def sh(cmd, cwd, env=ENV, timeout=1500):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace')


def tests(cwd):
    import xml.etree.ElementTree as ET
    xml = os.path.join(cwd, '.junit.xml')
    sh([PY, '-m', 'pytest', 'runlmc', '-q', '-p', 'no:cacheprovider', '-n', os.environ.get('NW', '8'), '--dist', 'worksteal',
        '--timeout=700', '--continue-on-collection-errors', '--tb=short', '--disable-warnings',
        '-o', 'junit_family=xunit2', '--junitxml=' + xml], cwd)
    ok = set()
    for tc in ET.parse(xml).getroot().iter('testcase'):
        if not [c for c in tc if c.tag in ('failure', 'error', 'skipped')]:
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in stable if t not in ok]


def main(argv):
    opts = [a for a in argv if a.startswith('--')]
    for bug in [a for a in argv if not a.startswith('--')]:
        d = os.path.join(SEEDED, bug)
        prop = json.load(open(d + '/meta.json'))['property']
        root = tempfile.mkdtemp(prefix='seed_')
        res = {'bug': bug, 'property': prop}
        try:
            cwd = root + '/repo'
            shutil.copytree('/repo', cwd, symlinks=True)
            res['demo_clean'] = sh(['bash', d + '/demo.sh'], cwd, timeout=300)[0]
            rc, out = sh(['git', 'apply', d + '/patch.diff'], cwd)
            res['apply'] = rc
            rc, out = sh(['bash', d + '/demo.sh'], cwd, timeout=300)
            res['demo_bug'] = rc
            res['demo_out'] = out[-300:]
            if '--no-check' not in opts:
                env = dict(ENV, MC_REPO=cwd)
                ids = ['C%02d' % i for i in range(1, 25)] if '--all-checks' in opts else [prop]
                for i in ids:
                    t = time.time()
                    rc, out = sh([os.path.dirname(SEEDED) + '/bin/check', i], cwd, env=env)
                    res.setdefault('check', {})[i] = (rc, round(time.time() - t), [l for l in out.splitlines() if 'VIOLATION' in l][:1])
            if '--no-tests' not in opts:
                res['failed_stable'] = tests(cwd)
        finally:
            shutil.rmtree(root)
        print(json.dumps(res), flush=True)
        with open('/tmp/seed_results.jsonl', 'a') as f:
            f.write(json.dumps(res) + '\n')


main(sys.argv[1:])
