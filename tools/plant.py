"""Development tool: build seeded/<id> from a bug description and see what catches it.

usage: plant.py [--checks C01,C02] [--notests] bugfile.py ...     (PROP, EDITS, NEEDS, BREAKS, DEMO)
Works on scratch copies of /repo; never touches /repo itself.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LD_LIBRARY_PATH='/opt/venv/lib', JAX_PLATFORMS='cpu',
           MKL_NUM_THREADS='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mpl')
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 LD_LIBRARY_PATH=/opt/venv/lib JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONPATH=$PWD
export MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLCONFIGDIR=/opt/vp/mpl
exec /opt/venv/bin/python "$here/demo.py"
'''


def one(path, tests, checks):
    b = runpy.run_path(path)
    bid = os.path.basename(path)[:-3]
    out = [f'== {bid} ({b["PROP"]})']
    w = tempfile.mkdtemp(prefix='plant_')
    try:
        r = os.path.join(w, 'repo')
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'], check=True)
        for f, old, new in b['EDITS']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                out.append(f'   EDIT does not match once in {f}: {s.count(old)}')
                return '\n'.join(out)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
        base = subprocess.run(['git', '-C', r, 'diff', '26d4834', '--stat'], capture_output=True, text=True).stdout
        d = os.path.join(VERIF, 'seeded', bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(d, 'demo.py'), 'w').write(b['DEMO'])
        json.dump({'property': b['PROP'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        good = True
        rc0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        rc1 = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        out.append(f'   demo: clean {rc0.returncode} patched {rc1.returncode}' + ('' if rc0.returncode == 0 else rc0.stderr[-600:]) + ' | ' + (rc1.stderr.strip().split('\n')[-1][:200]))
        good = rc0.returncode == 0 and rc1.returncode != 0
        if tests:
            x = os.path.join(w, 'junit.xml')
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                                '--continue-on-collection-errors', '-o', 'junit_family=xunit2', f'--junitxml={x}', 'tests'],
                               cwd=r, env=dict(ENV, PYTHONPATH=r), capture_output=True, text=True)
            o = os.path.join(w, 'o.json')
            subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + x], env=ENV, capture_output=True)
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            res = json.load(open(o))
            miss = [s for s in st if s not in set(res.get('passed', []))]
            out.append(f'   tests: missing {miss[:4]} ({t.stdout.strip().splitlines()[-1]})')
            good = good and not miss
        for c in checks or [b['PROP']]:
            ev = os.path.join(w, 'verif')
            if not os.path.exists(ev):
                shutil.copytree(VERIF, ev, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
            k = subprocess.run(['bash', ev + '/bin/check', c, os.environ.get('TIER', 'quick')], cwd=ev, env=dict(ENV, VERIF_REPO=r, VERIF_SEED='1'), capture_output=True, text=True)
            out.append(f'   {c}: rc {k.returncode} ' + ' / '.join(x.strip()[:230] for x in k.stdout.split('\n') if 'clause' in x or 'VIOL' in x or 'MACH' in x)[:900] + ('' if k.returncode in (0, 1) else k.stderr[-500:]))
        out.append('   GOOD' if good else '   NOT GOOD')
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return '\n'.join(out)


if __name__ == '__main__':
    a = sys.argv[1:]
    tests, checks, files, skip = True, None, [], False
    for i, x in enumerate(a):
        if skip:
            skip = False
        elif x == '--notests':
            tests = False
        elif x == '--checks':
            checks, skip = a[i + 1].split(','), True
        else:
            files.append(x)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for s in ex.map(lambda f: one(f, tests, checks), files):
            print(s, flush=True)
