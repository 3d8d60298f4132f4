"""Plant bugs: python plant.py BUGFILE [id...] [--no-tests]

BUGFILE defines BUGS, a list of dicts with id, property, edits [(file, old, new)],
demo (python source), needs, breaks.  Each bug is made in a scratch worktree,
its demonstration run with and without the change, the repository's tests run
with it, and the property's quick check run against it.  A bug that stands is
written to /verif/seeded/<id>/ (whether or not the check catches it)."""
import json, os, shutil, subprocess, sys, time, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
DEMO = '''#!/bin/bash
# run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>/dev/null
'''
def sh(cmd, cwd, env=ENV, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    spec = importlib.util.spec_from_file_location('bugs', args[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(args) > 1 and b['id'] not in args[1:]:
            continue
        wt = '/tmp/w/wt/' + b['id']
        shutil.rmtree(wt, ignore_errors=True); os.makedirs('/tmp/w/wt', exist_ok=True)
        sh(f'git clone -q /repo {wt}', '/')
        for f, old, new in b['edits']:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), f, old[:60]); break
            open(p, 'w').write(s.replace(old, new))
        else:
            _, diff = sh('git diff', wt)
            d = '/tmp/w/seed/' + b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            r0, _ = sh(f'bash {d}/demo.sh', '/repo'); r1, o1 = sh(f'bash {d}/demo.sh', wt)
            if r0 != 0 or r1 == 0:
                print(b['id'], 'DEMO clean', r0, 'patched', r1); continue
            if '--no-tests' not in sys.argv:
                rt, ot = sh('PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 --benchmark-disable tests/common tests/time 2>/dev/null | tail -15; rm -rf outcmaes', wt)
                fails = [l for l in ot.splitlines() if l.startswith(('FAILED', 'ERROR'))]
                if fails or 'passed' not in ot:
                    print(b['id'], 'TESTS', fails[:3], ot[-200:]); continue
            dst = os.path.join(V, 'seeded', b['id']); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
            t = time.time()
            rc, out = sh(f'./check.sh {b["property"]} quick', V, dict(ENV, VERIF_REPO=wt))
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            print(b['id'], b['property'], 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc, '%.0fs' % (time.time() - t), flush=True)
            if rc not in (0, 1): print(out[-800:])
        shutil.rmtree(wt, ignore_errors=True)
main()
