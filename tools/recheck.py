"""Run each planted bug's property check (or all checks: --all) against a scratch clone with the bug.
python recheck.py [id...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
for i in ids:
    d = f'{V}/seeded/{i}'; p = json.load(open(d + '/meta.json'))['property']
    wt = f'/tmp/w/wt/{i}'; shutil.rmtree(wt, ignore_errors=True); os.makedirs('/tmp/w/wt', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=wt)
    if r.returncode:
        print(i, 'DOES NOT APPLY'); continue
    props = [p] if '--all' not in sys.argv else sorted(json.loads(l)['id'] for l in open(V + '/properties.jsonl'))
    res = []
    for q in props:
        t = time.time()
        o = subprocess.run([V + '/check.sh', q, tier], env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = o.returncode == 1 and any(l.startswith('VIOLATION property=' + q) for l in o.stdout.splitlines())
        res.append(f'{q}:{"CAUGHT" if hit else "missed rc=%d" % o.returncode}({time.time()-t:.0f}s)')
    print(i, p, ' '.join(x for x in res if '--all' not in sys.argv or 'CAUGHT' in x), flush=True)
    shutil.rmtree(wt, ignore_errors=True)
