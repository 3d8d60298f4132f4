"""Writes MANIFEST.json from the properties and the check modules that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = {
 'C04': 'bounded exhaustive exploration of run histories and target faults (crash points) on the real loop against a reference loop',
 'C05': 'exhaustive enumeration of histories x candidate sets x rankings on the real loop against a reference choice rule',
 'C14': 'stateless exploration of the tree builder under a controlled random source (all choice sequences within bounds)',
 'C15': 'exhaustive enumeration of small trees and points; controlled worker pool exploring all completion orders',
 'C18': 'exhaustive exploration of call sequences (all ordered pairs and triples of public operations) against fresh-process baselines',
 'C25': 'exploration of thread schedules of the real code under a controlled scheduler: every switch point of every pair of operations with one switch, bounded schedules with two, and every position of a nested call in a callback',
 'C20': 'explicit-state model of the convergence mode, all dataset sequences to a depth replayed on the real object',
}
DEF = 'exhaustive enumeration of a bounded input/configuration/sequence space on the real code against an independent reference model'
NOTE = 'Every scenario within the bounds stated in the evidence file is executed on the real package and compared with a reference; nothing is claimed outside the bounds. Trusted: numpy/scipy linear algebra, the reference in mc/ref.py, floating-point tolerances stated in the module.'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'mc', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'bash /verif/check.sh {i} quick',
            thorough_cmd=f'bash /verif/check.sh {i} thorough', technique='model checking: ' + TECH.get(i, DEF),
            level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the checks drive the public interface and replace environment functions (random source, worker pool, target) from outside.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
