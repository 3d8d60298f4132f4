"""Writes mc/refusals.json: the malformed requests that the package documents as refused (an explicit
AssertionError, or the ValueError of the hyperparameter and kernel-name checks), as of the tree it is run on.
Run by hand only; no check runs it.  usage: gen_refusals.py (with PYTHONPATH=/repo:/verif)"""
import json
import os

import numpy as np

from mc.props import _ops as O
from mc.props._corrupt import requests

out, n, other = {}, 0, {}
for name, k, kind, bad in requests():
    a = O.OPS[name].args(0)
    a[k] = bad
    O.CALLS[0] = 0
    np.random.seed(1)
    try:
        O.OPS[name].fn(**a)
        st = 'accepted'
    except AssertionError:
        st = 'refused'
    except ValueError as e:
        st = 'refused' if 'hyps' in str(e) or k == 'str_cov' else 'ValueError'
    except Exception as e:
        st = type(e).__name__
    if st == 'refused':
        if name.startswith(('run.', 'thompson.run')) and O.CALLS[0]:
            st = f'refused after {O.CALLS[0]} evaluations'
        else:
            out.setdefault(name, {}).setdefault(k, []).append(kind)
            n += 1
    if st != 'refused':
        other.setdefault(st, []).append((name, k, kind))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mc', 'refusals.json'), 'w') as f:
    json.dump(out, f, indent=0, sort_keys=True)
print(n, {k: len(v) for k, v in other.items()}, {k: v[:6] for k, v in other.items() if 'after' in k})
