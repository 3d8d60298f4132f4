#!/bin/bash
# Nothing to compile: the machinery is Python and explores /repo's working tree directly.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd / && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo')
import numpy, scipy, mc.core, mc.ref
print('ready')"
