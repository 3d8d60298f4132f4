import os
import sys

from mc import core

if __name__ == '__main__':
    try:
        rc = core.main(sys.argv[1:])
    except KeyboardInterrupt:
        rc = 130
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
