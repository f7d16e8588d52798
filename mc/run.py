import os
import sys

from mc.core import main

if __name__ == "__main__":
    try:
        rc = main(sys.argv[1], sys.argv[2])
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
