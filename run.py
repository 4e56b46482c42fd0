"""Entry point: run.py <property> [--replay FILE]."""

import faulthandler
import os
import sys
import traceback

if __name__ == "__main__":
    faulthandler.dump_traceback_later(880, exit=True)
    try:
        from vm.engine import main

        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
