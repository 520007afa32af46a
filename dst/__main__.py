import os
import sys

from . import runner

if __name__ == "__main__":
    if len(sys.argv) != 3 or sys.argv[1] != "check":
        print("usage: python -m dst check <property>")
        sys.exit(2)
    try:
        code = runner.check(sys.argv[2])
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
