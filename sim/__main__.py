import os
import sys
import traceback

from sim import engine

try:
    rc = engine.main()
except Exception:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.stderr.flush()
if rc or engine.STOPPED:
    os._exit(rc)  # (the workers were stopped: nothing to wait for)
sys.exit(rc)
