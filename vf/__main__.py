import sys, traceback
from . import harness, build

a = sys.argv[1:]
if a and a[0] == "replay":
    sys.exit(harness.replay(a[1]))
if a and a[0] == "setup":
    build.circom()
    sys.exit(0)
try:
    rc = harness.main(a[0], a[1] if len(a) > 1 else "quick")
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
