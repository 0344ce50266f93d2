"""cov.py OUT C01 [args]: run one check and record which source lines of pyuvdata it executed.
Used to find code no monitor reaches; never part of a check."""
import json, os, sys, threading
out = sys.argv[1]
sys.argv = ["vmon.main"] + sys.argv[2:]
src = os.path.realpath(os.environ.get("VMON_SRC", "/repo/src"))
hit = {}
M = sys.monitoring
M.use_tool_id(3, "vcov")
def line(code, n):
    f = code.co_filename
    if f.startswith(src):
        hit.setdefault(f, set()).add(n)
    return M.DISABLE
M.register_callback(3, M.events.LINE, line)
M.set_events(3, M.events.LINE)
from vmon import core, main
real = core._worker
def worker(*a, **k):
    try:
        return real(*a, **k)
    finally:
        with open(f"{out}.{os.getpid()}", "w") as f:
            json.dump({k[len(src) + 1:]: sorted(v) for k, v in hit.items()}, f)
core._worker = worker
main.main()
