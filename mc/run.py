import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import core  # noqa: E402

PY = core.python()
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != os.path.dirname(os.path.dirname(PY)):
    if os.environ.get("HPMC_REEXEC") != "1":
        os.environ["HPMC_REEXEC"] = "1"
        os.execv(PY, [PY] + sys.argv)

if __name__ == "__main__":
    if sys.argv[1] == "--shard":
        _, _, pid, tier, seed, i, n, cap, out = sys.argv
        core.shard_main(pid, tier, int(seed), int(i), int(n), float(cap), out)
        sys.stdout.flush()
        os._exit(0)
    try:
        status = core.main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        status = 2  # no answer
    sys.exit(status)
