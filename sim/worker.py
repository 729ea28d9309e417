"""Entry point of the worker processes (search, minimise, replay)."""
import os
import sys

sys.dont_write_bytecode = True
sys.stdout.reconfigure(errors="backslashreplace")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

if __name__ == "__main__":
    mode = sys.argv[1]
    if mode == "worker":
        core.worker_main(sys.argv[2:])
    elif mode == "minimise":
        sys.exit(core.minimise_main(*sys.argv[2:]))
    elif mode == "replay":
        sys.exit(core.replay_main(*sys.argv[2:]))
