"""run.py PROPERTY - run one check (VERIF_SEED, VERIF_TIER); exit 0 held, 1 violated."""
import os
import sys

sys.dont_write_bytecode = True
sys.stdout.reconfigure(errors="backslashreplace")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1]))
