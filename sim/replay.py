"""replay.py FILE - replay a recorded violation in a fresh process; exit 1 if it is reproduced, 0 if the property holds."""
import os
import sys

sys.dont_write_bytecode = True
sys.stdout.reconfigure(errors="backslashreplace")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import js  # noqa: E402

if __name__ == "__main__":
    path = os.path.abspath(sys.argv[1])
    rec = js.read(path)
    check = core.load_check(rec["property"])
    check.start()
    p = core.spawn(rec["property"], [path], rec.get("hashseed", "0"), check.env, module="replay")
    out, _ = p.communicate()
    check.stop()
    sys.stdout.write(out.decode("utf-8", "replace"))
    sys.exit(p.returncode)
