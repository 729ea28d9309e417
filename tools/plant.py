"""plant.py [ID...] - build seeded/<ID>/ from tools/bugs.py and confirm it: applies, tests pass, demo 0/non-0.

Works in a scratch copy under /tmp; never touches /repo.
"""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

ROOT = "/tmp/plant-work"
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
exec timeout 250 /opt/venv/bin/python -B -X pycache_prefix=/nonexistent "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)


'''


def tests(tree):
    out = os.path.join(ROOT, "junit.xml")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=os.path.join(tree, "src"), LANG="C.UTF-8")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + out], cwd=tree, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    bad = []
    n = 0
    for tc in ET.parse(out).getroot().iter("testcase"):
        if any(c.tag in ("failure", "error") for c in tc):
            bad.append((tc.get("classname"), tc.get("name")))
        else:
            n += 1
    return n, bad


def main(ids):
    tree = ROOT + "/repo"
    shutil.rmtree("/tmp/plant-work", ignore_errors=True)
    os.makedirs(ROOT)
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
    n0, bad0 = tests(tree)
    print("clean:", n0, "pass", len(bad0), "fail")
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        for path, old, new in b["edits"]:
            p = os.path.join(tree, path)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(b["id"], "EDIT does not apply once:", s.count(old), repr(old[:80]))
                break
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        else:
            d = "/verif/seeded/" + b["id"]
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True, check=True).stdout
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            n, bad = tests(tree)
            new = [x for x in bad if x not in bad0]
            r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=tree, capture_output=True, text=True)
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
            r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=tree, capture_output=True, text=True)
            ok = not new and n == n0 and r1.returncode != 0 and r0.returncode == 0
            print(b["id"], "OK" if ok else "REJECT", "tests broken:", new[:3], len(new), "| demo patched", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip().replace("\n", " / "), "| clean", r0.returncode, "" if r0.returncode == 0 else (r0.stdout + r0.stderr)[-300:], flush=True)
            if not ok:
                shutil.rmtree(d)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
    shutil.rmtree("/tmp/plant-work", ignore_errors=True)


main(sys.argv[1:])
