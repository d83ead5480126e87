#!/usr/bin/env python3
"""Confirm a planted bug and keep it under seeded/.

plant.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text,
run with cwd = the tree; must exit non-zero on the changed tree and zero on the unchanged one).
Works in a scratch copy of /repo; writes seeded/<ID>/ only when tests pass and the demo discriminates."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")


def tests(d):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-n", "8", "-p", "no:cacheprovider", "-W", "ignore", "asn1PERser",
                        "--deselect", BASEFAIL], cwd=d, env=ENV, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-600:]


BASEFAIL = "asn1PERser/test/per/decoder/test_per_decode_sequence_of.py::test_no_constrains_sequence_of_integer_can_be_decoded[schema0-00-value0]"


def main(spec):
    s = runpy.run_path(spec)
    d = tempfile.mkdtemp(prefix="plant_")
    try:
        t = os.path.join(d, "r")
        subprocess.check_call(["git", "clone", "-q", "/repo", t])
        out = os.path.join(d, s["ID"])
        os.mkdir(out)
        open(os.path.join(out, "demo.py"), "w").write(s["DEMO"])
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)

        def demo():
            return subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=t, env=ENV, capture_output=True, text=True)
        r = demo()
        if r.returncode:
            print(s["ID"], "demo fails on the unchanged tree:", r.stdout[-500:], r.stderr[-1500:]); return 1
        for f, old, new in s["EDITS"]:
            p = os.path.join(t, f)
            x = open(p).read()
            if x.count(old) != 1:
                print(s["ID"], "edit matches %d times in %s: %r" % (x.count(old), f, old[:80])); return 1
            open(p, "w").write(x.replace(old, new))
        r = demo()
        if r.returncode == 0:
            print(s["ID"], "demo passes with the change"); return 1
        ok, txt = tests(t)
        if not ok:
            # the one test that fails at the base as well
            fails = [l for l in txt.splitlines() if l.startswith("FAILED")]
            print(s["ID"], "tests fail:", txt); return 1
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=t, capture_output=True, text=True).stdout.strip()
        for f, old, new in s["EDITS"]:
            x = subprocess.run(["git", "show", base + ":" + f], cwd=t, capture_output=True, text=True).stdout
            d2 = subprocess.run(["git", "diff", "-U0", "--", f], cwd=t, capture_output=True, text=True).stdout
            gone = [l[1:] for l in d2.splitlines() if l.startswith("-") and not l.startswith("---")]
            if gone and not any(l.strip() and l in x.splitlines() for l in gone):
                print(s["ID"], "changes no original line", gone); return 1
        diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        dst = os.path.join(HERE, "seeded", s["ID"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(s["ID"], "kept; demo says:", (r.stderr or r.stdout).strip().splitlines()[-1][:200])
        return 0
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    sys.exit(max(main(x) for x in sys.argv[1:]))
