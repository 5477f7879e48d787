"""Write and confirm planted bugs: python3 spec/plant.py SPEC.py [--no-tests] [--no-check] [--keep-failing]

SPEC.py defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo)] (file/old/new may be lists: edits=[(file, old, new)]).
For each: makes a scratch copy of /repo, applies the edit, checks that demo.py passes before and fails after, runs the stable tests
in the copy, writes seeded/<id>/, and then runs the property's check against /repo with the patch applied (undone straight after).
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd /repo
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$W/numba" PYTHONPYCACHEPREFIX="$W/pyc" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SCRATCH="$W"
/opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def plant(b, tests=True, check=True):
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    cp = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", cp, symlinks=True)
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        d = os.path.join(tmp, "d")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(b["demo"]).strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = sh("bash %s/demo.sh" % d, cwd=cp, timeout=300)
        if rc != 0:
            return "demo fails on the unchanged tree: " + out[-1500:]
        for f, old, new in edits:
            p = os.path.join(cp, f)
            s = open(p).read()
            if "nth" in b:
                k = s.split(old)
                open(p, "w").write(old.join(k[:b["nth"] + 1]) + new + old.join(k[b["nth"] + 1:]))
                continue
            if s.count(old) != b.get("count", 1):
                return "edit does not apply to %s: %d matches of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", cwd=cp)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rc, out = sh("bash %s/demo.sh" % d, cwd=cp, timeout=300)
        if rc == 0:
            return "demo passes with the change"
        why = out.strip().splitlines()[-1:] or [""]
        if tests:
            env = dict(os.environ, PYTHONPATH=cp, NUMBA_CACHE_DIR=tmp + "/nb", PYTHONPYCACHEPREFIX=tmp + "/pyc", PYTHONDONTWRITEBYTECODE="1",
                       PYTHONHASHSEED="0")
            rc, out = sh(PY + " -m pytest -q -x -p no:cacheprovider --timeout=300 --randomly-seed=1 --randomly-dont-reorganize tests", cwd=cp, env=env)
            if rc != 0:
                return "tests notice the change: " + out[-600:]
        dst = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        msg = "kept (%s)" % why[0][:120]
        if check:
            msg += " | " + run_check(b["id"], b["property"])
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_check(bid, prop, cp=None):
    """The property's quick check on a scratch copy of /repo with the change."""
    p = os.path.join(HERE, "seeded", bid, "patch.diff")
    tmp = tempfile.mkdtemp(prefix="plchk_", dir="/tmp")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        rc, out = sh("git apply %s" % p, cwd=tmp + "/repo")
        if rc:
            return "patch does not apply: " + out
        t = time.time()
        rc, out = sh("VERIF_SEED=1 VERIF_REPO=%s/repo timeout 1800 python3-vt check.py %s --tier quick" % (tmp, prop), cwd=HERE, timeout=2000)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION") or l.startswith("  ") or l.startswith("UNDECIDED")]
    return "%s %.0f s %s" % ("CAUGHT" if rc == 1 and any(l.startswith("VIOLATION property=%s " % prop) for l in v) else "MISSED rc=%d" % rc,
                             time.time() - t, "\n      ".join(x[:220] for x in v[:3]))


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        for i in a[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
            m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
            print(i, run_check(i, m["property"]), flush=True)
        sys.exit()
    ns = {}
    exec(open(a[0]).read(), ns)
    only = [x for x in a[1:] if not x.startswith("--")]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        print(b["id"], plant(b, "--no-tests" not in a, "--no-check" not in a), flush=True)
