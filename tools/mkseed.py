#!/usr/bin/env python3
"""Make one planted bug: edits a scratch copy of /repo, confirms that it builds, passes the tests, that the demonstration
passes without and fails with it, and writes /verif/seeded/<id>/.
usage: mkseed.py SPEC.py   (SPEC defines id, property, edits=[(file, old, new)], needs, breaks, demo=path or text, kind)"""
import json, os, re, shutil, subprocess, sys
R = "/tmp/w/rc"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def run(spec):
    id, prop = spec["id"], spec["property"]
    if not os.path.isdir(R):
        shutil.copytree("/repo", R, symlinks=True)
    sh(f"git -C {R} checkout -q -- . && git -C {R} pull -q /repo HEAD")
    d = f"/verif/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    here = "/verif/tools/demo"
    kind = spec.get("kind", "server")
    if kind in ("server", "lib", "conn", "poller"):
        shutil.copy(f"{here}/{'harness' if kind == 'server' else kind}.h", f"{d}/harness.h") if os.path.exists(
            f"{here}/{'harness' if kind == 'server' else kind}.h") else None
        shutil.copy(f"{here}/{kind}_demo.sh", f"{d}/demo.sh")
        open(f"{d}/demo.c", "w").write(spec["demo"])
    else:
        open(f"{d}/demo.sh", "w").write(spec["demo"])
    for n, t in spec.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    ok = True
    r = sh(f"ninja -C {R}/_build")
    r = sh(f"timeout 300 bash {d}/demo.sh", cwd=R)
    if r.returncode != 0:
        print(f"{id}: demo fails on the unchanged tree: {r.stdout[-1500:]}")
        ok = False
    for f, old, new in spec["edits"]:
        p = f"{R}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(f"{id}: {f}: text found {t.count(old)} times: {old[:80]!r}")
            ok = False
            continue
        open(p, "w").write(t.replace(old, new))
    diff = sh(f"git -C {R} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    r = sh(f"ninja -C {R}/_build")
    if r.returncode:
        print(f"{id}: does not build: {r.stdout[-1500:]}")
        ok = False
    elif "warning:" in r.stdout:
        print(f"{id}: note: build warns")
    r = sh(f"timeout 300 meson test -C {R}/_build --no-rebuild")
    if r.returncode:
        print(f"{id}: tests fail: {r.stdout[-800:]}")
        ok = False
    r = sh(f"timeout 300 bash {d}/demo.sh", cwd=R)
    if r.returncode in (0, 2):
        print(f"{id}: demo does not fail with the change (rc {r.returncode}): {r.stdout[-800:]}")
        ok = False
    else:
        print(f"{id}: demo with change -> rc {r.returncode}: {r.stdout[-200:].strip()}")
    sh(f"git -C {R} checkout -q -- .")
    if not ok:
        shutil.rmtree(d)
    print(f"{id}: {'kept' if ok else 'REJECTED'}")
    return ok


if __name__ == "__main__":
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for spec in g["SPECS"]:
            if os.environ.get("ONLY") and spec["id"].split("-")[0] not in os.environ["ONLY"].split(","):
                continue
            if len(sys.argv) == 2 or True:
                run(spec)
