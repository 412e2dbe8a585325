#!/usr/bin/env python3
"""plant.py NAME...: checks planted bugs: builds, tests and demo with and without the patch, then the property's check.
plant.py --check NAME...: only the check. /repo must be clean; the patch is undone straight afterwards."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def stable():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        return False, r.stdout[-1500:]
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    d = json.load(open("/tmp/plant.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = None
    for v in base.values():
        if isinstance(v, list) and v and isinstance(v[0], str):
            names = v if names is None or len(v) > len(names) else names
    missing = [n for n in names if n not in d["passed"]]
    return not missing, str(missing)


def demo(name):
    t = tempfile.mkdtemp(prefix="demo_")
    for f in os.listdir(f"{HERE}/seeded/{name}"):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(f"{HERE}/seeded/{name}/{f}", t)
    r = sh(f"bash {t}/demo.sh", cwd="/repo", timeout=300)
    shutil.rmtree(t)
    return r


only = sys.argv[1] == "--check"
for name in sys.argv[2 if only else 1:]:
    d = f"{HERE}/seeded/{name}"
    meta = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(), "repo is not clean"
    if not only:
        sh("bash /opt/vp/build.sh")
        r = demo(name)
        if r.returncode:
            print(f"{name}: demo fails on the unchanged tree\n{r.stdout[-1500:]}")
            continue
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        print(f"{name}: patch does not apply {r.stdout}")
        continue
    try:
        note = ""
        if not only:
            ok, what = stable()
            if not ok:
                print(f"{name}: build or tests fail with the patch: {what}")
                continue
            r = demo(name)
            if r.returncode == 0:
                print(f"{name}: demo passes with the patch")
                continue
        r = sh(f"python3 run.py {meta['property']} quick", cwd=HERE)
        hit = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
        last = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "cases," in l]
        print(f"{name}: {'caught' if hit else 'MISSED'} by {meta['property']} ({last[-1][:150] if last else r.stdout[-300:]})", flush=True)
    finally:
        sh("git -C /repo checkout -- .")
        if not only:
            sh("bash /opt/vp/build.sh")
