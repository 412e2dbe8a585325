#!/usr/bin/env python3
"""Builds and runs one check from /repo's current tree.

  run.py PROPERTY [quick|thorough]     run the check (exit 0: held, 1: VIOLATION line printed)
  run.py PROPERTY --replay FILE        run one saved case again
  run.py --build                       build everything (to warm the cache)
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
CXX = "clang++-18"
SAN = "-fsanitize=address,bounds,null,return,integer-divide-by-zero -fno-sanitize-recover=all"
TSAN = "-fsanitize=thread"
NOISE = " -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"  # calls checks/noise.h at basic blocks, loads and stores of the code under test
BASE = f"-stdlib=libc++ -fopenmp -w -fno-omit-frame-pointer {{SAN}} -include {HERE}/shims/compat.h -I{HERE}/shims"
MODULES = {"sys": ["basiclog", "basicsys"], "math": ["basiclog", "basicsys", "basicmath"],
           "img": ["basiclog", "basicsys", "basicmath", "basicimg"]}
CV = f"-isystem {REPO}/basic_thrid_libs/lib_opencv/341/include"
PRE = {"basiclog/helper": "pre_helper.h", "basicsys/sys_strcombine": "pre_sys_strcombine.h",
       "basicsys/sys_json": "pre_sys_json.h", "basicimg/img_draw_macos_impl": "pre_img_draw_macos_impl.h"}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def headers(mods):
    """one hash over every header (and included table) of the modules, the engine and the shims"""
    key = ",".join(mods)
    if key not in _hdr:
        files = []
        for m in mods:
            for d in ("include", "src"):
                for root, _, names in os.walk(f"{REPO}/{m}/{d}"):
                    files += [os.path.join(root, n) for n in names if not n.endswith(".cpp")]
        for d in ("shims", "engine", "checks"):
            for root, _, names in os.walk(f"{HERE}/{d}"):
                files += [os.path.join(root, n) for n in names if n.endswith(".h")]
        _hdr[key] = sha(*[x for f in sorted(files) for x in (f, read(f))])
    return _hdr[key]


def units(kind, base):
    mods = MODULES[kind]
    res = []
    for m in mods:
        inc = f"-I{REPO}/{m}/src/stdafx " + " ".join(f"-I{REPO}/{x}/include" for x in MODULES["img" if m == "basicimg" else "math" if m == "basicmath" else "sys"])
        if m == "basicsys" or m == "basiclog":
            inc = f"-I{REPO}/{m}/src/stdafx -I{REPO}/basiclog/include -I{REPO}/basicsys/include"
        hm = MODULES["img" if m == "basicimg" else "math" if m == "basicmath" else "sys"]
        for src in sorted(glob.glob(f"{REPO}/{m}/src/*.cpp")):
            name = os.path.splitext(os.path.basename(src))[0]
            x = ""
            if f"{m}/{name}" in PRE:
                x += f" -include {HERE}/shims/{PRE[f'{m}/{name}']}"
            if m == "basicsys" and name == "sys_path":
                x += " -DfileNames=filePaths"
            if m == "basicimg":
                x += f" -fms-extensions {CV}"
            res.append((src, f"{base} -std=c++11 -O1 -g1 {inc}{x}", hm))
    return res


def check_units(files, kind, base):
    mods = MODULES[kind]
    inc = " ".join(f"-I{REPO}/{m}/include" for m in mods) + f" -I{HERE}/engine -I{HERE}/checks"
    x = f" -fms-extensions {CV}" if kind == "img" else ""
    return [(f, f"{base} -std=c++17 -O1 -g1 {inc}{x}", mods) for f in files]


def weight(u):
    big = ("mt_mat_math_operation", "mt_pooling", "mt_mat.cpp", "/checks/", "engine.cpp", "fast_mser")
    for i, b in enumerate(big):
        if b in u[0]:
            return i
    return len(big)


def compile_units(us):
    os.makedirs(BUILD + "/obj", exist_ok=True)

    def one(u):
        src, flags, mods = u
        text = read(src)
        if src.startswith(HERE):  # a check may be made of other checks
            text += b"".join(read(f"{HERE}/checks/{n.decode()}") for n in re.findall(rb'^#include "(\w+\.cpp)"', text, re.M))
        obj = f"{BUILD}/obj/{os.path.basename(src)[:-4]}-{sha(src, text, flags, headers(mods))}.o"
        if not os.path.exists(obj):
            tmp = obj + f".{os.getpid()}.tmp"
            r = subprocess.run(f"{CXX} {flags} -c {src} -o {tmp}", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return None, f"{src}:\n{r.stdout[-6000:]}"
            os.replace(tmp, obj)
        return obj, None

    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        res = dict(zip([u[0] for u in us], ex.map(one, sorted(us, key=weight)))) if False else {}
        order = sorted(us, key=weight)
        for u, r in zip(order, ex.map(one, order)):
            res[u[0]] = r
    errs = [e for o, e in res.values() if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        return None
    return [res[u[0]][0] for u in us]


def check_files():
    """property id -> (source file, kind, sanitizer, further flags of the code under test)"""
    res = {}
    for f in sorted(glob.glob(f"{HERE}/checks/*.cpp")):
        text = read(f).decode()
        kind = re.search(r"^// modules: (\w+)", text, re.M)
        san = TSAN if re.search(r"^// sanitizer: thread", text, re.M) else SAN
        noise = NOISE if re.search(r"^// noise", text, re.M) else ""
        for pid in re.findall(r"^PROPERTY\((\w+),", text, re.M):
            res[pid] = (f, kind.group(1) if kind else "math", san, noise)
    return res


def build(pid):
    f, kind, san, noise = check_files()[pid]
    base = BASE.replace("{SAN}", san)
    files = [f, f"{HERE}/engine/engine.cpp"]
    if kind == "img":
        files.append(f"{HERE}/engine/cv_stub.cpp")
    objs = compile_units(check_units(files, kind, base) + units(kind, base + noise))
    if objs is None:
        return None
    exe = f"{BUILD}/bin-{os.path.splitext(os.path.basename(f))[0]}-{sha(*objs)}"
    if not os.path.exists(exe):
        for old in glob.glob(f"{BUILD}/bin-{os.path.splitext(os.path.basename(f))[0]}-*"):
            os.unlink(old)
        tmp = exe + f".{os.getpid()}.tmp"
        r = subprocess.run([CXX, "-stdlib=libc++", "-fopenmp"] + san.split() + ["-o", tmp] + objs + ["-lpthread", "-no-pie", "-Wl,--unresolved-symbols=ignore-in-object-files"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:] + "\n")
            return None
        os.replace(tmp, exe)
    return exe


def main():
    if sys.argv[1:] == ["--build"]:
        ok = all([build(p) for p in check_files()])
        return 0 if ok else 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    rest = sys.argv[2:]
    if rest and rest[0] == "--replay":
        replay = rest[1]
    elif rest:
        tier = rest[0]
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    env.setdefault("VERIF_SEED", "1")
    env.update({"OMP_WAIT_POLICY": "passive", "KMP_BLOCKTIME": "0", "OMP_NUM_THREADS": env.get("PBT_OMP", "3"), "TZ": "UTC", "LC_ALL": "C",
                "TSAN_OPTIONS": "ignore_noninstrumented_modules=1:exitcode=0", "OMP_TOOL_LIBRARIES": "/usr/lib/llvm-18/lib/libarcher.so"})
    t0 = time.time()
    exe = build(pid)
    if exe is None:
        sys.stderr.write("the check did not build\n")
        return 2
    sys.stderr.write(f"built in {time.time() - t0:.1f} s\n")
    if replay:
        return subprocess.run([exe, "replay", replay], env=env).returncode
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    for k in json.load(open(f"{HERE}/known-findings.json"))["findings"]:
        if k["property"] != pid or k.get("status") == "fixed":
            continue
        r = subprocess.run([exe, "probe", k["key"]], env=env)
        if r.returncode == 10:
            print(f"KNOWN-FINDING: property={pid} {k['key']}: {k['what']}", flush=True)
    r = subprocess.run([exe, "run", pid, f"{HERE}/evidence/{pid}.json", f"{HERE}/replays"], env=env)
    return r.returncode


sys.exit(main())
