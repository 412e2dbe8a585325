#!/usr/bin/env python3
"""newbug.py NAME PROPERTY NEEDS BREAKS: takes /repo's working tree diff as the patch of seeded/NAME, demo.cpp from stdin, and undoes the change."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, prop, needs, breaks = sys.argv[1:5]
d = f"{HERE}/seeded/{name}"
os.makedirs(d, exist_ok=True)
p = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
assert p.strip(), "no change"
open(d + "/patch.diff", "wb").write(p)
subprocess.run("git -C /repo checkout -- .", shell=True)
open(d + "/demo.cpp", "w").write(sys.stdin.read())
shutil.copy(f"{HERE}/shims/compat.h", d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Compiles demo.cpp against the libraries built from /repo and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
inc=""
for m in basiclog basicsys basicmath basicimg; do inc="$inc -I$PWD/$m/include"; done
clang++-18 -std=c++11 -stdlib=libc++ -fopenmp -O0 -g -w -fms-extensions -include "$here/compat.h" $inc \\
	-isystem "$PWD/basic_thrid_libs/lib_opencv/341/include" "$here/demo.cpp" -o "$work/demo" \\
	-Wl,--start-group _build/libbasicimg.a _build/libbasicmath.a _build/libbasicsys.a _build/libbasiclog.a -Wl,--end-group \\
	-Wl,--unresolved-symbols=ignore-all -no-pie -lpthread
cd "$work"
timeout 60 ./demo
''')
