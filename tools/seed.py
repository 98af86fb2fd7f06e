#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec file: python3 seed.py spec.py [ids...]
spec.py calls bug(id, prop, edits=[(file, old, new)...], demo="C++ body of int main", needs, breaks, includes="", flags="")."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
B = []


def bug(id, prop, edits, demo, needs, breaks, pre="", inc='#include "image_operations.h"', flags="-O1"):
    B.append((id, prop, edits, demo, needs, breaks, pre, inc, flags))


exec(open(sys.argv[1]).read())
for id, prop, edits, demo, needs, breaks, pre, inc, flags in B:
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        continue
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.run(["git", "-C", R, "worktree", "prune"])
    subprocess.run(f"git -C {R} archive HEAD | tar x -C {t}", shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=t, check=True)
    for f, old, new, *nth in edits:
        s = open(f"{t}/{f}", newline="").read()
        if "\r\n" in s:
            old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
        n = s.count(old)
        if not nth and n != 1 or nth and nth[0] >= n:
            print(id, f, "matches", n); sys.exit(1)
        i = -1
        for _ in range((nth[0] if nth else 0) + 1):
            i = s.index(old, i + 1)
        open(f"{t}/{f}", "w", newline="").write(s[:i] + new + s[i + len(old):])
    diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True).stdout
    open(f"{d}/patch.diff", "wb").write(diff)
    open(f"{d}/demo.cpp", "w").write(f"""{inc}
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <iostream>
template<class T> static TinyDIP::Image<T> mk(const std::vector<T>& v, std::size_t w, std::size_t h) {{ return TinyDIP::Image<T>(v, w, h); }}
{pre}
#define CHECK(c) do {{ if (!(c)) {{ std::fprintf(stderr, "FAILED line %d: %s\\n", __LINE__, #c); return 1; }} }} while (0)
int main()
{{
{demo}
return 0;
}}
""")
    open(f"{d}/demo.sh", "w").write(f"""#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
g++-14 -std=gnu++23 -fopenmp {flags} -w -iquote "$repo" "$here/demo.cpp" "$repo/image_io.cpp" -ltbb -o "$work/demo"
cd "$work"
timeout 120 ./demo
""")
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", f"{d}/demo.sh"], cwd=R, capture_output=True, text=True)
    b = subprocess.run(["bash", f"{d}/demo.sh"], cwd=t, capture_output=True, text=True)
    ok = a.returncode == 0 and b.returncode != 0 and "error" not in b.stderr
    print(id, "OK" if ok else "BAD", a.returncode, b.returncode, (a.stderr + b.stderr)[-300:].strip())
    shutil.rmtree(t)
