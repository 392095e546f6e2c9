#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds /verif/seeded/<id>/ from a spec file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], SRCS=[...], DEMO="c++ text".
Checks in a scratch copy of /repo that the demo passes without and fails with the change. Prints OK or what went wrong."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = r'''#!/bin/bash
# builds the real sources (with the stand-in headers beside this file) and runs demo.cpp in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/inc" "$W/gen/wdt" "$W/run" && ln -s "$R" "$W/inc/wdt" && cp "$D/WdtConfig.h" "$W/gen/wdt/"
CC="clang++ -std=c++17 -w -O1 -g -fno-access-control -include vp_std.h -D_GNU_SOURCE -msse4.2 -mpclmul %(san)s -I$D/shim -I$W/gen -I$W/inc"
n=0; pids=()
for s in "$D/demo.cpp" "$D/rt.cpp" "$D/shim/folly_shim.cpp" %(srcs)s; do
  n=$((n+1)); $CC -c "$s" -o "$W/$n.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || exit 4; done
$CC -o "$W/demo" "$W"/*.o -lcrypto -lpthread -lboost_filesystem -lboost_system || exit 5
cd "$W/run" && timeout 120 "$W/demo"
'''

RT = r'''#include <cstdio>
#include <cstdlib>
#include <stdexcept>
extern "C" void vp_check_failed(const char* what, const char* file, int line) { printf("CHECK failed: %s %s:%d\n", what, file, line); fflush(stdout); abort(); }
extern "C" void vp_throw_out_of_range(const char* what) { throw std::out_of_range("range"); }
'''


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = V + "/seeded/" + ns["ID"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (REPO, t), shell=True, check=True)
        subprocess.run("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % t, shell=True, check=True)
        for f, old, new in ns["EDITS"]:
            s = open(t + "/" + f).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches of %r in %s" % (ns["ID"], s.count(old), old, f))
            open(t + "/" + f, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        shutil.copytree(V + "/shim", d + "/shim")
        from_b = __import__("importlib.util").util
        sys.path.insert(0, V + "/engine")
        from build import Build
        w = tempfile.mkdtemp(prefix="seedb_")
        Build(w)
        shutil.copy(w + "/gen/wdt/WdtConfig.h", d + "/WdtConfig.h")
        shutil.rmtree(w)
        srcs = ns["SRCS"]
        open(d + "/demo.cpp", "w").write(ns["DEMO"])
        open(d + "/rt.cpp", "w").write(RT)
        open(d + "/demo.sh", "w").write(SH % dict(srcs=" ".join('"$R/%s"' % s for s in srcs), san=ns.get("SAN", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        bad = subprocess.run(["bash", d + "/demo.sh"], cwd=t, capture_output=True, text=True)
        subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."])
        good = subprocess.run(["bash", d + "/demo.sh"], cwd=t, capture_output=True, text=True)
        ok = good.returncode == 0 and bad.returncode not in (0, 3, 4, 5)
        print(ns["ID"], "OK" if ok else "BAD", "unchanged=%d changed=%d" % (good.returncode, bad.returncode))
        if not ok:
            print("--- unchanged:", (good.stdout + good.stderr)[-600:], "\n--- changed:", (bad.stdout + bad.stderr)[-600:])
            sys.exit(1)
    finally:
        shutil.rmtree(t, ignore_errors=True)


main()
