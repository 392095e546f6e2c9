"""Builds LLVM IR (for the proof) and native objects (for replay) from /repo's working tree."""
import hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CXX = ["clang++", "-std=c++17", "-w", "-fno-access-control", "-include", "vp_std.h", "-D_GNU_SOURCE", "-msse4.2", "-mpclmul"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], (p.stderr or p.stdout)[:4000]))
    return p.stdout


class Build:
    def __init__(self, work):
        self.w = work
        os.makedirs(work + "/gen/wdt", exist_ok=True)
        os.makedirs(work + "/inc", exist_ok=True)
        if not os.path.islink(work + "/inc/wdt"):
            os.symlink(REPO, work + "/inc/wdt")
        self.config()
        self.inc = ["-I" + V + "/shim", "-I" + V + "/spec", "-I" + work + "/gen", "-I" + work + "/inc"]

    def config(self):
        cm = open(REPO + "/CMakeLists.txt").read()
        m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", cm, re.S)
        ver = m.group(1) if m else "1.32.0"
        p = ver.split(".") + ["0", "0", "0"]
        t = open(REPO + "/WdtConfig.h.in").read()
        vals = {"WDT_VERSION": ver, "WDT_VERSION_STR": ver, "WDT_VERSION_MAJOR": p[0], "WDT_VERSION_MINOR": p[1], "WDT_VERSION_BUILD": p[2], "WDT_VERSION_PATCH": p[2],
                "WDT_PROTOCOL_VERSION": p[1], "PROJECT_VERSION": ver, "PROJECT_VERSION_MAJOR": p[0], "PROJECT_VERSION_MINOR": p[1], "PROJECT_VERSION_PATCH": p[2]}
        out = []
        on = {"HAS_POSIX_FALLOCATE", "HAS_SYNC_FILE_RANGE", "HAS_POSIX_MEMALIGN", "HAS_POSIX_FADVISE", "WDT_HAS_SOCKIOS_H"}
        for ln in t.split("\n"):
            m = re.match(r"#cmakedefine(01)?\s+(\w+)(.*)", ln)
            if m:
                k = m.group(2)
                v = vals.get(k)
                if v is not None:
                    rest = re.sub(r"[@$]\{?(\w+)[@}]", lambda x: vals.get(x.group(1), ""), m.group(3))
                    ln = "#define %s%s" % (k, rest)
                elif k in on:
                    ln = "#define %s 1" % k
                else:
                    ln = "/* #undef %s */" % k
            else:
                ln = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda x: vals.get(x.group(1) or x.group(2), ""), ln)
            out.append(ln)
        txt = "\n".join(out)
        f = self.w + "/gen/wdt/WdtConfig.h"
        if not os.path.exists(f) or open(f).read() != txt:
            open(f, "w").write(txt)

    def irdump(self):
        src = V + "/engine/irdump.cpp"
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
        for d in (V + "/build", self.w):
            if os.path.exists("%s/irdump.%s" % (d, h)):
                return "%s/irdump.%s" % (d, h)
        d = V + "/build"
        try:
            os.makedirs(d, exist_ok=True)
        except OSError:
            d = self.w
        fl = sh(["llvm-config-18", "--cxxflags"]).split()
        fl = [x for x in fl if not x.startswith("-std=") and x != "-fno-exceptions"]
        out = "%s/irdump.%s" % (d, h)
        sh(["clang++", "-std=c++17", "-O1", "-fno-rtti"] + fl + [src, "-o", out + ".tmp%d" % os.getpid(), "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(out + ".tmp%d" % os.getpid(), out)
        return out

    def bc(self, src):
        out = "%s/%s.bc" % (self.w, re.sub(r"\W", "_", src))
        sh(CXX + ["-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-gline-tables-only", "-DVP_PROOF", "-c", "-emit-llvm", src, "-o", out] + self.inc)
        return out

    def obj(self, src, asan=True):
        out = "%s/%s.o" % (self.w, re.sub(r"\W", "_", src))
        sh(CXX + ["-O1", "-g1", "-c", src, "-o", out] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []) + self.inc)
        return out

    def module(self, name, srcs, roots):
        """-> json path"""
        srcs = [s if s.startswith("/") else REPO + "/" + s for s in srcs]
        with ThreadPoolExecutor(8) as p:
            f = p.submit(self.irdump)
            bcs = list(p.map(self.bc, srcs))
            tool = f.result()
        b = self.w + "/" + name + ".bc"
        sh(["llvm-link"] + bcs + ["-o", b])
        sh(["opt", "-passes=function(sroa,simplifycfg,loop-simplify)", b, "-o", b + ".o"])
        j = self.w + "/" + name + ".json"
        sh([tool, b + ".o", j] + roots)
        return j

    def native(self, name, srcs, asan=True):
        srcs = [s if s.startswith("/") else REPO + "/" + s for s in srcs]
        srcs = srcs + [V + "/native/vp_rt.cpp", V + "/shim/folly_shim.cpp"]
        with ThreadPoolExecutor(8) as p:
            objs = list(p.map(lambda s: self.obj(s, asan), srcs))
        # environment models: vp_env_X stands for X in the code under proof
        env = set()
        for o in objs:
            env |= set(re.findall(r" [TW] vp_env_(\w+)$", sh(["nm", o]), re.M))
        if env:
            red = self.w + "/" + name + ".redef"
            open(red, "w").write("".join("%s vp_env_%s\n" % (x, x) for x in sorted(env)))
            for o in objs:
                if not o.endswith("vp_rt_cpp.o") and not o.endswith("folly_shim_cpp.o"):
                    sh(["objcopy", "--redefine-syms=" + red, o, o + "." + name])
                else:
                    shutil.copy(o, o + "." + name)
            objs = [o + "." + name for o in objs]
        out = self.w + "/" + name + ".bin"
        sh(["clang++", "-rdynamic", "-o", out] + objs + (["-fsanitize=address"] if asan else []) + ["-lcrypto", "-lpthread", "-lboost_filesystem", "-lboost_system", "-ldl"])
        return out


if __name__ == "__main__":
    b = Build(sys.argv[1])
    print(b.module(sys.argv[2], sys.argv[3].split(","), sys.argv[4].split(",")))
