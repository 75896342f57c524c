#!/usr/bin/env python3
"""Builds arc80/plywood modules from /repo's working tree, and the harnesses that use them.

Everything lands in /verif/build. Objects are reused only when the command line and
the contents of every file the compiler read are the same as when they were made."""
import hashlib, json, os, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLY_REPO", "/repo")
SRC = REPO + "/repos/plywood/src"
BUILD = os.environ.get("PLY_VERIF_BUILD", VERIF + "/build")
JOBS = os.cpu_count() or 4

# module -> (include dir, source dir), relative to SRC
MODULES = {
    "platform": ("platform", None),
    "runtime": ("runtime", "runtime/ply-runtime"),
    "reflect": ("reflect", "reflect/ply-reflect"),
    "pylon": ("pylon/pylon", "pylon/pylon/pylon"),
    "pylon-reflect": ("pylon/reflect", "pylon/reflect/pylon-reflect"),
    "crowbar": ("crowbar", "crowbar/ply-crowbar"),
    "cpp": ("cpp", "cpp/ply-cpp"),
    "math": ("math/math", "math/math/ply-math"),
    "math-serial": ("math/serial", "math/serial/math-serial"),
    "image": ("image/image", "image/image/image"),
    "image-png": ("image/png", "image/png/image-png"),
    "audio": ("audio/primitives", "audio/primitives/audio-primitives"),
    "web-common": ("web/common", "web/common/web-common"),
    "web-markdown": ("web/markdown", "web/markdown/web-markdown"),
    "web-serve-docs": ("web/serve-docs", "web/serve-docs/ply-web-serve-docs"),
    "web-documentation": ("web/documentation", "web/documentation/web-documentation"),
    "build-common": ("build/common", "build/common/ply-build-common"),
    "build-target": ("build/target", "build/target/ply-build-target"),
    "build-provider": ("build/provider", "build/provider/ply-build-provider"),
    "build-repo": ("build/repo", "build/repo/ply-build-repo"),
    "build-folder": ("build/folder", "build/folder/ply-build-folder"),
    "plytool-client": ("apps/plytool/plytool-client", "apps/plytool/plytool-client/plytool-client"),
    "plytool": ("apps/plytool/plytool", "apps/plytool/plytool"),
    "cook": ("cook", "cook/ply-cook"),
    "cook-docs": ("web/cook-docs", "web/cook-docs/ply-web-cook-docs"),
}

FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
             "-fsanitize-address-use-after-return=never", "-DPLY_USE_DLMALLOC=0"],
    "plain": ["-O1", "-g1", "-DPLY_USE_DLMALLOC=0"],
    "dl": ["-O1", "-g1", "-DPLY_USE_DLMALLOC=1", "-DPLY_REPLACE_OPERATOR_NEW=0", "-DPLY_DLMALLOC_DEBUG_CHECKS=0"],
    "fast": ["-O1", "-g0", "-DPLY_USE_DLMALLOC=1"],
    # compiled with ThreadSanitizer's instrumentation, linked with our own scheduler
    # (engine/sched.cpp) in place of its run-time library
    "scheddl": ["-O1", "-g1", "-fsanitize=thread", "-DPLY_USE_DLMALLOC=1", "-DPLY_REPLACE_OPERATOR_NEW=0", "-DPLY_DLMALLOC_DEBUG_CHECKS=0"],
    "sched": ["-O1", "-g1", "-fsanitize=thread", "-DPLY_USE_DLMALLOC=0", "-DPLY_REPLACE_OPERATOR_NEW=0"],
}
COMMON = ["-std=c++14", "-fno-exceptions", "-w", "-pthread", "-include", "utility",
          "-DPLY_WITH_ASSERTS=1", "-D_GNU_SOURCE"]
CXX = "clang++"


def _sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(path, "rb") as f:
            memo[k] = hashlib.sha256(f.read()).hexdigest()
    return memo[k]


def _deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    out, cur, i = [], "", 0
    while i < len(txt):
        c = txt[i]
        if c == "\\" and i + 1 < len(txt) and txt[i + 1] == " ":
            cur += " "; i += 2; continue
        if c.isspace():
            if cur: out.append(cur); cur = ""
        else:
            cur += c
        i += 1
    if cur: out.append(cur)
    return out


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(" ".join(cmd)[:300] + "...\n" + p.stdout[-3000:])


def compile_one(src, obj, flags):
    cmd = [CXX] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    cmdkey = json.dumps(cmd)
    keyf = obj + ".key"
    if os.path.exists(obj) and os.path.exists(keyf):
        try:
            old = json.load(open(keyf))
            if old["cmd"] == cmdkey and all(_sha(d) == h for d, h in old["deps"].items()):
                return obj
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for f in (obj, keyf):
        if os.path.exists(f): os.remove(f)
    _run(cmd)
    deps = {d: _sha(d) for d in _deps(obj + ".d") if not d.startswith("/usr/")}
    json.dump({"cmd": cmdkey, "deps": deps}, open(keyf, "w"))
    return obj


def codegen_ws():
    """A scratch copy of the sources with the code generator's output in it (made by
    building and running the repository's own plytool)."""
    ws = BUILD + "/ws"
    os.makedirs(ws + "/repos/plywood", exist_ok=True)
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(SRC)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".h", ".inl", ".pylon", ".modulelist")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0" + _sha(p).encode())
    stamp = ws + "/stamp"
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return ws + "/repos/plywood/src"
    if os.path.exists(stamp): os.remove(stamp)
    # build plytool first, from /repo directly (its generated files are tracked)
    exe = build_exe("plytool-fast", "fast", [],
                    ["runtime", "reflect", "pylon", "pylon-reflect", "cpp", "build-target", "build-provider",
                     "build-repo", "build-folder", "plytool-client", "plytool"],
                    extra_includes=["build-common"], defines=["-DPLY_WORKSPACE_FOLDER=\"%s/\"" % ws, "-rdynamic"],
                    libs=["-ldl"])
    subprocess.run(["rsync", "-rlc", "--delete", REPO + "/repos/plywood/", ws + "/repos/plywood/"], check=True)
    open(ws + "/workspace-settings.pylon", "w").write("{\n}\n")
    p = subprocess.run([exe, "codegen"], cwd=ws, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    if p.returncode != 0:
        raise BuildError("plytool codegen failed (%d):\n%s" % (p.returncode, p.stdout[-3000:]))
    open(stamp, "w").write(h.hexdigest())
    return ws + "/repos/plywood/src"


def module_sources(mod, src):
    d = MODULES[mod][1]
    if d is None: return []
    out = []
    for root, dirs, files in os.walk(src + "/" + d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and not f.endswith(".modules.cpp"):
                out.append(os.path.join(root, f))
    return out


def build_exe(name, flavor, harness_srcs, modules, extra_includes=(), defines=(), libs=(), codegen=False,
              exclude=(), engine=(), harness_flags=None, ldflags=()):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock." + name, "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = codegen_ws() if codegen else SRC
    fl = COMMON + FLAVORS[flavor]
    if "-DPLY_USE_DLMALLOC=0" in fl:  # RaceDetector.h relies on the dlmalloc header to include this
        fl = fl + ["-include", "ply-runtime/thread/Atomic.h"]
    inc = ["-I" + VERIF + "/include", "-I" + src + "/platform", "-I" + src + "/runtime"]
    for m in list(modules) + list(extra_includes):
        i = "-I" + src + "/" + MODULES[m][0]
        if i not in inc: inc.append(i)
    defs = [d for d in defines if d.startswith("-D")]
    jobs = []
    objdir = "%s/%s%s" % (BUILD, flavor, "-cg" if codegen else "")
    for m in modules:
        minc = inc
        for s in module_sources(m, src):
            rel = os.path.relpath(s, src)
            if any(rel.endswith(e) for e in exclude): continue
            tag = hashlib.sha256(json.dumps(defs + inc).encode()).hexdigest()[:8]
            if m == "runtime":   # shared between all harnesses of a flavor
                minc2 = ["-I" + VERIF + "/include", "-I" + src + "/platform", "-I" + src + "/runtime"]
                obj = "%s/rt/%s.o" % (objdir, rel.replace("/", "_"))
                jobs.append((s, obj, fl + minc2))
            else:
                obj = "%s/%s/%s.o" % (objdir, tag, rel.replace("/", "_"))
                jobs.append((s, obj, fl + defs + minc))
    hfl = harness_flags if harness_flags is not None else fl
    for s in harness_srcs:
        p = s if s.startswith("/") else VERIF + "/harness/" + s
        obj = "%s/h/%s/%s.o" % (objdir, name, os.path.basename(p))
        ex = ["-fexceptions"] if "// uses exceptions" in open(p).read() else []
        jobs.append((p, obj, hfl + defs + inc + ["-I" + VERIF + "/engine"] + ex))
    for s in engine:
        p = VERIF + "/engine/" + s
        obj = "%s/e/%s.o" % (objdir, s)
        # the engine itself is never instrumented
        efl = [f for f in FLAVORS[flavor] if f not in ("-fsanitize=thread", "-fsanitize=address")]
        jobs.append((p, obj, ["-std=gnu++17", "-O2", "-g1", "-w", "-pthread", "-fno-exceptions"] + ["-I" + VERIF + "/engine"]))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = "%s/bin/%s" % (BUILD, name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    link = [CXX, "-pthread"]
    if flavor == "asan": link += ["-fsanitize=address"]
    if flavor.startswith("sched"):
        link += ["-Wl,--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "posix_memalign")] + ["-rdynamic"]
    link += [d for d in defines if not d.startswith("-D")] + list(ldflags)
    link += objs + list(libs) + ["-ldl", "-o", exe]
    keyf = exe + ".key"
    key = json.dumps([link, [_sha(o) for o in objs]])
    key = hashlib.sha256(key.encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(keyf) and open(keyf).read() == key):
        _run(link)
        open(keyf, "w").write(key)
    lock.close()
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1:] == ["codegen"]:
        print(codegen_ws())
    print("%.1fs" % (time.time() - t))
