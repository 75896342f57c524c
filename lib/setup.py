#!/usr/bin/env python3
# Builds the parts shared by the checks (each check also builds whatever is missing).
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plybuild
try:
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    fl = plybuild.COMMON + plybuild.FLAVORS["asan"] + ["-include", "ply-runtime/thread/Atomic.h"]
    inc = ["-I" + plybuild.VERIF + "/include", "-I" + plybuild.SRC + "/platform", "-I" + plybuild.SRC + "/runtime"]
    for s in plybuild.module_sources("runtime", plybuild.SRC):
        rel = os.path.relpath(s, plybuild.SRC)
        jobs.append((s, "%s/asan/rt/%s.o" % (plybuild.BUILD, rel.replace("/", "_")), fl + inc))
    with ThreadPoolExecutor(plybuild.JOBS) as ex:
        list(ex.map(lambda j: plybuild.compile_one(*j), jobs))
except plybuild.BuildError as e:
    print(e)
print("setup done")
