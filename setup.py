#!/usr/bin/env python3
"""Builds the tools and the harness once and parses the specifications."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common as C
b = C.build()
shutil.rmtree(b.dir)
for m in ("ElmTrace", "ElmDeriv", "DumpModel", "DumpTrace", "CheckTrace", "SessionTrace", "CmdModel", "CmdTrace"):
    r = subprocess.run(["java", "-cp", C.TLA + "/tla2tools.jar:" + C.TLA + "/CommunityModules-deps.jar", "tla2sany.SANY", m + ".tla"],
                       cwd=C.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-2000:])
        sys.exit(1)
print("ready" + ("" if b.hooked else " (without the guarded entry point)"))
