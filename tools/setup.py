#!/usr/bin/env python3
"""Framework self-test: the toolchain can build and run an instrumented harness
and the monitors fire on a planted memory error."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_check as rc
tmp = tempfile.mkdtemp(prefix="vf_setup_")
try:
    src = os.path.join(tmp, "t.cpp")
    open(src, "w").write('#include "vf.h"\nVF_FAMILY(ok,1,1){ VF_EQ(c,"x",1,1); }\n'
                         'VF_FAMILY(bad,1,1){ volatile int n=4; int *p=new int[n]; volatile int x=p[n]; (void)x; delete[] p; }\nVF_MAIN()\n')
    code, out, _ = rc.compile_one(src, "asan", tmp + "/t", {})
    if code: print(out); sys.exit(1)
    a = subprocess.run([tmp + "/t", "run", "ok", "0", "1", "1", tmp + "/p", tmp + "/o"], env=rc.ENV).returncode
    b = subprocess.run([tmp + "/t", "run", "bad", "0", "1", "1", tmp + "/p", tmp + "/o2"], env=rc.ENV,
                       stderr=subprocess.DEVNULL).returncode
    print("ok=%d bad=%d" % (a, b))
    sys.exit(0 if a == 0 and b != 0 else 1)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
