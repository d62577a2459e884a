#!/usr/bin/env python3
"""Setup: verifies offline that the compiler and sanitizer runtimes the checks need are present."""
import os, subprocess, sys, tempfile, shutil
d = tempfile.mkdtemp(prefix="enigma_setup_")
try:
    s = os.path.join(d, "a.cpp")
    open(s, "w").write("#include <eigen3/Eigen/Dense>\n#include <cstdio>\nint main(){Eigen::Vector3d v(1,2,2); std::printf(\"%g\\n\", v.norm());}\n")
    e = os.path.join(d, "a")
    subprocess.check_call(["g++", "-std=c++14", "-O1", "-fsanitize=address,undefined,float-cast-overflow", "-ftrivial-auto-var-init=pattern", s, "-o", e])
    assert subprocess.check_output([e], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).strip() == b"3"
    subprocess.check_call(["clang++", "--version"], stdout=subprocess.DEVNULL)
    print("toolchain ok")
finally:
    shutil.rmtree(d, ignore_errors=True)
