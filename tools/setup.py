#!/usr/bin/env python3
"""Nothing to build ahead of time: each check compiles its own harness.  This verifies the toolchain."""
import subprocess, sys
p = subprocess.run(["g++", "-std=c++17", "-fsanitize=address,undefined", "-x", "c++", "-", "-o", "/dev/null"],
                   input="int main(){}", text=True)
sys.exit(p.returncode)
