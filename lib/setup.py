#!/usr/bin/env python3
"""setup.py -- nothing to build ahead of the checks; see that the tools are there"""
import shutil, subprocess, sys
for t in ("/usr/bin/cbmc", "/usr/bin/goto-cc", "/usr/bin/goto-instrument", "gcc"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
print(subprocess.run(["/usr/bin/cbmc", "--version"], stdout=subprocess.PIPE).stdout.decode().strip())
