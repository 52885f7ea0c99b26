#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there."""
import shutil, subprocess, sys
miss = [t for t in ("g++", "gcc", "pkg-config", "gdal-config") if not shutil.which(t)]
if miss:
    sys.exit("missing tools: " + " ".join(miss))
subprocess.run(["g++", "--version"], check=True)
