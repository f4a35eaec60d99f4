#!/usr/bin/env python3
"""setup_cmd: nothing is installed; verifies the tools the checks need are there."""
import shutil, sys
miss = [t for t in ("g++", "perl", "ar", "python3") if not shutil.which(t)]
if miss: print("missing: " + " ".join(miss)); sys.exit(1)
print("ok")
