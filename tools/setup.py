#!/usr/bin/env python3
"""setup_cmd: checks that the tools the framework needs are there. Everything is built by the checks themselves."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "dotnet", "gcc", "gprbuild", "gnatmake") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("ok")
