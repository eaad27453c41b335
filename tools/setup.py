#!/usr/bin/env python3
"""Checks that the tools the checks need are there; nothing has to be built in advance."""
import shutil, subprocess, sys
need = ["g++", "python3", "git"]
miss = [n for n in need if not shutil.which(n)]
if miss:
    print("missing:", miss)
    sys.exit(1)
print("ok")
