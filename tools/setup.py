#!/usr/bin/env python3
"""Checks that the tools the simulator needs are there. Every check builds its
own simulators from /repo's working tree, so nothing is built here."""
import shutil, subprocess, sys
for t in ('g++', 'python3'):
    if not shutil.which(t):
        sys.exit('missing: ' + t)
subprocess.run(['g++', '--version'], check=True)
