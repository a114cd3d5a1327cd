#!/usr/bin/env python3
"""checks that the tools the checks need are there"""
import shutil, subprocess, sys
for t in ('verus', 'cargo'):
    if not shutil.which(t):
        print('missing', t)
        sys.exit(1)
subprocess.run(['verus', '--version'], check=True)
