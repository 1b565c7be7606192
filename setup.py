#!/usr/bin/env python3
"""Builds every crate once in a scratch directory, to show that the committed
files build offline. The checks build for themselves from /repo's tree."""
import os, shutil, sys
sys.argv = ['check.py', 'C12', 'quick']
import check
r = check.Run('C12', 'quick')
try:
    r.build()
    print('engine, replay and harness build; tools:', check.TOOL, check.SOLVER)
finally:
    shutil.rmtree(r.scratch, ignore_errors=True)
