#!/usr/bin/env python3
"""Compiles one check, as a test of the toolchain. The checks build whatever they need themselves."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = tempfile.mkdtemp(prefix="vh-setup-")
try:
    check.build("C01", False, d)
finally:
    shutil.rmtree(d, ignore_errors=True)
