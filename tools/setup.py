#!/usr/bin/env python3
"""Builds what the checks share, so that the first check does not have to."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

vlib.workdir()
try:
    for name, (srcs, lib) in sorted(vlib.DRIVERS.items()):
        vlib.build(name, srcs, with_lib=lib)
    vlib.build('jwtdrv', ['jwtdrv.cc'], with_lib=True, san='t')
finally:
    shutil.rmtree(vlib.WORK, ignore_errors=True)
