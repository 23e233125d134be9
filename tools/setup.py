#!/usr/bin/env python3
"""Checks that the compilers the checks need work; everything is built per check from /repo's working tree."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vf
for t in ('clang', 'g++', 'valgrind'): subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
vf.tmp(); vf.build_ref(); vf.cleanup(); print('ok')
