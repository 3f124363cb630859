#!/usr/bin/env python3
"""nothing is kept between runs, so there is nothing to build in advance: checks that the tools are there"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import refs  # noqa: F401
for t in ('g++-14', 'g++-13', 'clang++-18', 'valgrind'):
    subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run(['python3', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refs.py')], check=True)
