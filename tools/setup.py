#!/usr/bin/env python3
"""Builds bubbler once from /repo into a scratch directory and reports the toolchains the harness found."""
import os, shutil, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bbv import engine
print('bubbler builds:', os.path.exists(engine.bubbler()))
for t in ('gcc', 'g++', 'clang', 'go', 'java', 'javac', 'dotnet', 'node', 'python3'):
    print(t, shutil.which(t))
