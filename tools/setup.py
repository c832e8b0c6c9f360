#!/usr/bin/env python3
"""setup: confirms that the tools the checks compile with are here and makes the output folders."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('gcc', 'g++', 'clang', 'clang++', 'objcopy', 'nm', 'ar'):
    if not shutil.which(t): sys.exit('missing ' + t)
for d in ('build', 'replay', 'evidence'): os.makedirs(V + '/' + d, exist_ok=True)
