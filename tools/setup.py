#!/usr/bin/env python3
"""Nothing is prebuilt (every check compiles its drivers from /repo's current tree); only checks that the tools are there."""
import os, shutil, sys
missing=[t for t in ('g++','clang++','valgrind') if not shutil.which(t)]
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','evidence'),exist_ok=True)
if missing: print('missing: '+' '.join(missing)); sys.exit(1)
print('ok')
