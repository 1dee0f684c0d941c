#!/usr/bin/env python3
"""builds the drivers once, so that the checks find them"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build
for f in ('tf', 'itk'):
    if hasattr(build, f):
        print(getattr(build, f)())
