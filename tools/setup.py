#!/usr/bin/env python3
"""builds the extraction driver"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'absint'))
sys.dont_write_bytecode = True
import base
os.makedirs(base.BUILD, exist_ok=True)
print(base.driver())
