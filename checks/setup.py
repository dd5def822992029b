#!/usr/bin/env python3
"""build the IR tool and the bitcode of the configurations the checks analyse"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import proj
proj.tool()
for c in ('ref', 'v4sse', 'v8avx2', 'v8omp', 'v16portable'):
    proj.module(c, norm=proj.NORMV)
print('setup done')
