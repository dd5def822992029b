#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's current sources"""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), 'lib'))
import ctx
sys.exit(ctx.main(None))
