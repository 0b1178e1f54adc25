#!/usr/bin/env python3
"""Checks the toolchain by building the engine and the compiler once."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import hx
b = hx.Build()
print('setup: ok')
b.cleanup()
