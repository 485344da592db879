#!/usr/bin/env python3
"""Checks that the harness builds; checks rebuild what a changed tree needs."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import runner
for n in ('drv',): print(runner.CONFIGS[n]())
