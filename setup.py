#!/usr/bin/env python3
"""Builds the symbolic executor and warms up the harness crates (which the checks rebuild when /repo changes)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
os.makedirs(vlib.BUILD, exist_ok=True)
vlib.build_engine()
