#!/usr/bin/env python3
"""Build the harness (plain and with the race detector) once, so that the checks find a warm cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build
build()
build(race=True)
print('ready')
