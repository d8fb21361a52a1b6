#!/usr/bin/env python3
"""Builds the fact extractor and analyses the current tree once."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import model
P = model.Program()
print('%d functions, %d classes, %d translation units' % (len(P.fns), len(P.cls), len(P.units)))
