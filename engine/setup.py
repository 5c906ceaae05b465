#!/usr/bin/env python3
"""Build the front end of the analysis."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run

print('front end:', run.extractor())
