#!/usr/bin/env python3
"""builds the harness once, so that the checks only rebuild what changed"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
b, err = check.build_harness()
print(b or err[-2000:])
sys.exit(0 if b else 1)
