#!/usr/bin/env python3
"""Builds the extractor and the harness once (checks rebuild incrementally from /repo's tree)."""
import sys
import check
a, e1 = check.build_extractor()
b, e2 = check.build_harness()
print("extractor:", a or e1)
print("harness:", b or e2)
sys.exit(0 if a else 1)
