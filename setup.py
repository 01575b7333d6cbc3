#!/usr/bin/env python3
"""Builds the harness once (checks rebuild it from /repo's working tree anyway)."""
import sys
from check import build
build()
print("harness built")
