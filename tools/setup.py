#!/usr/bin/env python3
"""Checks that the toolchain works and primes the sanitizer build (checks build what they need themselves)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
vlib.build("asan")
print("setup ok")
