#!/usr/bin/env python3
"""Builds the program with AddressSanitizer into /verif/build (checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
build.daemon()
