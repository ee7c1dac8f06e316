#!/usr/bin/env python3
"""Build the machinery once, from the committed files."""
import sys
from check import build_symex
ok, _ = build_symex()
sys.exit(0 if ok else 1)
