#!/usr/bin/env python3
"""Usage: check.py PROPERTY [--thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import check
if sys.argv[1:2] == ["--setup"]:
    import facts
    facts.extractor()
    sys.exit(0)
sys.exit(check.main(sys.argv[1:]))
