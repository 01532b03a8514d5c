#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough] [--only substring] [--replay FILE]"""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine.cli import main
if __name__ == '__main__':
    sys.exit(main())
