#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.driver import main
sys.exit(main(sys.argv[1:]))
