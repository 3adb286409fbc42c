#!/usr/bin/env python3-vt
import sys, os
if os.environ.get('PYTHONHASHSEED') != '0': os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irv.runner import main
sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
