#!/usr/bin/env python3
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':     # same order of exploration in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.check import main
sys.exit(main(sys.argv[1:]))
