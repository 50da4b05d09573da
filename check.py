#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vp"))
import run
sys.exit(run.main(sys.argv[1:]))
