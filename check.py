#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]  |  check.py --replay <dir>

Decides one property: model checks the specification within small constants, then records behaviours of the library in
/repo (compiled from its working tree) and lets TLC decide whether each of them is a behaviour of the specification.
Exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: the check itself failed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vx
sys.exit(vx.main(sys.argv[1:]))
