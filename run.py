#!/usr/bin/env python3-vt
"""run.py C01 [--tier quick|thorough] [--replay file] [-v]"""
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('VERIF_REEXEC') != '1':
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(sys.executable, [sys.executable, '-X', 'faulthandler'] + sys.argv)
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
import runner  # noqa: E402
sys.exit(runner.main(sys.argv[1:]))
