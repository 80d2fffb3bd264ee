#!/opt/veriftools/pyvenv/bin/python
"""checks/run.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from yv import framework
from checks import registry
signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
sys.exit(framework.main(registry.CHECKS, sys.argv[1:]))
