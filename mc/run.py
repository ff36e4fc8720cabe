#!/usr/bin/env python3
"""Entry point of every check:  python3 mc/run.py P01 [--tier quick|thorough] [--job NAME]"""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if __name__ == "__main__":
  if os.path.realpath(sys.executable) != os.path.realpath(VENV) or not sys.prefix.startswith("/opt/venv"):
    os.execv(VENV, [VENV, "-W", "ignore"] + sys.argv)
  sys.path.insert(0, os.path.dirname(HERE))
  sys.dont_write_bytecode = True
  from mc.core import main
  rc = main(sys.argv[1].upper(), sys.argv[2:])
  sys.stdout.flush()
  os._exit(rc)
