#!/usr/bin/env python3
"""run.py Cxx [--replay FILE] [--cases N] : runs the check of one property (see DESIGN.md)."""
import os, sys, pathlib
PY = "/opt/vp/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/vp/venv" and not os.environ.get("WFV_REEXEC"):
    os.environ["WFV_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
os.environ.pop("WFV_REEXEC", None)
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
from wfv import driver
sys.exit(driver.main(sys.argv[1:]))
