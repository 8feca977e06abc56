#!/usr/bin/env python3
"""usage: python3 run.py CNN [--thorough]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import core  # noqa: E402

core.load_target()
sys.exit(core.main("checks." + sys.argv[1].lower()))
