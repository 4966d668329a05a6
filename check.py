#!/usr/bin/env python3
"""check.py PROPERTY: decide one property against /repo's current tree.
Exit 0 held, 1 with a VIOLATION line, 2 when the machinery itself failed."""
import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":     # the same histories every time
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.core import Check, ToolError, log  # noqa

WHERE = {"C01": "access", "C02": "access", "C03": "access", "C04": "access", "C05": "access",
         "C06": "access", "C10": "access", "C11": "access", "C18": "algebra", "C19": "algebra", "C22": "algebra", "C23": "indep",
         "C12": "hybrid", "C13": "hybrid", "C20": "hybrid", "C08": "wire", "C09": "wire", "C14": "ffi", "C15": "ffi", "C16": "ffi", "C07": "fresh", "C17": "ifaces", "C21": "ifaces"}


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + WHERE[prop])
    f = getattr(mod, prop.lower())
    ck = Check(prop, getattr(f, "level", "model_checking"))
    try:
        f(ck)
        rc = ck.finish()
    except ToolError as e:
        log("tool error: %s" % e)
        rc = ck.finish() if ck.violations else 2
    except Exception:
        traceback.print_exc()
        rc = ck.finish() if ck.violations else 2
    sys.stdout.flush()
    os._exit(rc)


main()
