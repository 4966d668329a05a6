#!/usr/bin/env python3
"""builds what the checks share: the harness, the Python and the WebAssembly module"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.iface import *  # noqa
harness()
harness_sched()
pymod()
wasmmod()
