#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property. VERIF_TIER=quick|thorough, VERIF_SEED=n."""
import importlib.util
import os
import sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import vf  # noqa: E402
spec = importlib.util.spec_from_file_location("c", os.path.join(here, "checks", sys.argv[1] + ".py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
vf.main(mod.CHECK)
