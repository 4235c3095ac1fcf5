#!/usr/bin/env python3
"""setup_cmd: builds the harness once and checks that the tools are there."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
for t in ("tlc", "cargo"):
    if not shutil.which(t) and not (t == "cargo" and os.path.exists("/root/.cargo/bin/cargo")):
        sys.exit("missing tool " + t)
print("harness built in %.1fs" % core.build()[1])
