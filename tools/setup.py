"""setup_cmd: verify that the offline tools the checks use are present and warm the IR cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import z3, numpy
import build
print("z3", z3.get_version_string(), "IR in", build.ensure("zd"))
