"""check.py <property id>: decide one property (see DESIGN.md)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "props"))
import vlib  # noqa

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    vlib.main(prop, mod.run)
