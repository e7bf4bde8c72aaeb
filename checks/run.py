"""Entry point: run.py <property> [quick|thorough]"""

import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
sys.path.insert(0, HERE)
import vlib  # noqa: E402

PIPE = {"P10", "P11", "P12", "P13", "P14", "P15"}


def main():
    prop = sys.argv[1]
    vlib.import_energon()
    if prop in PIPE:
        import pipe

        return pipe.check(prop)
    return importlib.import_module(prop.lower()).check(prop)


vlib.run_check(main, sys.argv[1])
