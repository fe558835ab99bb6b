#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree (see MANIFEST.json)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import common

MODULES = dict(P01="codec", P02="codec", P03="server", P04="server", P05="server", P06="server", P09="server", P10="server",
               P07="client", P08="client", P11="client", P12="client", P13="client", P14="client", P15="sync_check", P16="pool", P17="pool", P18="lru", P19="tracing", P20="tracing", P21="tracing",
               P22="mesh_check", P23="mesh_check", P24="e2e")

if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(MODULES[pid])
    sys.exit(common.main(pid, mod.CHECKS[pid]))
