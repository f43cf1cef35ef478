#!/usr/bin/env python3
"""check.py <property>: decides one property (tier and seed from VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
import vt
import plans
pid = sys.argv[1]
sys.exit(vt.run(pid, plans.PLANS[pid]))
