#!/opt/venv/bin/python
"""Verify that the simulator can run here (nothing has to be built: the checks import /repo directly)."""

import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("DST_REPO", "/repo"))
sys.dont_write_bytecode = True

from dst import core, lin, sim

sim.install()
lin.install()
env = core.Env(core.Chooser(seed=1))
with sim.simulation(env):
    img = sim.new_image()
    path = img.main.__file__
env.close()
print("simulator ready: %s" % path)
