"""Imports the code under test, from /repo's working tree, behind the simulator's seams."""

import os
import sys
import warnings

warnings.simplefilter("ignore")

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"

sys.dont_write_bytecode = True
for p in ("/opt/vp/py2", REPO + "/python"):
    if p not in sys.path:
        sys.path.insert(0, p)

import py2compat  # noqa: E402,F401  the sandbox's Python 2 translation, an import hook
import inject  # noqa: E402

inject.hook(py2compat)

import numpy as np  # noqa: E402

np.seterr(all="ignore")

import simoiio  # noqa: E402
import simocio  # noqa: E402
import simpool  # noqa: E402
import simthreads  # noqa: E402
import world  # noqa: E402

simoiio.install()
simocio.install()
simpool.install()
simthreads.install()

import aces  # noqa: E402,F401
import aces.clf as clf  # noqa: E402
import aces.lutFormats as lutFormats  # noqa: E402
import aces.filterImageWithCLF as filt  # noqa: E402
import aces.convertLUTtoCLF as convertLUTtoCLF  # noqa: E402
import aces.convertCLFtoLUT as convertCLFtoLUT  # noqa: E402
import aces.convertOCIOtoCLF as convertOCIOtoCLF  # noqa: E402

# lutFormats imports its own copy of the package under the name clf
lclf = lutFormats.Registry.read.__globals__["clf"]

warnings.simplefilter("ignore")
world.install()

FEATURES = {"CLF": 0, "Autodesk": 1, "Duiker Research": 2, "Both": 3, "All": 15}


def set_features(value):
    clf.setFeatureCompatibility(value)
    if lclf is not clf:
        lclf.setFeatureCompatibility(value)


def reset():
    """State that outlives a call, as a fresh process has it."""
    set_features(clf.featureSets["All"])
    warnings.simplefilter("ignore")


reset()
