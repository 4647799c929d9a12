"""Import the package under test from /repo, with every ambient source of noise switched off."""
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

logging.disable(logging.CRITICAL)

import numpy as np  # noqa: E402

import pycid  # noqa: E402

if not os.path.abspath(pycid.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit(f"pycid was imported from {pycid.__file__}, not from {REPO}")

logging.disable(logging.CRITICAL)
np.seterr(all="ignore")
warnings.filterwarnings("ignore")

# pgmpy hashes factors by printing their tables, which is most of the time of a query; equality is left as it is
from pgmpy.factors.discrete import DiscreteFactor  # noqa: E402

DiscreteFactor.__hash__ = lambda self: hash((frozenset(self.variables), self.values.size))
