"""Process environment: must be imported before numpy/graphblas/networkx."""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _k in ("NETWORKX_TEST_BACKEND", "NETWORKX_GRAPH_CONVERT", "NETWORKX_AUTOMATIC_BACKENDS",
           "NETWORKX_AUTOMATIC_CONVERT"):
    os.environ.pop(_k, None)
sys.dont_write_bytecode = True
REPO = os.environ.get("GBMON_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import networkx as nx  # noqa: E402
import graphblas as gb  # noqa: E402
import graphblas_algorithms as ga  # noqa: E402
from graphblas_algorithms import nxapi  # noqa: E402
from graphblas_algorithms.interface import Dispatcher  # noqa: E402

np.seterr(all="ignore")
_root = os.path.realpath(os.path.dirname(os.path.dirname(ga.__file__)))
if _root != os.path.realpath(REPO):
    raise SystemExit(f"graphblas_algorithms was imported from {_root}, not from {REPO}")
