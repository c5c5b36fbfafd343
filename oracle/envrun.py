"""Runs public functions in a restricted environment and prints the results (one JSON per line).
Usage: envrun.py <env> <json list of [case, name, kwargs]>"""
import json
import sys

env, calls = sys.argv[1], json.loads(sys.argv[2])
if env == "numpy1-notorch":
    sys.modules["torch"] = None
elif env == "nopackaging":
    for m in ("packaging", "packaging.version", "pkg_resources", "setuptools", "distutils", "_distutils_hack"):
        sys.modules[m] = None
import os  # noqa

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings  # noqa

import numpy as np  # noqa

import common as C  # noqa

warnings.filterwarnings("ignore")
np.seterr(all="ignore")
if env == "numpy2":
    assert int(np.__version__.split(".")[0]) >= 2
C.pkg()
for case, name, kw in calls:
    be = case.get("be", "numpy")
    ref, est = C.signals(case)
    d = dict(case=case, name=name, kw=kw)
    a = [C.conv(x, be, case.get("dtype", "float64")) for x in (ref, est)]
    try:
        o = C.call(name, case, *a, **kw)
        o = o if isinstance(o, tuple) else (o,)
        n = C.to_np(o)
        d.update(out=[x.astype(float).tolist() for x in n], dtypes=[str(x.dtype) for x in n], shapes=[list(x.shape) for x in n], types=[type(x).__name__ for x in o])
    except Exception as x:
        d["exc"] = repr(x)
    print("RES " + json.dumps(d))
