"""Runs the real package: one JSON request per line, one reply per line (a hang stays in here)."""
import json
import os
import sys

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import numpy as np  # noqa: E402
import load  # noqa: E402

nat = load.native()
pkg = load.package(nat)


def array(r):
    a = np.array(r["rows"], dtype=np.float64).astype(r["dtype"])
    o = r["order"]
    if o == "F":
        a = np.asfortranarray(a)
    elif o == "strided":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=a.dtype)
        big[::2, ::3] = a
        a = big[::2, ::3]
    elif o == "reversed":
        a = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    elif o == "readonly":
        a.flags.writeable = False
    elif o == "transposed":
        a = np.ascontiguousarray(a.T).T
    return a


def run(r):
    k = r["kind"]
    if k == "array":
        a = array(r)
        before = a.copy()
        s = pkg.Series2GraphPP(**r["settings"]).fit_predict(a)
        kind = f"{type(s).__name__} {s.dtype} {s.ndim}"
        return dict(score=[int(x) for x in np.asarray(s).view(np.uint32)], kind=kind,
                    unchanged=bool(np.array_equal(before, a) and before.dtype == a.dtype),
                    values=[int(x) for x in before.astype(np.float32).ravel().view(np.uint32)])
    if k == "file":
        nat.s2gpp_local_file(*r["args"])
        return {}
    if k == "main":
        pkg.DistributedSeries2GraphPP.main(**r["settings"]).fit_predict(r["path"])
        return {}
    if k == "sub":
        pkg.DistributedSeries2GraphPP.sub(**r["settings"]).fit_predict()
        return {}
    raise ValueError(k)


for line in sys.stdin:
    try:
        reply = run(json.loads(line))
    except BaseException as e:  # PanicException is no Exception
        reply = dict(error=f"{type(e).__name__}: {e}")
    out.write(json.dumps(reply) + "\n")
    out.flush()
