"""C18: the Python package, with generated settings and arrays.

Oracles: an independent statement of the defaults and of what each role is handed (native module
replaced by a recorder), and the scores of the Rust library in its own process (`vh worker`) for
the real extension module."""
import json
import math
import os
import select
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import time
import random
from unittest import mock

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis import strategies as st

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import load  # noqa: E402

ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", RUST_BACKTRACE="0")


class Violation(Exception):
    pass


class NoVerdict(Exception):
    pass


def cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except OSError:
        return 0


class Proc:
    def __init__(self, argv):
        self.argv, self.p, self.buf = argv, None, b""

    def ask(self, line):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, env=ENV, cwd=SCRATCH)
            self.buf = b""
            self.fresh = True
        self.p.stdin.write(line.encode() + b"\n")
        self.p.stdin.flush()
        start, last, since = time.time(), -1, time.time()
        while True:
            while b"\n" in self.buf:
                l, self.buf = self.buf.split(b"\n", 1)
                if l[:1] != b"P":
                    return l
            r, _, _ = select.select([self.p.stdout], [], [], 0.5)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    rc = self.p.wait()
                    self.p = None
                    raise Violation(f"the process ended with {rc}")
                self.buf += d
                continue
            c = cpu(self.p.pid)
            if c != last:
                last, since = c, time.time()
            if time.time() - since > 15:
                self.close()
                raise Violation("the call never returns (nothing is running any more)")
            if time.time() - start > 150:
                self.close()
                raise NoVerdict("no answer within 150 s")

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


SCRATCH = tempfile.mkdtemp(prefix="vh-c18-")
RUST = Proc([os.path.join(ROOT, "target/debug/vh"), "worker"])
PY = Proc([sys.executable, os.path.join(HERE, "worker.py")])
STAT = dict(evaluations=0, nontrivial=set(), labels={}, samples=[], inconclusive={}, failure=None, runs=0)


def bits(f):
    return struct.unpack("<I", struct.pack("<f", f))[0]


def floats(bs):
    return [struct.unpack("<f", struct.pack("<I", b))[0] for b in bs]


def rust(p, value_bits, d, layout="Memory"):
    """The library's scores (as bit patterns), or None if it gives none."""
    vals = floats(value_bits)
    rows = [vals[i:i + d] for i in range(0, len(vals), d)]
    req = dict(p=p, source={layout: rows}, local_host=None, score_path=None, contribution_path=None,
               inject=None, delays=[], want_trace=False)
    STAT["runs"] += 1
    try:
        a = RUST.ask(json.dumps(req))
    except Violation as e:
        raise NoVerdict(f"the library run: {e}")
    o = json.loads(a[1:])["outcome"]
    if "Ok" not in o or o["Ok"] is None:
        raise NoVerdict("the library run failed")
    return o["Ok"]


# ------------------------------------------------------------------------------ generators

def opt(s):
    return st.one_of(st.none(), s)


small = st.integers(0, 2**20)
text = st.text("abcxyz019._-/ ", min_size=1, max_size=12)


@st.composite
def base_settings(draw):
    s = dict(pattern_length=draw(st.one_of(st.integers(3, 60), st.integers(3, 10**7))))
    for name, strat in [("latent", st.one_of(st.none(), st.integers(1, 10**6))), ("rate", st.integers(1, 10**5)),
                        ("query_length", st.one_of(st.none(), st.integers(1, 10**6))),
                        ("n_threads", st.one_of(st.integers(-3, 0), st.integers(1, 500))),
                        ("clustering", st.sampled_from(["KDE", "MeanShift"])),
                        ("self_correction", st.booleans()), ("local_host", text)]:
        if draw(st.booleans()):
            s[name] = draw(strat)
    return s


@st.composite
def stub_case(draw):
    role = draw(st.sampled_from(["local", "main", "sub"]))
    s = draw(base_settings())
    ext = {}
    if role != "local":
        ext["n_cluster_nodes"] = draw(st.integers(1, 1000))
        if role == "sub" or draw(st.booleans()):
            ext["mainhost"] = draw(text)
        for name, strat in [("output_path", text), ("column_start_idx", small),
                            ("column_end_idx", st.integers(-2**20, 2**20))]:
            if draw(st.booleans()):
                ext[name] = draw(strat)
    return dict(kind="stub", role=role, settings=s, ext=ext, cores=draw(st.integers(1, 256)),
                positional=draw(st.integers(0, 6)), factory=draw(st.booleans()),
                path=draw(text), as_path=draw(st.booleans()))


@st.composite
def series(draw):
    pl = draw(st.integers(6, 24))
    latent = draw(st.one_of(st.none(), st.integers(1, max(1, pl - 3))))
    s = dict(pattern_length=pl, rate=draw(st.one_of(st.integers(3, 40), st.just(100))))
    if latent is not None:
        s["latent"] = latent
    q = draw(st.one_of(st.none(), st.integers(1, pl + 20)))
    if q is not None:
        s["query_length"] = q
    if draw(st.booleans()):
        s["self_correction"] = draw(st.booleans())
    d = draw(st.integers(1, 4))
    n = pl + (q or pl) + draw(st.integers(2, 80))
    return s, dict(n=n, d=d, seed=draw(st.integers(0, 2**32 - 1)), period=draw(st.integers(4, 40)),
                   noise=draw(st.sampled_from([0.0, 0.1, 0.5])), scale=draw(st.sampled_from([1.0, 30.0, 100.0])))


def values(r):
    g = random.Random(r["seed"])
    ph = [g.random() * 6 for _ in range(r["d"])]
    return [[round((math.sin(i * 2 * math.pi / r["period"] * (1 + 0.3 * c) + ph[c]) + r["noise"] * (g.random() - 0.5)
                    + (2 if g.random() < 0.01 else 0)) * r["scale"], 7) for c in range(r["d"])] for i in range(r["n"])]


@st.composite
def array_case(draw):
    s, r = draw(series())
    return dict(kind="array", settings=s, recipe=r,
                dtype=draw(st.sampled_from(["f8", "f4", ">f8", "i4", "i8", "i2", "f2", "i1"])),
                order=draw(st.sampled_from(["C", "F", "strided", "reversed", "readonly", "transposed"])))


@st.composite
def file_case(draw):
    s, r = draw(series())
    return dict(kind=draw(st.sampled_from(["file", "main"])), settings=s, recipe=r, before=draw(st.integers(0, 3)),
                after=draw(st.integers(0, 3)), negative=draw(st.booleans()))


@st.composite
def cluster_case(draw):
    s, r = draw(series())
    s["pattern_length"] = min(s["pattern_length"], 14)
    if "latent" in s:
        s["latent"] = min(s["latent"], s["pattern_length"] - 3)
    pl, q = s["pattern_length"], s.get("query_length", s["pattern_length"])
    r["n"] = 2 * (pl + q + draw(st.integers(1, 40))) + draw(st.integers(0, 1))
    return dict(kind="cluster", python=draw(st.sampled_from(["sub", "main", "both"])), settings=s, recipe=r,
                before=draw(st.integers(0, 2)), after=draw(st.integers(0, 2)), negative=draw(st.booleans()))


usual = st.one_of(stub_case(), stub_case(), stub_case(), array_case(), array_case(), file_case())
cases = st.integers(0, 79).flatmap(lambda k: cluster_case() if k == 41 else usual)


# ------------------------------------------------------------------------------ oracle

def expected(s):
    pl = s["pattern_length"]
    return dict(pattern_length=pl, latent=s["latent"] if s.get("latent") is not None else pl // 3,
                rate=s.get("rate", 100),
                query_length=s["query_length"] if s.get("query_length") is not None else pl,
                self_correction=s.get("self_correction", False),
                clustering={"KDE": "kde", "MeanShift": "meanshift"}[s.get("clustering", "KDE")])


def check_threads(given_, got, cores):
    if given_ is not None and given_ > 0:
        if got != given_:
            raise Violation(f"n_threads={given_} was given, {got} are used")
    elif not (type(got) is int and 1 <= got <= max(cores, 1)):
        raise Violation(f"default number of threads with {cores} cores is {got!r}")


def eval_stub(c):
    calls = []
    with mock.patch("os.cpu_count", lambda: c["cores"]), \
            mock.patch("os.process_cpu_count", lambda: c["cores"], create=True), \
            mock.patch("os.sched_getaffinity", lambda _p=0: set(range(c["cores"]))):
        pkg = load.package(load.stub(calls))
        s = dict(c["settings"])
        if "clustering" in s:
            s["clustering"] = getattr(pkg.Clustering, s["clustering"])
        want = expected(c["settings"])
        names = ["pattern_length", "latent", "rate", "query_length", "n_threads", "clustering", "self_correction"]
        if c["role"] == "local":
            args = []
            for n in names[:c["positional"]]:
                if n not in s:
                    break
                args.append(s.pop(n))
            x = np.arange(12, dtype=np.float64).reshape(6, 2) + 0.1
            r = pkg.Series2GraphPP(*args, **s).fit_predict(x)
            if r != "scores":
                raise Violation(f"the native result is not returned, but {r!r}")
        else:
            e = dict(c["ext"])
            if c["factory"]:
                est = getattr(pkg.DistributedSeries2GraphPP, c["role"])(**e, **s)
            else:
                role = pkg.DistributedRole.Main if c["role"] == "main" else pkg.DistributedRole.Sub
                est = pkg.DistributedSeries2GraphPP(role, **e, **s)
            if c["role"] == "main":
                from pathlib import Path
                est.fit_predict(Path(c["path"]) if c["as_path"] else c["path"])
            else:
                est.fit_predict()
    name = {"local": "local_array", "main": "main", "sub": "sub"}[c["role"]]
    if [k for k, _ in calls] != [name]:
        raise Violation(f"role {c['role']}: native calls {[k for k, _ in calls]}")
    got = calls[0][1]
    check_threads(c["settings"].get("n_threads"), got["n_threads"], c["cores"])
    if c["role"] == "local":
        d = got["data"]
        if d.dtype != np.float32 or not np.array_equal(d, x.astype(np.float32)):
            raise Violation("the native function is not handed the values as 32-bit floats")
    else:
        e = c["ext"]
        want["local_host"] = c["settings"].get("local_host", "127.0.0.1:1992")
        want["n_cluster_nodes"] = e["n_cluster_nodes"]
        want["column_start"] = e.get("column_start_idx", 0)
        want["column_end"] = e.get("column_end_idx", 0)
        if "output_path" in e:
            want["score_output_path"] = e["output_path"]
        if c["role"] == "sub":
            want["mainhost"] = e["mainhost"]
        else:
            from pathlib import Path
            want["data_path"] = str(Path(c["path"])) if c["as_path"] else c["path"]
    for k, v in want.items():
        g = got[k]
        if type(v) is int and type(g) is not int and not isinstance(g, np.integer):
            raise Violation(f"{c['role']}: {k} is {g!r}, no integer")
        if g != v:
            raise Violation(f"{c['role']}: {k} is {g!r}, expected {v!r}")
    return len(c["settings"]) > 2, [f"recorder, {c['role']}"]


def params(s):
    w = expected(s)
    return dict(pattern_length=w["pattern_length"], latent=w["latent"], rate=w["rate"], n_threads=1,
                query_length=w["query_length"], self_correction=w["self_correction"])


def same(got, want):
    if len(got) != len(want):
        raise Violation(f"{len(got)} scores, the library gives {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b and not (a | b) & 0x7FFFFFFF == 0:
            raise Violation(f"score {i} is {floats([a])[0]}, the library gives {floats([b])[0]}")


def eval_array(c):
    rows = values(c["recipe"])
    req = dict(kind="array", rows=rows, dtype=c["dtype"], order=c["order"], settings=dict(c["settings"], n_threads=1))
    STAT["runs"] += 1
    a = json.loads(PY.ask(json.dumps(req)))
    if "error" in a:
        raise Violation(f"fit_predict raises {a['error']}")
    if not a["unchanged"]:
        raise Violation("fit_predict changed its input")
    if a["kind"] != "ndarray float32 1":
        raise Violation(f"fit_predict returns {a['kind']}")
    want = rust(params(c["settings"]), a["values"], c["recipe"]["d"])
    if a["score"] != want and c["order"] in ("F", "transposed"):
        # the package may keep a column-major array as it is: its sums are rounded in another order
        want = rust(params(c["settings"]), a["values"], c["recipe"]["d"], "MemoryF")
    same(a["score"], want)
    return any(x & 0x7FFFFFFF for x in want), [f"array {c['dtype']} {c['order']}"]


def write_table(c, rows):
    """Writes the table; returns its path and the end of the column range."""
    path = os.path.join(SCRATCH, "in.csv")
    with open(path, "w") as f:
        f.write(",".join(f"c{i}" for i in range(c["before"] + c["recipe"]["d"] + c["after"])) + "\n")
        for i, r in enumerate(rows):
            f.write(",".join([str(i)] * c["before"] + [repr(v) for v in r] + ["-7.5"] * c["after"]) + "\n")
    return path, -c["after"] if c["negative"] and c["after"] else c["before"] + c["recipe"]["d"]


def eval_file(c):
    rows = values(c["recipe"])
    rows = [[float(np.float32(v)) for v in r] for r in rows]
    out = os.path.join(SCRATCH, "out.csv")
    if os.path.exists(out):
        os.unlink(out)
    path, end = write_table(c, rows)
    s = c["settings"]
    p = params(s)
    if c["kind"] == "file":
        req = dict(kind="file", args=[path, p["pattern_length"], p["latent"], p["query_length"], p["rate"], 1, out,
                                      c["before"], end, "kde", p["self_correction"], "127.0.0.1:1993"])
    else:
        req = dict(kind="main", path=path, settings=dict(s, n_threads=1, n_cluster_nodes=1, output_path=out,
                                                         column_start_idx=c["before"], column_end_idx=end))
    STAT["runs"] += 1
    a = json.loads(PY.ask(json.dumps(req)))
    if "error" in a:
        raise Violation(f"{c['kind']} run raises {a['error']}")
    try:
        got = [bits(float(l)) for l in open(out).read().split("\n") if l]
    except (OSError, ValueError) as e:
        raise Violation(f"{c['kind']} run: score file: {e}")
    want = rust(p, [bits(v) for r in rows for v in r], c["recipe"]["d"])
    same(got, want)
    return any(x & 0x7FFFFFFF for x in want), [f"native {c['kind']}"]


CLI = os.path.join(ROOT, "target/debug/s2gpp_cli")


def free_ports(k):
    socks = [socket.socket() for _ in range(k)]
    for x in socks:
        x.bind(("127.0.0.1", 0))
    ports = [x.getsockname()[1] for x in socks]
    for x in socks:
        x.close()
    return ports


def scores_of(path, n):
    """The score file's values if it is complete."""
    try:
        t = open(path).read()
        v = [bits(float(x)) for x in t.split("\n") if x]
    except (OSError, ValueError):
        return None
    return v if len(v) >= n and t.endswith("\n") else None


def cluster_once(c, python, path, end):
    """The scores of a cluster of two processes, or the reason why there are none."""
    p = params(c["settings"])
    out = os.path.join(SCRATCH, "cluster.csv")
    if os.path.exists(out):
        os.unlink(out)
    hosts = [f"127.0.0.1:{x}" for x in free_ports(2)]
    n = c["recipe"]["n"] + 1 - p["pattern_length"] - p["query_length"]
    STAT["runs"] += 1
    procs = []
    try:
        for role in ("main", "sub"):
            mine = hosts[0 if role == "main" else 1]
            if python in (role, "both"):
                s = dict(c["settings"], n_threads=1, n_cluster_nodes=2, local_host=mine,
                         column_start_idx=c["before"], column_end_idx=end,
                         output_path=out if role == "main" else os.path.join(SCRATCH, "sub.csv"))
                if role == "sub":
                    s["mainhost"] = hosts[0]
                w = subprocess.Popen(PY.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=ENV, cwd=SCRATCH)
                w.stdin.write(json.dumps(dict(kind=role, path=path, settings=s)).encode() + b"\n")
                w.stdin.flush()
            else:
                a = [CLI, "-l", mine, "-p", p["pattern_length"], "--latent", p["latent"], "--rate", p["rate"],
                     "-t", 1, "-n", 2, "-q", p["query_length"], "--column-start-idx", c["before"],
                     f"--column-end-idx={end}"]
                a += ["--self-correction"] if p["self_correction"] else []
                a += ["--score-output-path", out, "main", "-d", path] if role == "main" else ["sub", "-h", hosts[0]]
                w = subprocess.Popen([str(x) for x in a], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, env=ENV, cwd=SCRATCH)
            procs.append(w)
            time.sleep(0.1)
        start, last, since = time.time(), None, time.time()
        while True:
            got = scores_of(out, n)
            if got is not None:
                return got
            now = [cpu(w.pid) for w in procs]
            if now != last:
                last, since = now, time.time()
            if procs[0].poll() is not None:
                got = scores_of(out, n)
                return got if got is not None else f"the main node ended with {procs[0].returncode} and without scores"
            if time.time() - since > 12:
                return "the cluster stands still"
            if time.time() - start > 90:
                raise NoVerdict("no answer within 90 s")
            time.sleep(0.02)
    finally:
        for w in procs:
            w.kill()
            w.wait()


def cluster(c, python, path, end):
    for _ in range(3):
        r = cluster_once(c, python, path, end)
        if not isinstance(r, str):
            return r
    return r


def eval_cluster(c):
    rows = [[float(np.float32(v)) for v in r] for r in values(c["recipe"])]
    path, end = write_table(c, rows)
    want = cluster(c, "none", path, end)
    if isinstance(want, str):
        raise NoVerdict(f"the program's cluster: {want}")
    got = cluster(c, c["python"], path, end)
    if isinstance(got, str):
        raise Violation(f"cluster with the {c['python']} role in Python: {got}")
    if got != want:
        # counts if the program's cluster gives the same scores again, and the package's does not
        for _ in range(2):
            if cluster(c, "none", path, end) != want:
                raise NoVerdict("the program's cluster gives different scores")
            if cluster(c, c["python"], path, end) == want:
                raise NoVerdict("the cluster gives different scores")
        same(got, want)
    return any(x & 0x7FFFFFFF for x in want), [f"cluster, Python is {c['python']}"]


def evaluate(c):
    return dict(stub=eval_stub, array=eval_array, file=eval_file, main=eval_file, cluster=eval_cluster)[c["kind"]](c)


class Enough(KeyboardInterrupt):
    """Ends the search at once: a failing cluster costs up to a minute, too much for the usual shrinking."""


def shrink_cluster(c):
    t0 = time.time()
    for name, change in [(None, dict(before=0, after=0)), ("recipe", dict(d=1)), ("settings", "query_length"),
                         ("settings", "self_correction"), ("settings", "latent")]:
        if time.time() - t0 > 120:
            return
        m = json.loads(json.dumps(c))
        if name is None:
            m.update(change)
        elif name == "recipe":
            m[name].update(change)
        elif m[name].pop(change, None) is None:
            continue
        if m == c:
            continue
        try:
            evaluate(m)
        except Violation as e:
            c = m
            STAT["failure"] = (c, str(e))
        except Exception:
            pass


def one(c):
    STAT["evaluations"] += 1
    try:
        try:
            nt, labels = evaluate(c)
        except (Violation, NoVerdict):
            raise
        except Exception as e:
            raise Violation(f"{type(e).__name__}: {e}")
    except NoVerdict as e:
        STAT["inconclusive"][str(e)] = STAT["inconclusive"].get(str(e), 0) + 1
        return
    except Violation as e:
        STAT["failure"] = (c, str(e))
        if c["kind"] == "cluster":
            shrink_cluster(c)
            raise Enough
        raise
    if nt:
        k = json.dumps(c, sort_keys=True)
        if k not in STAT["nontrivial"]:
            STAT["nontrivial"].add(k)
            if len(STAT["samples"]) < 4 and len(STAT["nontrivial"]) % 7 == 1:
                STAT["samples"].append(c)
    for l in labels:
        STAT["labels"][l] = STAT["labels"].get(l, 0) + 1


def search(n, sd):
    @seed(sd)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
              print_blob=False, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
    @given(cases)
    def body(c):
        one(c)
    body()


def main():
    if sys.argv[1] == "replay":
        c = json.load(open(sys.argv[2]))["case"]
        try:
            print("pass", evaluate(c))
        except Violation as e:
            print(e)
            print(f"VIOLATION property=C18 replay={sys.argv[2]}")
            return 1
        return 0
    tier = sys.argv[1]
    sd = int(os.environ.get("VERIF_SEED", "1"))
    n = int(os.environ.get("VERIF_CASES", 20000 if tier == "thorough" else 1500))
    t0 = time.time()
    try:
        search(n, sd)
    except (Violation, Enough):
        pass
    wall = time.time() - t0
    rule = ("settings for the estimators handed to a recorder in place of the native module (3 of 6 cases), arrays of "
            "several element types and memory orders, and CSV files, run through the real extension module and "
            "compared bit by bit with the Rust library in its own process, and (1 of 80 cases) clusters of two processes "
            "in one or both roles of which is the package, compared with the program's; non-trivial: at least three settings, or "
            "scores that are not all 0")
    inc = sum(STAT["inconclusive"].values())
    ev = dict(property="C18", tier=tier, seed=sd, level="exploration",
              coverage=dict(evaluations=STAT["evaluations"], distinct_nontrivial=len(STAT["nontrivial"]), rule=rule,
                            samples=STAT["samples"], requested=n, runs_of_the_program=STAT["runs"],
                            classes=STAT["labels"], inconclusive=STAT["inconclusive"]),
              assumptions=["scikit-learn's BaseEstimator is replaced by an empty class",
                           "clusters of two nodes only",
                           "only the generated inputs are covered"],
              wall_s=wall, violations=int(STAT["failure"] is not None))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", "C18.json"), "w"), indent=1)
    print(f"C18: {STAT['evaluations']} cases ({len(STAT['nontrivial'])} non-trivial, {inc} inconclusive) in {wall:.1f} s")
    for k, v in STAT["inconclusive"].items():
        print(f"  inconclusive x{v}: {k}")
    if STAT["failure"]:
        c, msg = STAT["failure"]
        body = json.dumps(dict(property="C18", case=c, message=msg), indent=1)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        import hashlib
        path = os.path.join(ROOT, "replays", "C18-" + hashlib.sha1(body.encode()).hexdigest()[:16] + ".json")
        open(path, "w").write(body)
        print(msg)
        print(f"VIOLATION property=C18 replay={path}")
        return 1
    if not STAT["nontrivial"] or inc * 2 > STAT["evaluations"]:
        print("C18: the search said too little, no verdict")
        return 3
    return 0


if __name__ == "__main__":
    try:
        code = main()
    finally:
        RUST.close()
        PY.close()
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(code)
