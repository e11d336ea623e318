"""C16: the dataset cache is all-or-nothing under download faults and crashes."""
import contextlib
import copy
import gzip
import importlib.util
import io
import os
import pickle
import random
import shutil
import sys
import tarfile
import tempfile
import zipfile

import numpy as np

from sim.core import Violation
from sim.fsworld import SimCrash, World

REPO = os.environ.get("VERIF_REPO", "/repo")
KINDS = ["mnist", "german", "boston", "protein", "bow", "bow_sparse", "bow_mix",
         "movielens", "mnist", "german", "bow", "bow_mix"]


# histories that always run (those of the known findings, first)
FIXED = [("german", {"net": {"0": {"short": .6}}}),
         ("mnist", {"net": {"0": {"reset": .3}}}),
         ("bow", {"crash": 5, "tear": .5}), ("bow", {"crash": 3, "tear": .5}),
         ("bow", {"crash": 4, "tear": .5}),
         ("cifar", {"crash": 17, "tear": .5}),
         ("cifar", {"crash": 25, "tear": .5})]


def gen(seed, tier):
    i = seed % 1000003
    if i < len(FIXED):
        return {"seed": seed, "kind": FIXED[i][0], "size": 30, "clean": 2,
                "lives": [{"plan": FIXED[i][1], "same": False, "call": 0}]}
    r = random.Random("c16-%d" % seed)
    kind = "cifar" if r.random() < 0.02 else r.choice(KINDS)
    lives = []
    for i in range(r.randrange(1, 5)):
        p = {}
        how = r.choice(["crash", "crash", "crash", "full", "eio", "net", "net",
                        "none"])
        big = r.random() < 0.3
        if how == "crash":
            p = {"crash": r.randrange(60 if big and kind in ("cifar", "mnist") else 7),
                 "tear": r.choice([0, .25, .5, .99, 1])}
        elif how == "full":
            p = {"full": r.randrange(60 if big and kind in ("cifar", "mnist") else 7),
                 "span": r.choice([1, 3, 10 ** 6]),
                 "tear": r.choice([0, .5, 1])}
        elif how == "eio":
            p = {"eio": r.randrange(60 if big and kind in ("cifar", "mnist") else 7),
                 "tear": r.choice([0, .5, 1])}
        elif how == "net":
            k = str(r.choice([0, 0, 1]))
            p = {"net": {k: r.choice([
                {"refuse": True}, {"reset": r.random()},
                {"short": r.choice([0, r.random(), r.random(), .99])}])}}
        else:
            p = {"net": {"0": {"length": r.random() < 0.5}}}
        # does the next attempt come from the same process?
        lives.append({"plan": p, "same": r.random() < 0.4,
                      "call": r.randrange(2)})
    return {"seed": seed, "kind": kind, "lives": lives,
            "size": r.choice([30, 60, 900]), "clean": r.choice([1, 2, 3])}


def shrink(sc):
    for i in range(len(sc["lives"])):
        c = copy.deepcopy(sc)
        del c["lives"][i]
        yield c
    for i, l in enumerate(sc["lives"]):
        if l["same"]:
            c = copy.deepcopy(sc)
            c["lives"][i]["same"] = False
            yield c
        for k in ("crash", "full", "eio"):
            if l["plan"].get(k):
                c = copy.deepcopy(sc)
                c["lives"][i]["plan"][k] = l["plan"][k] // 2
                yield c
    for k, v in (("clean", 1), ("size", 30)):
        if sc[k] != v:
            c = copy.deepcopy(sc)
            c[k] = v
            yield c


def signature(sc):
    return repr((sc["kind"], sc["lives"], sc["size"]))


class Full(object):
    """pickles as an instruction to build a large constant array"""

    def __init__(self, n, v):
        self.n, self.v = n, v

    def __reduce__(self):
        return np.full, ((self.n, 3072), self.v, np.uint8)


class Data(object):
    """The server's content and what a full load yields."""

    def __init__(self, sc):
        self.sc, self.k, n = sc, sc["kind"], sc["size"]
        g = np.random.default_rng(sc["seed"])
        self.files = {}
        if self.k == "mnist":
            sets = []
            for m in (n, n // 2, n // 3):
                t = np.arange(m) % 10
                sets.append((g.integers(0, 256, (m, 7)).astype("float32"), t))
            self.sets = sets
            self.files["mnist.pkl.gz"] = gzip.compress(pickle.dumps(sets, 2),
                                                       mtime=0)
        elif self.k == "german":
            self.a = g.integers(0, 9, (n, 25)).astype(float)
            self.files["german.data-numeric"] = self.txt(self.a, " ")
        elif self.k == "boston":
            self.a = g.integers(0, 999, (n, 14)).astype("float32")
            self.files["housing.data"] = self.txt(self.a, " ")
        elif self.k == "protein":
            self.a = g.integers(0, 999, (n, 10)).astype("float32")
            self.files["CASP.csv"] = b"a,b,c,d,e,f,g,h,i,j\n" + \
                self.txt(self.a, ",")
        elif self.k.startswith("bow"):
            D, V = 7, 11
            self.a = g.integers(0, 3, (D, V)).astype("float32")
            idx = np.argwhere(self.a > 0)
            t = "%d\n%d\n%d\n" % (D, V, len(idx)) + "".join(
                "%d %d %d\n" % (i + 1, j + 1, int(self.a[i, j]))
                for i, j in idx)
            self.vocab = ["word%d" % i for i in range(V)]
            self.files["docword.nips.txt.gz"] = gzip.compress(t.encode(),
                                                              mtime=0)
            self.files["vocab.nips.txt"] = "\n".join(self.vocab).encode()
        elif self.k == "movielens":
            self.a = np.stack([g.integers(0, 20, n), g.integers(0, 30, n),
                               g.integers(1, 6, n)], 1)
            b = io.BytesIO()
            with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
                z.writestr(zipfile.ZipInfo("ml-1m/ratings.dat"), "\n".join(
                    "%d::%d::%d::0" % (u + 1, m + 1, r)
                    for u, m, r in self.a))
            self.files["ml-1m.zip"] = b.getvalue()
        else:
            b = io.BytesIO()
            with tarfile.open(fileobj=b, mode="w:gz") as t:
                order = [4, 0, 3, 2, 5, 1]
                for i in order:
                    n_ = "test_batch" if i == 0 else "data_batch_%d" % i
                    d = pickle.dumps({"data": Full(10000, 10 + i),
                                      "labels": [i] * 10000}, 2)
                    ti = tarfile.TarInfo("cifar-10-batches-py/" + n_)
                    ti.size = len(d)
                    t.addfile(ti, io.BytesIO(d))
            self.files["cifar-10-python.tar.gz"] = b.getvalue()

    @staticmethod
    def txt(a, sep):
        return ("\n".join(sep.join("%g" % v for v in r) for r in a) +
                "\n").encode()

    def server(self, url):
        return self.files.get(url.rsplit("/", 1)[1])

    def load(self, m, root, which):
        d = os.path.join(root, "data")
        k = self.k
        if k == "mnist":
            return m.load_mnist_realval(os.path.join(d, "mnist.pkl.gz"),
                                        one_hot=False)
        if k == "german":
            return m.load_uci_german_credits(os.path.join(d, "g"), 20)
        if k == "boston":
            return m.load_uci_boston_housing(os.path.join(d, "housing.data"))
        if k == "protein":
            return m.load_uci_protein_data(os.path.join(d, "protein.data"))
        if k == "movielens":
            return m.load_movielens1m(os.path.join(d, "ml-1m.zip"))
        if k == "cifar":
            return m.load_cifar10(os.path.join(d, "cifar10.tar.gz"),
                                  normalize=False, one_hot=False)
        p = os.path.join(d, "nips")
        if k == "bow_sparse" or (k == "bow_mix" and which):
            x, v = m.load_uci_bow_sparse("nips", p)
            a = np.zeros_like(self.a)
            for i, row in enumerate(x):
                for j, c in row:
                    a[i, j] += c
            return (a if len(x) == len(self.a) else None), v
        return m.load_uci_bow("nips", p)

    def full(self, out):
        """Is this the complete data set?"""
        k = self.k

        def rows(xs, ref):
            x = np.concatenate([np.asarray(v) for v in xs])
            if x.shape != ref.shape:
                return False
            return np.array_equal(x[np.lexsort(x.T)], ref[np.lexsort(ref.T)])
        if k == "mnist":
            want = [v for s in self.sets for v in s]
            return all(np.array_equal(a, b) for a, b in zip(out, want))
        if k == "german":
            x = np.concatenate([out[0], out[2]])
            y = np.concatenate([out[1], out[3]]) + 1
            return np.array_equal(np.column_stack([x, y]), self.a)
        if k in ("boston", "protein"):
            ps = [np.column_stack([out[i], out[i + 1]] if k == "boston" else
                                  [out[i + 1], out[i]]) for i in (0, 2, 4)]
            return rows(ps, self.a)
        if k == "movielens":
            return rows(out[2:], self.a)
        if k == "cifar":
            return out[0].shape == (50000, 32, 32, 3) and \
                out[2].shape == (10000, 32, 32, 3) and all(
                    (out[0][(i - 1) * 10000:i * 10000] == 10 + i).all()
                    for i in range(1, 6)) and (out[2] == 10).all()
        a, v = out
        return a is not None and np.array_equal(a, self.a) and v == self.vocab


    def dirty(self, root):
        """Files that an interrupted write left under a final name: (cause,
        path).  A file counts only if it is a proper prefix of what the
        finished write would have left."""
        out = []
        top = os.path.join(root, "data")
        if not os.path.isdir(top):
            return out
        npy = None
        if self.k.startswith("bow"):
            b = io.BytesIO()
            np.save(b, self.a)
            npy = b.getvalue()
        for n in sorted(os.listdir(top)):
            f = os.path.join(top, n)
            if os.path.isdir(f):
                if self.k == "cifar" and self.half_extracted(f):
                    out.append(("partial-extraction", f))
                continue
            with open(f, "rb") as h:
                c = h.read()
            if n.endswith(".npy"):
                if npy is not None and len(c) < len(npy) and \
                        npy.startswith(c):
                    out.append(("partial-npy", f))
            elif any(len(c) < len(b) and b.startswith(c)
                     for b in self.files.values()):
                out.append(("partial-download", f))
        return out

    def half_extracted(self, d):
        have = {n: os.path.getsize(os.path.join(d, n))
                for n in os.listdir(d)}
        with tarfile.open(fileobj=io.BytesIO(
                self.files["cifar-10-python.tar.gz"])) as t:
            want = {os.path.basename(m.name): m.size for m in t}
        return have != want and all(
            n in want and v <= want[n] for n, v in have.items())


def module():
    """a fresh process's copy of the loaders"""
    spec = importlib.util.spec_from_file_location(
        "c16_dataset", os.path.join(REPO, "examples", "utils", "dataset.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run(sc, ctx):
    d = Data(sc)
    root = tempfile.mkdtemp(prefix="c16-")
    try:
        _run(sc, ctx, d, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(sc, ctx, d, root):
    w = World(root, d.server, ctx.faults)
    lives = list(sc["lives"]) + [{"plan": {}, "same": i > 0, "call": i % 2}
                                 for i in range(sc["clean"])]
    mod = None
    done = set()
    first = None
    for i, l in enumerate(lives):
        if mod is None or not l["same"]:
            mod = ctx.lib(module)
        # what earlier, interrupted attempts left behind
        causes = d.dirty(root)
        try:
            mod = attempt(sc, ctx, d, root, w, mod, i, l, done)
        except Violation as v:
            if not causes:
                raise
            # explained by one of the ways of being interrupted in
            # known_findings.json (if it is listed there); do what a user has
            # to do then - remove the file, start again - and go on
            v.data["cause"] = causes[0][0]
            first = first or v
            ctx.probes["cause-" + causes[0][0]] += 1
            for _, f in causes + d.dirty(root):
                if os.path.isdir(f):
                    shutil.rmtree(f)
                elif os.path.exists(f):
                    os.remove(f)
            mod = None
            done = set()
    if first is not None:
        raise first


def attempt(sc, ctx, d, root, w, mod, i, l, done):
    w.begin(i, l["plan"])
    np.random.seed(sc["seed"] % 2 ** 32)
    out, err = None, None
    with w, contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        try:
            out = d.load(mod, root, l["call"])
        except SimCrash:
            err = "crash"
        except Exception as e:  # noqa: BLE001
            err = "%s: %s" % (type(e).__name__, e)
    if w.dead:
        mod = None
        if out is not None:
            raise AssertionError("returned after a crash")
    n = len([x for x in w.downloads if x[0] == i])
    ctx.stats["runs"] += 1
    ctx.stats["steps"] += w.n
    ctx.note(i, w.n, w.faulted, err is None, n)
    key = l["call"] if d.k == "bow_mix" else 0
    if err is None:
        ctx.probes["loaded-after-fault" if w.faulted else "loaded"] += 1
        if not d.full(out):
            raise Violation(
                "partial", "%s: attempt %d silently returned incomplete "
                "data (%s)" % (d.k, i, "faults in this attempt" if
                               w.faulted else "after faults in earlier "
                               "attempts"), dataset=d.k)
        if key in done and n and d.k != "bow_mix":
            raise Violation("again", "%s: attempt %d downloaded %s again "
                            "after a complete load" % (
                                d.k, i, [u for j, u in w.downloads
                                         if j == i]), dataset=d.k)
        done.add(key)
    elif not w.faulted:
        raise Violation(
            "stuck", "%s: attempt %d fails with working network and disk: "
            "%s" % (d.k, i, err), dataset=d.k)
    else:
        ctx.probes["failed-under-fault"] += 1
    return mod
