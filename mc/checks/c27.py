"""An interrupted dataset download never poisons the cache.

Every call runs in a forked child against a scratch directory, with the network
replaced by a stand-in and deletions confined to the scratch directory.
"""

import errno
import gzip
import hashlib
import io
import os
import pickle
import shutil
import sys
import tempfile
import urllib.error
import urllib.request
import warnings

import numpy as np
import pandas as pd

PROPERTY = "C27"
BOUNDS = {
    "quick": "every file operation of a download as interruption point (killed, killed after a partial write, interrupted, out of space), every truncation of the transfer, all pairs of interruptions from every distinct content the cache can be left with, all ways of naming the cache directory, all call sequences of length 3",
    "thorough": "as quick with interruptions repeated until no new cache content appears and sequences of length 4",
}
MODES = ["kill", "torn", "interrupt", "nospace"]
OPS = {
    "write", "writelines", "flush", "close", "open", "replace", "rename", "remove",
    "unlink", "mkdir", "rmdir", "link", "truncate", "fsync", "sendfile", "__exit__",
}  # fmt: skip
FILES = ("module", "BufferedWriter", "BufferedRandom", "FileIO", "TextIOWrapper")
NAMES = ["ftse100_dataset", "nasdaq_dataset", "sp500_implied_vol_dataset"]
MAXK = 120
CALLS = ["get", "offline", "crash", "broken", "clear", "other"]


def cases(tier):
    for mode in MODES:
        for lo in range(0, MAXK, 8):
            yield ["single", mode, lo, lo + 8]
    for m1 in MODES[1:3] if tier == "quick" else MODES:
        for m2 in MODES[1:3] if tier == "quick" else MODES:
            yield ["again", m1, m2, tier != "quick"]
    n = len(_archive())
    for length in (True, False):
        for lo in range(0, n, 40):
            yield ["truncated", length, lo, min(n, lo + 40)]
    for fault in ("open", "http", "read", "notgzip", "empty"):
        yield ["network", fault]
    for way in ("str", "path", "env", "home", "tilde", "nested"):
        for crash in (False, True):
            yield ["naming", way, crash]
    for name in NAMES:
        yield ["loader", name]
    yield ["bundled"]
    depth = 3 if tier == "quick" else 4
    for a in CALLS:
        for b in CALLS:
            yield ["history", [a, b], depth]


def run_case(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        root = tempfile.mkdtemp(prefix="verif-c27-")
        try:
            _warm(root)
            globals()["do_" + case[0]](ctx, root, *case[1:])
        finally:
            shutil.rmtree(root, ignore_errors=True)
    ctx.trace()
    ctx.outcome(case[0])


_WARM = []


def _warm(root):
    """Import what reading and writing need, so that children need not."""
    if _WARM:
        return
    import joblib

    import skfolio.datasets._base  # noqa: F401

    f = os.path.join(root, "warm")
    with open(f, "wb") as g:
        g.write(_archive())
    with gzip.open(f, mode="rt") as g:
        pd.to_datetime(pd.read_csv(g, index_col=0).index, format="%Y-%m-%d")
    joblib.dump(_prices(), f, compress=6)
    joblib.load(f)
    os.remove(f)
    _WARM.append(1)


def _prices(k=0):
    i = np.arange(14)
    df = pd.DataFrame(
        {f"A{j}": np.round(10 + k + np.sin(i * (j + 1) + k), 6) for j in range(3)},
        index=pd.Index(pd.date_range("2020-01-06", periods=14, freq="B"), name="Date"),
    )
    df.index.freq = None
    df.iloc[3, 1] = np.nan
    return df


def _archive(k=0):
    return gzip.compress(_prices(k).to_csv().encode(), mtime=0)


# ---- stand-ins, installed in forked children only ----------------------------


class _Response(io.RawIOBase):
    def __init__(self, url, data, declared, tick, fail_read):
        super().__init__()
        import email.message

        self._b = io.BytesIO(data)
        self._tick = tick
        self._fail = fail_read
        self.headers = email.message.Message()
        if declared is not None:
            self.headers["Content-Length"] = str(declared)
        self.url, self.status, self.code = url, 200, 200

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getcode(self):
        return 200

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def readable(self):
        return True

    def read(self, n=-1):
        self._tick("network read")
        # small pieces, so that a transfer takes several reads
        n = 150 if n is None or n < 0 and self._fail else n
        out = self._b.read(min(n, 150) if n > 0 else n)
        if self._fail and self._b.tell() > 150:
            raise ConnectionResetError("reset by peer")
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[: len(out)] = out
        return len(out)


def _child(root, job, crash=None, network=None):
    """Run job() in a forked child; crash = (mode, k) interrupts its k-th operation.

    Returns (status, payload, log) with status in done/raised/killed/outside.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = _child_main(root, job, crash, network or {}, w)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            sys.setprofile(None)
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if data:
        return pickle.loads(data)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        return ("killed", None, {})
    return ("broken", f"exit {st}", {})


_DOWNLOADS = ("urlopen",)


def _child_main(root, job, crash, network, w):
    import skfolio.datasets._base  # noqa: F401  (imported before counting)

    log = {"fetched": [], "outside": [], "ops": 0}
    real = os.path.realpath(root)
    # whatever the code falls back on (home, working directory) is scratch as well
    spare = os.path.join(real, "spare")
    os.makedirs(spare, exist_ok=True)
    os.environ["HOME"] = spare
    os.environ.pop("SKFOLIO_DATA", None)
    os.chdir(spare)
    state = {"n": 0, "on": False, "guard": 0}

    def tick(what):
        if not state["on"]:
            return
        k = state["n"]
        state["n"] = k + 1
        log["ops"] = state["n"]
        if crash is not None and k == crash[1]:
            sys.setprofile(None)
            if crash[0] == "torn" and isinstance(what, io.BufferedWriter):
                what.flush()  # what was written so far reaches the disk
            if crash[0] in ("kill", "torn"):
                os._exit(77)
            state["on"] = False
            if crash[0] == "interrupt":
                raise KeyboardInterrupt
            raise OSError(errno.ENOSPC, "No space left on device")

    def inside(path):
        p = os.path.realpath(os.fspath(path))
        ok = p.startswith(real + os.sep)
        if not ok:
            log["outside"].append(str(path))
        return ok

    def guarded(fn, whole=False):
        def g(path, *a, **kw):
            if state["guard"] or kw.get("dir_fd") is not None:
                return fn(path, *a, **kw)
            if not inside(path):
                raise PermissionError(f"deletion outside the cache: {path}")
            if whole:
                state["guard"] += 1
            try:
                return fn(path, *a, **kw)
            finally:
                if whole:
                    state["guard"] -= 1

        return g

    shutil.rmtree = guarded(shutil.rmtree, True)
    for name in ("remove", "unlink", "rmdir"):
        setattr(os, name, guarded(getattr(os, name)))

    def urlopen(url, *a, **kw):
        url = getattr(url, "full_url", url)
        log["fetched"].append(url)
        tick("network open")
        if network.get("off"):
            raise urllib.error.URLError("no network")
        if network.get("http"):
            raise urllib.error.HTTPError(url, 404, "Not Found", None, None)
        base = os.path.basename(url)
        data = _archive(NAMES.index(base[:-7]) if base[:-7] in NAMES else 0)
        declared = len(data) if network.get("length", True) else None
        if "cut" in network:
            data = data[: network["cut"]]
        if network.get("notgzip"):
            data = b"<html>not here</html>"
            declared = len(data)
        if network.get("empty"):
            data, declared = b"", None
        return _Response(url, data, declared, tick, network.get("read"))

    urllib.request.urlopen = urlopen

    def profile(frame, event, arg):
        if event == "c_call" and getattr(arg, "__name__", "") in OPS:
            owner = getattr(arg, "__self__", None)
            if type(owner).__name__ in FILES:
                tick(owner)

    state["on"] = True
    if crash is not None or network.get("count"):
        sys.setprofile(profile)
    try:
        out = ("done", job())
    except BaseException as e:
        out = ("raised", f"{type(e).__name__}: {e}")
    finally:
        sys.setprofile(None)
        state["on"] = False
    if log["outside"]:
        return ("outside", log["outside"], log)
    return (*out, log)


# ---- helpers -------------------------------------------------------------------


def _get(home, name=NAMES[0], **kw):
    def job():
        from skfolio.datasets._base import download_dataset

        return download_dataset(name, data_home=home, **kw)

    return job


def _same(df, k=0):
    ref = _prices(k)
    return (
        isinstance(df, pd.DataFrame)
        and list(df.columns) == list(ref.columns)
        and df.index.equals(ref.index)
        and df.index.name == "Date"
        and np.allclose(df.to_numpy(), ref.to_numpy(), rtol=1e-12, equal_nan=True)
    )


def _recovers(ctx, root, home, what, name=NAMES[0]):
    """A later request works, and afterwards the cache is enough."""
    k = NAMES.index(name)
    st, df, log = _child(root, _get(home, name))
    ctx.step()
    ctx.expect(
        st == "done",
        "poisoned",
        lambda: f"{what}: the next request ended with {st}: {df}",
    )
    ctx.expect(_same(df, k), "wrong-data", lambda: f"{what}: the next request gave\n{df}")
    st, df, log = _child(root, _get(home, name), network={"off": True})
    ctx.step()
    ctx.expect(
        st == "done" and _same(df, k) and not log["fetched"],
        "not-cached",
        lambda: f"{what}: then without network: {st} {df} {log}",
    )


def _wipe(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p):
            shutil.rmtree(p)
        else:
            os.remove(p)


def _first(ctx, st, df, what):
    """An interrupted request either reports it or gives the complete data."""
    ctx.expect(
        st in ("killed", "raised") or (st == "done" and _same(df)),
        "interrupted-result",
        lambda: f"{what}: ended with {st}: {df}",
    )


def do_single(ctx, root, mode, lo, hi):
    home = os.path.join(root, "cache")
    seen = set()
    for k in range(lo, hi):
        _wipe(root)
        st, df, log = _child(root, _get(home), crash=(mode, k))
        ctx.step()
        what = f"download ended by {mode} at operation {k}"
        _first(ctx, st, df, what)
        disk = _disk(home)
        if disk not in seen:
            _recovers(ctx, root, home, what)
        seen.add(disk)
        ctx.state(mode, k)
        if st == "done" and log["ops"] <= k:
            break  # there are no further operations


def _disk(home):
    """The files of the cache and their contents."""
    out = []
    for d, _, fs in os.walk(home):
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as g:
                out.append((os.path.relpath(os.path.join(d, f), home), g.read()))
    return tuple(sorted(out)) if os.path.isdir(home) else None


def _restore(home, disk):
    shutil.rmtree(home, ignore_errors=True)
    if disk is not None:
        os.makedirs(home)
        for f, data in disk:
            os.makedirs(os.path.dirname(os.path.join(home, f)), exist_ok=True)
            with open(os.path.join(home, f), "wb") as g:
                g.write(data)


def _interrupted(ctx, root, home, disk, mode, ks, what):
    """Contents the cache can be left with when a download starting from disk ends early."""
    out = {}
    for k in ks:
        _restore(home, disk)
        st, df, log = _child(root, _get(home), crash=(mode, k))
        ctx.step()
        _first(ctx, st, df, f"{what} {mode} at operation {k}")
        out.setdefault(_disk(home), f"{what} {mode} at operation {k};")
        if st == "done" and log["ops"] <= k:
            break
    return out


def do_again(ctx, root, m1, m2, closure):
    """Interruptions of downloads that follow interrupted downloads."""
    home = os.path.join(root, "cache")
    todo = _interrupted(ctx, root, home, None, m1, range(MAXK), "download ended by")
    seen = dict(todo)
    while todo:
        found = {}
        for disk, what in todo.items():
            ctx.state(m1, m2, hashlib.md5(repr(disk).encode()).hexdigest())
            nxt = _interrupted(
                ctx, root, home, disk, m2, range(MAXK), what + " then by"
            )
            for d, w in nxt.items():
                if d not in seen:
                    seen[d] = found[d] = w
        todo = found if closure else {}
    for disk, what in seen.items():
        _restore(home, disk)
        _recovers(ctx, root, home, what)


def do_truncated(ctx, root, length, lo, hi):
    home = os.path.join(root, "cache")
    for cut in range(lo, hi):
        _wipe(root)
        st, df, log = _child(root, _get(home), network={"cut": cut, "length": length})
        ctx.step()
        what = f"transfer cut after {cut} bytes{'' if length else ' of unknown length'}"
        ctx.expect(
            st == "raised", "truncated-accepted", lambda: f"{what}: ended with {st}: {df}"
        )
        _recovers(ctx, root, home, what)
        ctx.state(length, cut)


def do_network(ctx, root, fault):
    home = os.path.join(root, "cache")
    net = {"open": {"off": True}}.get(fault, {fault: True})
    for n in (1, 2, 3):
        _wipe(root)
        for _ in range(n):
            st, df, log = _child(root, _get(home), network=net)
            ctx.step()
            ctx.expect(
                st == "raised", "fault-accepted", lambda: f"{fault}: ended with {st}: {df}"
            )
        _recovers(ctx, root, home, f"{n} failed transfers ({fault})")
        ctx.state(fault, n)


def do_naming(ctx, root, way, crash):
    from pathlib import Path

    deep = os.path.join(root, "a", "b", "c")
    user = os.path.join(deep, "user")
    keep = [
        os.path.join(p, "keep.txt")
        for p in (root, os.path.join(root, "a"), deep, user)
    ]
    os.makedirs(user)
    for f in keep:
        with open(f, "w") as g:
            g.write("x")
    spot = {
        "str": os.path.join(deep, "cache"),
        "path": os.path.join(deep, "cache"),
        "env": os.path.join(deep, "envcache"),
        "home": os.path.join(user, "skfolio_data"),
        "tilde": os.path.join(user, "my_data"),
        "nested": os.path.join(deep, "x", "y", "cache"),
    }[way]
    arg = {
        "str": spot,
        "path": Path(spot),
        "env": None,
        "home": None,
        "tilde": "~/my_data",
        "nested": spot,
    }[way]

    def env():
        os.environ["HOME"] = user
        os.environ.pop("SKFOLIO_DATA", None)
        if way == "env":
            os.environ["SKFOLIO_DATA"] = spot

    def run(fn):
        def job():
            env()
            from skfolio.datasets import _base

            return fn(_base)

        return job

    def tree():
        return sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs
        )

    before = tree()
    if crash:
        _child(root, run(lambda b: b.download_dataset(NAMES[0], arg)), crash=("torn", 12))
    st, df, log = _child(root, run(lambda b: b.download_dataset(NAMES[0], arg)))
    ctx.expect(st == "done" and _same(df), "naming", lambda: f"{way}: {st} {df}")
    new = [f for f in tree() if f not in before]
    ctx.expect(
        new and all(os.path.dirname(f) == spot for f in new),
        "location",
        lambda: f"{way}: files {new} for the cache {spot}",
    )
    st, home, log = _child(root, run(lambda b: os.fspath(b.get_data_home(arg))))
    ctx.expect(
        st == "done" and os.path.realpath(home) == os.path.realpath(spot),
        "home",
        lambda: f"{way}: data home {home}, expected {spot}",
    )
    st, out, log = _child(
        root, run(lambda b: b.download_dataset(NAMES[0], arg)), network={"off": True}
    )
    ctx.expect(st == "done" and _same(out), "not-cached", lambda: f"{way}: {st} {out}")
    st, out, log = _child(root, run(lambda b: b.clear_data_home(arg)))
    ctx.expect(
        st == "done" and not os.path.exists(spot) or (st == "done" and not os.listdir(spot)),
        "clear",
        lambda: f"{way}: clearing {spot} ended with {st}: {out}",
    )
    ctx.expect(
        [f for f in tree() if f in before] == before,
        "clear-more",
        lambda: f"{way}: clearing left {tree()} of {before}",
    )
    st, out, log = _child(
        root, run(lambda b: b.download_dataset(NAMES[0], arg, download_if_missing=False))
    )
    ctx.expect(
        st == "raised" and out.startswith(("OSError", "FileNotFoundError")),
        "missing",
        lambda: f"{way}: missing dataset ended with {st}: {out}",
    )
    ctx.state(way, crash)
    ctx.step(6)


def do_loader(ctx, root, name):
    home = os.path.join(root, "cache")
    k = NAMES.index(name)

    def load(**kw):
        def job():
            import skfolio.datasets as sd

            return getattr(sd, "load_" + name)(data_home=home, **kw)

        return job

    st, out, log = _child(root, load(download_if_missing=False))
    ctx.expect(
        st == "raised" and not log["fetched"],
        "missing",
        lambda: f"{name}: missing with downloads disabled: {st} {out} {log}",
    )
    st, out, log = _child(root, load())
    ctx.expect(
        st == "done"
        and _same(out, k)
        and log["fetched"]
        == [
            f"https://github.com/skfolio/skfolio-datasets/raw/main/datasets/{name}.csv.gz"
        ],
        "loader",
        lambda: f"{name}: {st} {out} {log}",
    )
    for kw in ({}, {"download_if_missing": False}):
        st, out, log = _child(root, load(**kw), network={"off": True})
        ctx.expect(
            st == "done" and _same(out, k) and not log["fetched"],
            "not-cached",
            lambda: f"{name}: cached copy {kw}: {st} {out} {log}",
        )
        ctx.state(name, str(kw))
    ctx.step(4)


def do_bundled(ctx, root):
    """The datasets shipped with the package are as documented."""
    import skfolio.datasets as sd

    for name, shape, cols, first, last in (
        ("sp500_dataset", (8313, 20), ["AAPL", "AMD", "BAC"], "1990-01-02", "2022-12-28"),
        ("sp500_index", (8313, 1), ["SP500"], "1990-01-02", "2022-12-28"),
        ("factors_dataset", (2264, 5), ["MTUM", "QUAL", "SIZE"], "2014-01-02", "2022-12-28"),
    ):
        df = getattr(sd, "load_" + name)()
        ctx.expect(
            df.shape == shape
            and list(df.columns[: len(cols)]) == cols
            and df.index.is_monotonic_increasing
            and df.index.is_unique
            and str(df.index[0].date()) == first
            and str(df.index[-1].date()) == last
            and bool((df > 0).all().all()),
            "bundled",
            lambda: f"{name}: {df.shape} {list(df.columns)} {df.index[[0, -1]]}",
        )
        ctx.state(name)


def do_history(ctx, root, prefix, depth):
    import itertools

    home = os.path.join(root, "cache")
    for rest in itertools.product(CALLS, repeat=depth - len(prefix)):
        _wipe(root)
        seq = [*prefix, *rest]
        cached = {0: False, 1: False}
        for i, c in enumerate(seq):
            what = f"{c} after {seq[:i]}"
            if c in ("get", "other"):
                k = 0 if c == "get" else 1
                st, df, log = _child(root, _get(home, NAMES[k]))
                ctx.expect(
                    st == "done" and _same(df, k) and len(log["fetched"]) == (not cached[k]),
                    "history",
                    lambda: f"{what}: {st} {df} {log}",
                )
                cached[k] = True
            elif c == "offline":
                st, df, log = _child(
                    root, _get(home, download_if_missing=False), network={"off": True}
                )
                ok = st == "done" and _same(df) if cached[0] else st == "raised"
                ctx.expect(
                    bool(ok) and not log["fetched"], "history", lambda: f"{what}: {st} {df}"
                )
            elif c in ("crash", "broken"):
                st, df, log = _child(
                    root,
                    _get(home),
                    crash=("torn", 12) if c == "crash" else None,
                    network={"read": True} if c == "broken" else None,
                )
                if cached[0]:
                    ctx.expect(
                        st == "killed" or (st == "done" and _same(df)),
                        "history",
                        lambda: f"{what}: {st} {df}",
                    )
                elif st == "done":
                    cached[0] = True
                else:
                    # an interruption may come before or after the data was stored
                    st, df, log = _child(
                        root, _get(home, download_if_missing=False), network={"off": True}
                    )
                    ctx.expect(
                        st == "raised"
                        and str(df).startswith(("OSError", "FileNotFoundError"))
                        or (st == "done" and _same(df)),
                        "history",
                        lambda: f"offline after {seq[: i + 1]}: {st} {df}",
                    )
                    cached[0] = st == "done"
            else:

                def clear():
                    from skfolio.datasets._base import clear_data_home

                    clear_data_home(home)

                st, df, log = _child(root, clear)
                ctx.expect(st == "done", "history", lambda: f"{what}: {st} {df}")
                cached = {0: False, 1: False}
            ctx.step()
        ctx.state(tuple(seq))
