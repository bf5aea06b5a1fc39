"""Run-time contract: the dataset cache lock excludes, and maintenance touches exactly what it may."""
import hashlib
import os
import shutil
import sqlite3
import sys
import time
from pathlib import Path

import numpy as np

from bounded.c08 import some_dataset
from bounded.crash import _is_write
from bounded.util import same
from modssc.data_loader import cache as dcache
from modssc.data_loader import manifest as mani
from modssc.data_loader.services import service as svc
from modssc.data_loader.types import DatasetIdentity
from vf.gen import Violation

RULE = "schedules of lock acquisitions and releases (also inside one another's file operations) and histories of cache operations; distinct by schedule or history"
EXPLANATION = ("Lock schedules run the real lock of several holders against a specification lock; cache histories compare the real index and directory tree "
               "with a specification state after every operation.")


def s_schedule(g):
    """sequential schedules: enter, leave normally, leave by exception"""
    lay = dcache.CacheLayout(root=Path(g.tmp) / "c")
    fps = ["a" * 8, "b" * 8]
    held, log = {}, []
    for _ in range(g.int(3, 14)):
        actor, fp = g.int(0, 3), g.pick(fps)
        mine = held.get(fp)
        if mine is None or mine[0] != actor:
            cm = dcache.cache_lock(lay, fp)
            log.append(("enter", actor, fp))
            g.note(schedule=log)
            try:
                cm.__enter__()
                got = True
            except OSError:
                got = False
            g.require(got == (mine is None), "a lock is granted twice" if got else "a free lock is refused")
            if got:
                held[fp] = (actor, cm)
        else:
            how = g.pick(["leave", "error", "interrupt"])
            log.append((how, actor, fp))
            g.note(schedule=log)
            cm = held.pop(fp)[1]
            if how == "leave":
                cm.__exit__(None, None, None)
            else:
                e = RuntimeError("x") if how == "error" else KeyboardInterrupt()
                try:
                    sw = cm.__exit__(type(e), e, None)
                except BaseException as x:  # noqa: BLE001
                    g.require(x is e, "the lock replaces the holder's exception")
                    sw = False
                g.require(not sw, "the lock swallows the holder's exception")
        for fp in fps:
            g.require(lay.lock_path(fp).exists() == (fp in held), "the lock file of a holder is removed" if fp in held else "a released lock is left behind")
    for _a, cm in held.values():
        cm.__exit__(None, None, None)


_HOOK = {"fn": None, "n": 0, "at": None}
_INSTALLED = []


def _hook(event, args):
    fn = _HOOK["fn"]
    if fn is None or not _is_write(event, args):
        return
    _HOOK["n"] += 1
    if _HOOK["n"] - 1 == _HOOK["at"]:
        _HOOK["fn"] = None
        fn()


def during(action, at, intruder):
    """run intruder just before the at-th file operation of action"""
    if not _INSTALLED:
        sys.addaudithook(_hook)
        _INSTALLED.append(1)
    _HOOK.update(fn=intruder, n=0, at=at)
    try:
        return action()
    finally:
        _HOOK["fn"] = None


def s_interleave(g):
    """another holder acts in the middle of an acquisition or a release"""
    lay = dcache.CacheLayout(root=Path(g.tmp) / "c")
    fp = "f" * 8
    if g.bool(0.7):
        dcache.ensure_layout(lay)
    holders = set()

    def acquire(name):
        cm = dcache.cache_lock(lay, fp)
        try:
            cm.__enter__()
        except OSError:
            return None
        holders.add(name)
        g.require(len(holders) == 1, f"two holders of one lock: {sorted(holders)}")
        return cm

    def release(name, cm, err):
        # the holder counts as holding until it starts to let go
        holders.discard(name)
        if err:
            e = RuntimeError("x")
            try:
                cm.__exit__(RuntimeError, e, None)
            except RuntimeError:
                pass
        else:
            cm.__exit__(None, None, None)

    at, phase, err = g.int(0, 9), g.pick(["enter", "enter", "contended"]), g.bool()
    keep = g.bool()
    g.note(at=at, phase=phase, error=err, intruder_keeps=keep)
    got = {}

    def intruder():
        cm = acquire("intruder")
        got["cm"] = cm
        if cm is not None and not keep:
            release("intruder", cm, err)
            got["cm"] = None

    first = acquire("first") if phase == "contended" else None
    a = during(lambda: acquire("a"), at, intruder)
    if phase == "contended":
        g.require(a is None and got.get("cm") is None, "a held lock is granted")
        g.require(lay.lock_path(fp).exists(), "a refused acquisition removes the holder's lock")
        release("first", first, err)
    for name, cm in (("a", a), ("intruder", got.get("cm"))):
        if cm is not None:
            g.require(lay.lock_path(fp).exists(), "a holder's lock file is gone")
            g.require(acquire("late") is None, "a held lock is granted")
            release(name, cm, err)
    g.require(not lay.lock_path(fp).exists(), "the lock is left behind")
    cm = acquire("after")
    g.require(cm is not None, "a released lock cannot be taken")
    release("after", cm, False)


def s_race(g):
    """real processes racing for one lock"""
    root = Path(g.tmp) / "c"
    lay = dcache.CacheLayout(root=root)
    dcache.ensure_layout(lay)
    n, rounds = g.int(2, 4), 12
    g.note(processes=n)
    flag = str(root / "critical")
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            bad = 0
            try:
                rng = np.random.default_rng(g.seed + i)
                for _ in range(rounds):
                    try:
                        with dcache.cache_lock(lay, "x"):
                            try:
                                os.mkdir(flag)
                            except FileExistsError:
                                bad = 1
                            time.sleep(float(rng.random()) * 0.002)
                            try:
                                os.rmdir(flag)
                            except OSError:
                                bad = 1
                            if rng.random() < 0.3:
                                raise KeyError("x")
                    except (FileExistsError, KeyError, sqlite3.OperationalError):
                        time.sleep(float(rng.random()) * 0.001)
            except BaseException:  # noqa: BLE001
                bad = 2
            os._exit(bad)
        pids.append(pid)
    codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
    g.require(1 not in codes, "two processes held the lock at once")
    g.require(2 not in codes, "locking fails in an unexpected way")
    g.require(not lay.lock_path("x").exists(), "the lock is left behind")


URIS = ["toy:a", "toy:a/b", "toy:A", "toy:a%", "toy:_", "toy:b"]


class Stub:
    def __init__(self, ds):
        self.ds = ds

    def resolve(self, parsed, *, options):
        o = dict(options)
        return DatasetIdentity(provider=parsed.provider, canonical_uri=f"toy:{parsed.reference}", dataset_id=parsed.reference, version=o.get("version"), modality=o.get("modality", "tabular"),
                               task="classification", resolved_kwargs=o)

    def load_canonical(self, identity, *, raw_dir):
        if isinstance(self.ds, Exception):
            raise self.ds
        return self.ds


def tree(root):
    """content of every file below root, without the index"""
    out = {}
    for p in sorted(root.rglob("*")):
        if p.is_file() and not p.name.startswith("index.sqlite"):
            out[str(p.relative_to(root))] = hashlib.md5(p.read_bytes()).hexdigest()
    return out


def s_history(g):
    root = Path(g.tmp) / "c"
    lay = svc._layout(root)
    keep = (svc.create_provider, mani.utc_now_iso)
    clock = {"t": 0}
    model, log = {}, []

    def now():
        return f"2024-01-{1 + clock['t'] // 86400:02d}T{clock['t'] // 3600 % 24:02d}:{clock['t'] // 60 % 60:02d}:{clock['t'] % 60:02d}" + clock["frac"] + "+00:00"

    def variant(uri, opts):
        parsed = svc.parse_uri(uri)
        return Stub(None).resolve(parsed, options=opts)

    try:
        mani.utc_now_iso = now
        for _ in range(g.int(3, 14)):
            clock["t"] += g.pick([0, 1, 1, 3700, 90000])
            clock["frac"] = g.pick(["", ".5", ".000001"])
            op = g.pick(["store", "store", "store", "store", "force", "fail", "purge", "gc", "rebuild", "drop_index", "lose_dir", "lose_manifest", "purge_fp", "junk", "locked"])
            uri, opts = g.pick(URIS), g.pick([{}, {"version": "1"}, {"version": "2"}, {"seed": 3}, {"modality": None, "q": [1]}])
            ident = variant(uri, opts)
            fp = ident.fingerprint(schema_version=svc.SCHEMA_VERSION)
            log.append((op, uri, opts) if op in ("store", "force", "fail", "purge", "locked") else op)
            g.note(history=log)
            before = tree(root)
            gone = set()
            if op in ("store", "force"):
                svc.create_provider = lambda name, d=some_dataset(g, "t"): Stub(d)
                svc.download_dataset(uri, cache_dir=root, force=op == "force", options=opts)
                if op == "force" or fp not in model:
                    model[fp] = (uri, now(), ident)
                    # the stored entry itself may change
                    before = {p: h for p, h in before.items() if fp not in p}
            elif op in ("fail", "locked"):
                svc.create_provider = lambda name: Stub(ValueError("no network"))
                if op == "locked":
                    svc.create_provider = lambda name: Stub(some_dataset(g, "t"))
                    lay.lock_path(fp).write_text("1")
                    e = g.raises(lambda: svc.download_dataset(uri, cache_dir=root, force=True, options=opts), OSError, "a locked entry was overwritten")
                    g.require(lay.lock_path(fp).exists(), "another process's lock was removed")
                    lay.lock_path(fp).unlink()
                else:
                    e = g.raises(lambda: svc.download_dataset(uri, cache_dir=root, force=True, options=opts), ValueError, "a failing provider went unnoticed")
                g.require(not list(lay.locks_root.iterdir()), "a lock is left behind after a failure")
            elif op == "purge":
                r = dcache.purge_dataset(lay, uri)
                gone = {f for f, m in model.items() if m[0] == uri}
                g.require(sorted(r) == sorted(gone), f"purging a dataset removed {len(r)} entries instead of {len(gone)}")
            elif op == "purge_fp":
                f = g.pick(sorted(model)) if model and g.bool(0.8) else "0" * 64
                dcache.purge_fingerprint(lay, f)
                gone = {f} & set(model)
            elif op == "gc":
                r = dcache.gc_keep_latest(lay)
                latest = {}
                for f, m in model.items():
                    latest[m[0]] = max(latest.get(m[0], ""), stamp(m[1]))
                g.require(len(set(r)) == len(r) and set(r) <= set(model), "keeping the latest removes something it does not know")
                left = {}
                for f in set(model) - set(r):
                    left.setdefault(model[f][0], []).append(f)
                g.require(sorted(left) == sorted(latest), "keeping the latest removes every variant of a dataset")
                for u, fs in left.items():
                    g.require(len(fs) == 1, "keeping the latest keeps several variants")
                    g.require(stamp(model[fs[0]][1]) == latest[u], "keeping the latest keeps an older variant")
                gone = set(r)
            elif op in ("rebuild", "drop_index", "lose_dir", "lose_manifest", "junk"):
                if op == "drop_index":
                    lay.index_path.unlink()
                elif op == "junk":
                    (lay.manifests_root / "broken.json").write_text("{")
                    (lay.processed_root / "broken").mkdir(exist_ok=True)
                    before = tree(root)
                elif op.startswith("lose") and model:
                    f = g.pick(sorted(model))
                    if op == "lose_dir":
                        shutil.rmtree(lay.processed_dir(f))
                    else:
                        lay.manifest_path(f).unlink()
                    gone = None
                    before = tree(root)
                    del model[f]
                    if g.bool(0.3):
                        con = sqlite3.connect(lay.index_path)
                        con.execute("DELETE FROM variants")
                        con.commit()
                        con.close()
                dcache.rebuild_index(lay)
                if gone is None:
                    gone = set()
            after = tree(root)
            if gone is not None:
                # nothing but the removed entries (and what a new store added) changes
                mine = lambda p: any(p == f"manifests/{f}.json" or p.startswith(f"processed/{f}/") for f in gone)  # noqa: E731
                for p, h in before.items():
                    if mine(p):
                        g.require(p not in after, f"a removed entry leaves {p.split('/')[0]}/... behind")
                    else:
                        g.require(after.get(p) == h, f"{op} touches another entry: {p}")
                for f in gone:
                    g.require(not lay.processed_dir(f).exists() and not lay.manifest_path(f).exists(), "a removed entry is still there")
                    model.pop(f, None)
                if op not in ("store", "force"):
                    g.require(set(after) <= set(before), f"{op} adds files")
            rows = dcache.index_list(lay)
            g.require(sorted(r["fingerprint"] for r in rows) == sorted(model), f"after {op} the index lists {len(rows)} entries, {len(model)} are present")
            g.require([r["created_at"] for r in rows] == sorted((r["created_at"] for r in rows), key=stamp, reverse=True), "the index is not ordered by age")
            for r in rows:
                u, t, idn = model[r["fingerprint"]]
                want = (u, t, idn.provider, idn.dataset_id, idn.version, idn.modality, str(lay.processed_dir(r["fingerprint"])), str(lay.manifest_path(r["fingerprint"])))
                has = (r["canonical_uri"], r["created_at"], r["provider"], r["dataset_id"], r["version"], r["modality"], r["processed_dir"], r["manifest_path"])
                g.require(want == has, f"index row {has} instead of {want}")
                g.require(dcache.is_cached(lay, r["fingerprint"]), "an indexed entry is not cached")
                size = sum(p.stat().st_size for p in lay.processed_dir(r["fingerprint"]).rglob("*") if p.is_file())
                g.require(r["size_bytes"] == size, "the index records a wrong size")
            for u in URIS:
                f = dcache.index_find_by_dataset(lay, u)
                g.require(sorted(x["fingerprint"] for x in f) == sorted(k for k, m in model.items() if m[0] == u), "finding a dataset's entries")
    finally:
        svc.create_provider, mani.utc_now_iso = keep


def stamp(t):
    """comparable form of the time stamps used here"""
    t = t[:-6]
    return t if "." in t else t + ".0"


SCENARIOS = [("schedule", s_schedule, 150, 1), ("interleave", s_interleave, 250, 1), ("race", s_race, 6, 1), ("history", s_history, 220, 4)]
