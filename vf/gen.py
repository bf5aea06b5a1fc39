"""Seeded case generation and failure reporting of the bounded run-time contract checks."""

from __future__ import annotations

import hashlib
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, **info):
        super().__init__(msg)
        self.info = info


class Skip(Exception):
    """the generated case does not meet the precondition"""


class Finding(Exception):
    """a violation that carries the key of a finding"""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def case_seed(seed, scenario, k):
    h = hashlib.sha256(f"{seed}:{scenario}:{k}".encode()).digest()
    return int.from_bytes(h[:6], "big")


class G:
    """One generated case."""

    def __init__(self, seed, tmp=None):
        import numpy as np

        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.info = {}
        self.tmp = tmp
        self.evals = 0
        self.sig = None
        self.findings = []

    # draws
    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def bool(self, p=0.5):
        return bool(self.rng.random() < p)

    def pick(self, xs):
        return xs[int(self.rng.integers(0, len(xs)))]

    def real(self, lo=0.0, hi=1.0):
        return float(lo + (hi - lo) * self.rng.random())

    def note(self, **kw):
        self.info.update(kw)

    # contracts
    def require(self, cond, msg, **info):
        self.evals += 1
        if not cond:
            self.info.update(info)
            raise Violation(msg, **info)

    def finding(self, key, cond, msg):
        """a contract with a known-finding key: reported, but does not stop the case"""
        self.evals += 1
        if not cond:
            self.findings.append((key, msg))

    def raises(self, fn, excs=Exception, msg="an exception was expected"):
        self.evals += 1
        try:
            r = fn()
        except excs as e:
            return e
        raise Violation(msg, returned=repr(r)[:200])


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def from_repo(tb):
    """is the innermost frame of the traceback (ignoring libraries) inside /repo?"""
    fr = traceback.extract_tb(tb)
    own = [f for f in fr if f.filename.startswith(REPO + "/") or "/verif/" in f.filename or "/bounded/" in f.filename]
    return bool(own) and own[-1].filename.startswith(REPO + "/")
