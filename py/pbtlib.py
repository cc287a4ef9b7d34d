"""Helpers shared by the Python checks."""
import glob, os, sys
import numpy as np
from hypothesis import strategies as st

SUBS = []


class Invalid(Exception):
    """the case is outside the property's domain"""


class Sub:
    def __init__(self, name, rule, strategy, run, quick, thorough, share, confirm):
        self.name, self.rule, self.strategy, self.run, self.quick, self.thorough, self.share, self.confirm = name, rule, strategy, run, quick, thorough, share, confirm


def sub(rule, strategy, quick, thorough, share=1.0, confirm=3):
    def deco(f):
        SUBS.append(Sub(f.__name__, rule, strategy, f, quick, thorough, share, confirm))
        return f
    return deco


def text(e):
    return str(e) if isinstance(e, AssertionError) else "%s: %s" % (type(e).__name__, e)


_count = [0]


class Ctx:
    def __init__(self):
        self.nt = False; self.labels = []; self.kfs = set(); self.closers = []
        _count[0] += 1
        self.ns = os.environ["VERIF_NS"] + "%d_" % _count[0]

    def nontrivial(self):
        self.nt = True

    def label(self, l):
        self.labels.append(l)

    def kf(self, k):
        self.kfs.add(k)

    def cleanup(self):
        for f in reversed(self.closers):
            try:
                f()
            except Exception:
                pass
        for p in glob.glob("/dev/shm/*" + self.ns + "*"):
            try:
                os.unlink(p)
            except OSError:
                pass


def check(cond, msg, *args):
    if not cond:
        raise AssertionError(msg % args if args else msg)


def bits(a):
    """an array's bytes in row-major order: comparison is exact, NaN payloads and -0 included"""
    return np.ascontiguousarray(a).tobytes()


def raw_values(rng, shape, dt):
    """arbitrary bit patterns (0/1 for bool), small numbers mixed in"""
    n = int(np.prod(shape))
    dt = np.dtype(dt)
    if dt == np.bool_:
        return rng.integers(0, 2, size=shape).astype(np.bool_)
    r = np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt).reshape(shape).copy()
    if n and rng.integers(0, 2):
        m = rng.integers(0, 2, size=shape).astype(bool)
        small = rng.integers(-3, 4, size=int(m.sum())).astype(dt)
        if dt.kind == "f":   # zeros of either sign
            small = np.where((small == 0) & (rng.integers(0, 2, size=small.shape) == 1), dt.type(-0.0), small)
        r[m] = small
    return r
