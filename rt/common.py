"""Run-time contract checking: shared pieces."""
import contextlib
import io
import json
import os
import signal
import sys

import numpy as np


class Fail(Exception):
    """The contract does not hold on this case."""


class Skip(Exception):
    """The case is outside the contract's precondition."""


class Slow(Exception):
    pass


def req(cond, msg, *args):
    if not cond:
        raise Fail(msg.format(*args) if args else msg)


@contextlib.contextmanager
def quiet():
    """Silence prints of the code under check."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


@contextlib.contextmanager
def limit(seconds):
    def h(sig, frm):
        raise Slow()
    prev = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, prev)


def call(fn, *a, **k):
    """Call code under check, silenced."""
    with quiet():
        return fn(*a, **k)


def raises(exc, fn, *a, **k):
    """True when fn raises exc; other exceptions propagate."""
    try:
        call(fn, *a, **k)
    except exc:
        return True
    return False


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    return x


def arr(x, shape=None, dtype=float):
    a = np.array(x, dtype=dtype)
    if shape is not None:
        a = a.reshape(shape)
    return a


PRIMES = [2, 3, 5, 7, 11, 13]


def pick_prime(rng, big=False):
    ps = PRIMES + ([31, 101, 1009] if big else [])
    return int(ps[rng.randint(len(ps))])


def warp(rng):
    """A strictly increasing map on grid values: gaps between 1e-5 and 100.

    Half of the time the identity.  Values stay separated by much more than the
    rounding precision (7 decimals) the code documents.
    """
    if rng.rand() < .5:
        return lambda x: np.asarray(x, float)
    gaps = np.array([1e-5, 1e-3, 1e-2, .1, 1., 7.3, 100.])
    u = rng.rand()
    lo = -5. if u < .2 else (0. if u < .7 else 3.25)
    inc = gaps[rng.randint(0, len(gaps), size=64)]
    cum = np.round(lo + np.concatenate([[0.], np.cumsum(inc)]), 5)

    def f(x):
        x = np.asarray(x, float)
        base = np.floor(x)
        i = base.astype(int) + 2
        return cum[i] + (x - base) * (cum[i + 1] - cum[i])
    return f
