"""Owns every random draw.

`install()` replaces the functions of numpy.random (and the ones of `random`) by shims.  Without an
active controller a shim calls the original.  With one, every draw becomes a decision of that
controller, so that the explorer can enumerate all outcomes (and their probabilities).
"""
import random as _pyrandom
import sys
import threading

import numpy as np

from mc.core import Violation

SPIN = 20000        # single draws in a row by one activation of one function
_real = {}
_active = None
calls = []          # log of (name, args) while a controller with log=True is active


class Controller:
    """Decides draws.  Subclass or pass callables."""

    def __init__(self, pick=None, z=0.5, u=0.5, g=1.0, log=False, u_grid=None, retry=False):
        """u_grid=k: uniform draws are decisions among the k cell midpoints.  retry=True: a loop that repeats the
        same discrete draw (rejection sampling) does not get the rejected values again, which leaves the
        distribution of what is finally accepted exactly as it was and makes the loop finite."""
        self._pick, self._z, self._u, self._g = pick, z, u, g
        self.log = log
        self.calls = []
        self.u_grid = u_grid
        self.retry = retry
        self._last = None
        self._spins, self._spinning = 0, None

    def __getstate__(self):
        return dict(self.__dict__, _last=None, _spins=0, _spinning=None)

    def pick_value(self, values, weights, frame):
        """Index into values; see retry."""
        n = len(values)
        w = [1.0 / n] * n if weights is None else [float(x) for x in weights]
        if frame is not None:
            self._spins = self._spins + 1 if self._spinning is frame else 0
            self._spinning = frame
            if self._spins > SPIN:
                self._spins = 0
                raise Violation("a loop of draws does not end (%d draws in a row in %s)" % (SPIN, frame.f_code.co_name))
        if not self.retry:
            return self.pick(n, w, "value")
        key = (values.dtype.str, values.tobytes() if values.dtype != object else tuple(map(id, values)), tuple(w))
        out = set()
        if self._last is not None and self._last[0] is frame and self._last[1] == key:
            out = self._last[2]
        left = [0.0 if i in out else w[i] for i in range(n)]
        tot = sum(left)
        if tot <= 0:
            out, left, tot = set(), w, sum(w)
        i = self.pick(n, [x / tot for x in left], "value")
        self._last = (frame, key, out | {i})
        return i

    # discrete: index in range(n) with optional weights
    def pick(self, n, weights=None, what=""):
        if self._pick is None:
            return 0
        return self._pick(n, weights, what)

    def z(self):
        return self._z() if callable(self._z) else self._z

    def u_batch(self, size):
        """Uniform draws for a request of several: the decision sits at both ends."""
        if self.u_grid is None:
            return [self.u() for _ in range(size)]
        k = self.pick_batch(self.u_grid, size, [1.0 / self.u_grid] * self.u_grid)
        return [(i + 0.5) / self.u_grid for i in k]

    def u(self):
        if self.u_grid is not None:
            return (self.pick(self.u_grid, None, "u") + 0.5) / self.u_grid
        return self._u() if callable(self._u) else self._u

    def g(self, shape):
        """standard gamma variate"""
        return self._g(shape) if callable(self._g) else self._g * shape

    def pick_batch(self, n, size, weights):
        """Indices for a prefetched batch: the first one used (from either end) is the decision, the
        rest cycles through the other values, so that retrying always reaches every other value."""
        first = self.pick(n, weights, "batch")
        cyc = [first] + [i for i in range(n) if i != first and (weights is None or weights[i] > 0)]
        return [cyc[min(j, size - 1 - j) % len(cyc)] for j in range(size)]

    def record(self, name, *args):
        if self.log:
            self.calls.append((name,) + args)

    def __enter__(self):
        global _active
        self._outer = _active
        _active = self
        return self

    def __exit__(self, *exc):
        global _active
        _active = self._outer
        return False


def active():
    return _active


def _shape_size(size):
    if isinstance(size, (tuple, list)):
        out = 1
        for s in size:
            out *= int(s)
        return out
    return int(size)


def _fill(size, f):
    if size is None:
        return f()
    n = _shape_size(size)
    return np.array([f() for _ in range(n)]).reshape(size)


def _choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
    c = _active
    arr = np.arange(a) if np.ndim(a) == 0 and not isinstance(a, (list, tuple)) else _as_array(a)
    n = len(arr)
    if n == 0:
        raise ValueError("a must be greater than 0 unless no samples are taken" if np.ndim(a) == 0 and not isinstance(a, (list, tuple))
                         else "'a' cannot be empty unless no samples are taken")
    if p is not None:
        p = [float(x) for x in p]
        if len(p) != n:
            raise ValueError("'a' and 'p' must have same size")
        if abs(sum(p) - 1) > 1e-7:
            raise ValueError("probabilities do not sum to 1")
    c.record("choice", arr, size, p)
    if size is None:
        if p is None and (arr.dtype.kind in "fiub" or all(isinstance(x, (int, float, np.number)) for x in arr)):       # equal numbers are one outcome with added weight
            vals, counts = np.unique(arr.astype(float) if arr.dtype.kind in "Of" else arr, return_counts=True)
            i = c.pick_value(vals, [k / n for k in counts], _caller())
            return arr[np.nonzero(arr == vals[i])[0][0]]
        return arr[c.pick_value(arr, p, _caller())]
    m = _shape_size(size)
    if not replace:
        left, out = list(range(n)), []
        for _ in range(m):
            out.append(left.pop(c.pick(len(left), None, "noreplace")))
        return arr[out].reshape(size)
    if m > 1:
        return arr[c.pick_batch(n, m, p if p is not None else [1. / n] * n)].reshape(size)
    return arr[[c.pick_value(arr, p, _caller()) for _ in range(m)]].reshape(size)


def _caller():
    """Innermost frame of the code under test."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_globals.get("__name__", "").startswith("bartpy"):
            return f
        f = f.f_back
    return None


def _as_array(a):
    if isinstance(a, np.ndarray):
        return a
    a = list(a)
    out = np.array(a) if a and all(isinstance(x, (int, float, bool, np.generic)) for x in a) else None
    if out is None or out.ndim != 1:
        out = np.empty(len(a), dtype=object)
        for i, x in enumerate(a):
            out[i] = x
    return out


def _randint(low, high=None, size=None, dtype=int, endpoint=False):
    c = _active
    if high is None:
        low, high = 0, low
    hi = int(high) + (1 if endpoint else 0)
    n = hi - int(low)
    if n <= 0:
        raise ValueError("low >= high")
    c.record("randint", int(low), hi, size)
    if size is None:
        return int(low) + c.pick_value(np.arange(n), None, _caller())
    m = _shape_size(size)
    if m > 1:
        return np.array([int(low) + i for i in c.pick_batch(n, m, [1. / n] * n)]).reshape(size)
    return np.array([int(low) + c.pick(n, None, "randint") for _ in range(m)]).reshape(size)


def _uniform(low=0.0, high=1.0, size=None):
    c = _active
    c.record("uniform", float(low), float(high), size)
    if size is not None:
        return low + (high - low) * np.array(c.u_batch(_shape_size(size)), dtype=float).reshape(size)
    return low + (high - low) * c.u()


def _random(size=None, dtype=None, out=None):
    return _uniform(0.0, 1.0, size)


def _rand(*dims):
    return _uniform(0.0, 1.0, dims if dims else None)


def _normal(loc=0.0, scale=1.0, size=None):
    c = _active
    c.record("normal", loc, scale, size)
    return _fill(size, lambda: loc + scale * c.z())


def _standard_normal(size=None, dtype=None, out=None):
    return _normal(0.0, 1.0, size)


def _randn(*dims):
    return _normal(0.0, 1.0, dims if dims else None)


def _gamma(shape, scale=1.0, size=None):
    c = _active
    c.record("gamma", float(shape), float(scale), size)
    return _fill(size, lambda: scale * c.g(shape))


def _standard_gamma(shape, size=None, dtype=None, out=None):
    return _gamma(shape, 1.0, size)


def _chisquare(df, size=None):
    return 2.0 * _gamma(df / 2.0, 1.0, size)


def _permutation(x, axis=0):
    c = _active
    arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
    c.record("permutation", arr.copy())
    left, out = list(range(len(arr))), []
    while left:
        out.append(left.pop(c.pick(len(left), None, "permutation") if len(left) > 1 else 0))
    return arr[out]


def _shuffle(x, axis=0):
    c = _active
    n = len(x)
    left, out = list(range(n)), []
    while left:
        out.append(left.pop(c.pick(len(left), None, "shuffle") if len(left) > 1 else 0))
    vals = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i] for i in out]
    c.record("shuffle", list(vals))
    for i, v in enumerate(vals):
        x[i] = v


def _permuted(x, axis=None, out=None):
    return _permutation(np.ravel(x) if axis is None else x).reshape(np.shape(x))


def _exponential(scale=1.0, size=None):
    if size is None:
        return -scale * np.log(_uniform())
    return -scale * np.log(_uniform(0.0, 1.0, size))


def _standard_exponential(size=None, dtype=None, method=None, out=None):
    return _exponential(1.0, size)


class ProxyGenerator:
    """Stands in for numpy Generators created by the code under test."""

    def __init__(self, real):
        self._r = real

    def __reduce__(self):
        return (ProxyGenerator, (self._r,))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = _GENERATOR.get(name)
        if _active is not None and f is not None:
            return f
        return getattr(self._r, name)


_SHIMS = {"choice": _choice, "randint": _randint, "uniform": _uniform, "random": _random, "random_sample": _random,
          "ranf": _random, "sample": _random, "rand": _rand, "normal": _normal, "standard_normal": _standard_normal,
          "randn": _randn, "gamma": _gamma, "standard_gamma": _standard_gamma, "permutation": _permutation,
          "chisquare": _chisquare, "shuffle": _shuffle, "exponential": _exponential, "standard_exponential": _standard_exponential}
_GENERATOR = dict(_SHIMS, integers=_randint, permuted=_permuted)


def _wrap(name, shim, orig):
    def f(*a, **k):
        if _active is None:
            return orig(*a, **k)
        return shim(*a, **k)
    f.__name__ = name
    return f


_py_shims = {
    "choice": lambda seq: seq[_active.pick_value(np.arange(len(seq)), None, _caller())],
    "sample": lambda seq, k: [seq[i] for i in _choice(len(seq), k, False)],
    "choices": lambda seq, weights=None, cum_weights=None, k=1: [seq[i] for i in _choice(len(seq), k, True, None if weights is None else [w / sum(weights) for w in weights])],
    "randrange": lambda a, b=None, *r: _randint(a, b),
    "randint": lambda a, b: _randint(a, b + 1),
    "random": lambda: _uniform(),
    "uniform": lambda a, b: _uniform(a, b),
    "gauss": lambda mu=0.0, sigma=1.0: _normal(mu, sigma),
    "normalvariate": lambda mu=0.0, sigma=1.0: _normal(mu, sigma),
    "gammavariate": lambda a, b: _gamma(a, b),
    "shuffle": lambda x: _shuffle(x),
}


def install():
    if _real:
        return
    for name, shim in _SHIMS.items():
        _real[name] = getattr(np.random, name)
        setattr(np.random, name, _wrap(name, shim, _real[name]))
    real_default = np.random.default_rng

    def default_rng(*a, **k):
        g = real_default(*a, **k)
        if sys._getframe(1).f_globals.get("__name__", "").startswith("bartpy"):
            return ProxyGenerator(g)
        return g
    np.random.default_rng = default_rng
    real_state = np.random.RandomState

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (real_state, ProxyGenerator))

    class RandomState(real_state, metaclass=Meta):
        def __new__(cls, *a, **k):
            if cls is RandomState and sys._getframe(1).f_globals.get("__name__", "").startswith("bartpy"):
                return ProxyGenerator(real_state(*a, **k))
            return real_state(*a, **k) if cls is RandomState else real_state.__new__(cls, *a, **k)
    np.random.RandomState = RandomState
    main = threading.main_thread()
    for name, shim in _py_shims.items():
        orig = getattr(_pyrandom, name)

        def f(*a, _shim=shim, _orig=orig, **k):
            if _active is None or not sys._getframe(1).f_globals.get("__name__", "").startswith("bartpy"):
                return _orig(*a, **k)
            return _shim(*a, **k)
        setattr(_pyrandom, name, f)
