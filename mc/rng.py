"""Random draws as a seam.

``numpy.random.default_rng`` and the global ``numpy.random`` functions are replaced, before the
code under test is imported, by versions that either ask a *script* (a handler object that decides
draws, usually through ``ch.choose``) or fall through to the real generator.  Generators created
without a seed are made deterministic per execution, so that replaying a prefix of choices always
reproduces the same execution.

A handler implements any of
    integer(lo, hi) -> int in [lo, hi)        pick(n) -> index in [0, n)
    real() -> float in [0, 1)
and whatever it does not implement is drawn from the real generator.
"""
import numpy as np

_real_default_rng = np.random.default_rng
_RS = {n: getattr(np.random, n) for n in
       ("rand", "randint", "random", "random_sample", "uniform", "choice", "permutation", "shuffle", "seed", "randn",
        "normal", "standard_normal")}
_handler = None
_counter = 0
draws = []           # log of (kind, detail) drawn while a handler is active


def reset():
    global _counter, _handler
    _counter, _handler = 0, None
    draws.clear()


class script:
    def __init__(self, handler):
        self.h = handler

    def __enter__(self):
        global _handler
        self.old, _handler = _handler, self.h
        return self.h

    def __exit__(self, *a):
        global _handler
        _handler = self.old


def _h(name):
    return getattr(_handler, name, None) if _handler is not None else None


def _fill(size, f):
    if size is None:
        return f()
    shape = (size,) if np.isscalar(size) else tuple(size)
    n = int(np.prod(shape))
    return np.array([f() for _ in range(n)]).reshape(shape)


def _ints(h, lo, hi, size, endpoint=False):
    if hi is None:
        lo, hi = 0, lo
    lo, hi = int(lo), int(hi) + (1 if endpoint else 0)
    if lo >= hi:
        raise ValueError("low >= high")

    def one():
        draws.append(("int", lo, hi))
        return np.int64(h(lo, hi))
    return _fill(size, one)


def _choice(h, a, size, replace, real):
    arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    if arr.shape[0] == 0:
        raise ValueError("a cannot be empty")
    if size is None:
        draws.append(("pick", arr.shape[0]))
        return arr[h(arr.shape[0])]
    shape = (size,) if np.isscalar(size) else tuple(size)
    n = int(np.prod(shape))
    idx, left = [], list(range(arr.shape[0]))
    if not replace and n > len(left):
        raise ValueError("Cannot take a larger sample than population when replace is False")
    for _ in range(n):
        k = h(len(left))
        draws.append(("pick", len(left)))
        idx.append(left[k])
        if not replace:
            left.pop(k)
    return arr[idx].reshape(shape + arr.shape[1:])


def _floats(h, lo, hi, size):
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    if size is None and (lo.ndim or hi.ndim):
        size = np.broadcast(lo, hi).shape

    def one():
        draws.append(("real",))
        return float(h())
    u = _fill(size, one)
    return lo + (hi - lo) * u


class RG(np.random.Generator):
    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        h = _h("integer")
        return super().integers(low, high, size, dtype, endpoint) if h is None else _ints(h, low, high, size, endpoint)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        h = _h("pick")
        return super().choice(a, size, replace, p, axis, shuffle) if h is None else _choice(h, a, size, replace, None)

    def random(self, size=None, dtype=np.float64, out=None):
        h = _h("real")
        return super().random(size, dtype, out) if h is None else _floats(h, 0., 1., size)

    def uniform(self, low=0.0, high=1.0, size=None):
        h = _h("real")
        return super().uniform(low, high, size) if h is None else _floats(h, low, high, size)

    def permutation(self, x, axis=0):
        h = _h("pick")
        if h is None:
            return super().permutation(x, axis)
        n = int(x) if np.ndim(x) == 0 else len(x)
        return _choice(h, x if np.ndim(x) else n, n, False, None)

    def shuffle(self, x, axis=0):
        h = _h("pick")
        if h is None:
            return super().shuffle(x, axis)
        x[:] = list(_choice(h, np.array(x), len(x), False, None))


def default_rng(seed=None):
    global _counter
    if isinstance(seed, RG):
        return seed
    if isinstance(seed, np.random.Generator):
        return seed
    if seed is None:
        _counter += 1
        seed = 900000 + _counter
    if isinstance(seed, np.random.BitGenerator):
        return RG(seed)
    return RG(_real_default_rng(seed).bit_generator)


def _g_rand(*shape):
    h = _h("real")
    return _RS["rand"](*shape) if h is None else _floats(h, 0., 1., shape or None)


def _g_random(size=None):
    h = _h("real")
    return _RS["random"](size) if h is None else _floats(h, 0., 1., size)


def _g_uniform(low=0.0, high=1.0, size=None):
    h = _h("real")
    return _RS["uniform"](low, high, size) if h is None else _floats(h, low, high, size)


def _g_randint(low, high=None, size=None, dtype=int):
    h = _h("integer")
    return _RS["randint"](low, high, size, dtype) if h is None else _ints(h, low, high, size)


def _g_choice(a, size=None, replace=True, p=None):
    h = _h("pick")
    return _RS["choice"](a, size, replace, p) if h is None else _choice(h, a, size, replace, None)


def _g_permutation(x):
    h = _h("pick")
    return _RS["permutation"](x) if h is None else _choice(h, x if np.ndim(x) else int(x), int(x) if np.ndim(x) == 0 else len(x), False, None)


def _g_shuffle(x):
    h = _h("pick")
    if h is None:
        return _RS["shuffle"](x)
    x[:] = list(_choice(h, np.array(x), len(x), False, None))


def install():
    np.random.default_rng = default_rng
    np.random.rand, np.random.random, np.random.random_sample = _g_rand, _g_random, _g_random
    np.random.uniform, np.random.randint, np.random.choice = _g_uniform, _g_randint, _g_choice
    np.random.permutation, np.random.shuffle = _g_permutation, _g_shuffle


class Ask:
    """a handler built from callables"""

    def __init__(self, integer=None, pick=None, real=None):
        if integer: self.integer = integer
        if pick: self.pick = pick
        if real: self.real = real
