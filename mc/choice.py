"""Exhaustive exploration of the choice tree of a function that draws random numbers.

While `controlled(pick)` is active every discrete draw from the standard generators (random.*, np.random.*) is a
call of pick(n) that returns a number below n. Two exhaustive explorations are built on it:

 full(fn, depth)         all sequences of the first `depth` draws; later draws follow a fixed fair sequence
 deviations(fn, seed, b) all runs that differ from a fixed fair sequence of draws at no more than b points

A fair sequence that has not brought the function to an end after `limit` draws means that it does not terminate
(all draws of the explored functions are rejections or progress, so that a fair sequence ends them almost surely).
"""
import contextlib
import random

import numpy as np


class Endless(BaseException):
    pass


def fair(seed, i):
    """the i-th draw of a fixed well mixed sequence"""
    x = (seed * 0x9E3779B97F4A7C15 + i * 0xBF58476D1CE4E5B9 + 0x94D049BB133111EB) & (2**64 - 1)
    for s, m in ((30, 0xBF58476D1CE4E5B9), (27, 0x94D049BB133111EB)):
        x = ((x ^ (x >> s)) * m) & (2**64 - 1)
    return x ^ (x >> 31)


class Draws:
    def __init__(self, prefix, seed, limit=20000, zero=0):
        self.prefix, self.seed, self.limit, self.zero = prefix, seed, limit, zero
        self.trace = []

    def pick(self, n):
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i] % n
        elif i < self.zero:
            c = 0
        else:
            c = fair(self.seed, i) % n
        if i >= self.limit:
            raise Endless()
        self.trace.append((n, c))
        return c


GRID = (0.0, 0.34, 0.67, 0.999)
BIG = 64


@contextlib.contextmanager
def controlled(pick):
    inst = random._inst
    count = [0]

    def below(n):
        if n > BIG:  # seeds and the like are not explored
            count[0] += 1
            return fair(count[0], 1) % n
        return pick(n)

    def rnd(*a):
        return GRID[pick(len(GRID))]

    def shuffle(x, *a):
        for i in range(len(x) - 1, 0, -1):
            j = pick(i + 1)
            x[i], x[j] = x[j], x[i]

    def permutation(x):
        y = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        shuffle(y)
        return np.array(y)

    def randint(low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + bool(endpoint)
        if size is None:
            return int(low) + below(n)
        return np.array([int(low) + below(n) for _ in range(int(np.prod(size)))]).reshape(size)

    def choice(a, size=None, replace=True, p=None, **kw):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if p is not None:
            items = [x for x, q in zip(items, p) if q > 0]
        if size is None:
            return items[pick(len(items))]
        out = []
        for _ in range(int(np.prod(size))):
            k = pick(len(items))
            out.append(items[k])
            if not replace:
                del items[k]
        return np.array(out).reshape(size)

    class Gen:
        pass

    gen = Gen()
    gen.shuffle, gen.permutation, gen.integers, gen.choice = shuffle, permutation, randint, choice
    gen.random = lambda size=None: rnd() if size is None else np.array([rnd() for _ in range(int(np.prod(size)))]).reshape(size)
    patches = [
        (inst, "_randbelow", below), (inst, "random", rnd), (random, "random", rnd),
        (np.random, "shuffle", shuffle), (np.random, "permutation", permutation), (np.random, "randint", randint), (np.random, "choice", choice),
        (np.random, "random", gen.random), (np.random, "random_sample", gen.random), (np.random, "rand", lambda *s: gen.random(s or None)), (np.random, "default_rng", lambda *a: gen),
    ]
    old = [(o, k, o.__dict__.get(k)) for o, k, _ in patches]
    for o, k, v in patches:
        setattr(o, k, v)
    try:
        yield
    finally:
        for o, k, v in old:
            if v is None:
                delattr(o, k)
            else:
                setattr(o, k, v)


def one(fn, draws):
    """('ok', result) | ('raise', exception) | ('endless', None)"""
    with controlled(draws.pick):
        try:
            return "ok", fn()
        except Endless:
            return "endless", None
        except Exception as e:
            return "raise", e


def full(fn, depth, part=0, parts=1, limit=20000):
    """yields (trace, outcome) of every sequence of the first depth draws (those of the given part)"""
    prefix = []
    heads = {}
    while True:
        d = Draws(prefix, 7, limit, depth)
        out = one(fn, d)
        head = tuple(c for _, c in d.trace[:2])
        k = heads.setdefault(head, len(heads))
        cut = min(depth, len(d.trace))
        if k % parts == part:
            yield d.trace[:cut], out
        else:  # skip everything below this head
            cut = min(cut, 2)
        t = d.trace[:cut]
        while t and t[-1][1] + 1 >= t[-1][0]:
            t.pop()
        if not t:
            return
        prefix = [c for _, c in t[:-1]] + [t[-1][1] + 1]


def deviations(fn, seed, b, limit=20000, window=None):
    """every run that differs from the fair sequence `seed` at no more than b draws (among the first `window`)"""

    def rec(prefix, left):
        d = Draws(prefix, seed, limit)
        out = one(fn, d)
        yield d.trace, out
        if left:
            t = list(d.trace)
            for i in range(len(prefix), len(t) if window is None else min(window, len(t))):
                n, c = t[i]
                for a in range(n):
                    if a != c:
                        yield from rec([x for _, x in t[:i]] + [a], left - 1)

    yield from rec([], b)
