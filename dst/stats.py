"""Sequential tests whose false alarm probability is bounded for any sample size.

A martingale M with increments bounded by b and predictable quadratic variation V
satisfies P(|M| >= t and V <= v) <= 2 exp(-t^2 / (2 (v + b t / 3))) (Freedman); for a
mean of independent bounded variables with unknown variance, the empirical Bernstein
bound (Maurer and Pontil) is used.  Both thresholds correspond to exp(-LIMIT).
"""
import math

LIMIT = 30.0


class Mart:
    __slots__ = ("s", "v", "n", "b")

    def __init__(self):
        self.s = self.v = 0.0
        self.n = 0
        self.b = 1.0

    def add(self, x, var):
        self.s += x
        self.v += var
        self.n += 1

    def score(self):
        t = abs(self.s)
        if t == 0:
            return 0.0
        return t * t / (2 * (self.v + self.b * t / 3))

    def bad(self):
        return self.score() > LIMIT


class Mean:
    """tests that the mean of independent variables bounded by b is zero"""

    __slots__ = ("s", "q", "n", "b")

    def __init__(self, b=1.0):
        self.s = self.q = 0.0
        self.n = 0
        self.b = b

    def add(self, x):
        self.s += x
        self.q += x * x
        self.n += 1

    def bad(self):
        n = self.n
        if n < 30:
            return False
        m = abs(self.s) / n
        var = max(0.0, self.q / n - m * m) * n / (n - 1)
        return m > math.sqrt(2 * var * LIMIT / n) + 7 * 2 * self.b * LIMIT / (3 * (n - 1))

    def z(self):
        n = self.n
        if n < 2:
            return 0.0
        m = self.s / n
        var = max(1e-30, self.q / n - m * m)
        return m / math.sqrt(var / n)


class Stats:
    """named martingales of a run"""

    def __init__(self):
        self.m = {}

    def add(self, name, x, var):
        m = self.m.get(name)
        if m is None:
            m = self.m[name] = Mart()
        m.add(x, var)

    def bernoulli(self, name, hit, p, g=1.0):
        """an event of known conditional probability p, weighted by a predictable |g| <= 1"""
        if g:
            self.add(name, ((1.0 if hit else 0.0) - p) * g, p * (1 - p) * g * g)

    def worst(self):
        return max(((m.score(), k, m) for k, m in self.m.items()), default=(0.0, None, None), key=lambda x: x[0])
