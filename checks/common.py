"""helpers shared by the harnesses: reference formulas written independently of the code under test"""
import itertools
import numpy as np

N1 = [(0,), (1,), (2,)]
N2 = [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1)]
N2s = [(0, 0), (1, 0), (1, 1)]
N3 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, -1)]
N3s = [(0, 0, 0), (1, 0, 0), (0, 1, -1)]
# relative orbital positions as they come out of other formats (half steps)
NH = [(0, 0), (0.5, 0.0), (0.5, 1.0), (1.5, -0.5)]


def dag(m):
    return np.conj(np.swapaxes(m, -1, -2))


def hr(X, name, neighbors, n, lo=-2.0, hi=2.0):
    """symbolic fourier coefficients; the one at R=0 hermitian"""
    H0 = X.hermitian(name + "0", n, lo, hi)
    mats = [H0] + [X.carray(f"{name}{i}", (n, n), lo, hi) for i in range(1, len(neighbors))]
    return X.stack(mats) if X.symbolic else np.array(mats)


def hr_herm(X, name, neighbors, n, lo=-2.0, hi=2.0):
    mats = [X.hermitian(f"{name}{i}", n, lo, hi) for i in range(len(neighbors))]
    return X.stack(mats) if X.symbolic else np.array(mats)


def fourier(X, H_r, neighbors, k):
    """documented H(k) = H_0 + sum_R (exp(2 pi i k R) H_R + h.c.) written out"""
    H = H_r[0]
    for R, M in zip(neighbors[1:], H_r[1:]):
        ph = 0.0
        for a, b in zip(k, R):
            ph = ph + a * b
        z = X.expi(ph)
        H = H + z * M + X.conj(z) * dag(M)
    return H


def blocks(X, A, B):
    """block diagonal matrix"""
    n, m = len(A), len(B)
    rows = []
    for i in range(n):
        rows.append([A[i][j] for j in range(n)] + [0.0] * m)
    for i in range(m):
        rows.append([0.0] * n + [B[i][j] for j in range(m)])
    return X.stack(rows)


class Points:
    """random sample points, replaced by the given ones"""

    def __init__(self, pts):
        self.pts = pts

    def __enter__(self):
        self.old = np.random.random
        np.random.random = self.draw
        return self

    def draw(self, size=None):
        """the given points; with as many coordinates as the code asks for"""
        d = np.atleast_1d(np.array(size if size is not None else 1, dtype=int))[-1]
        if d == np.shape(self.pts)[-1]:
            return self.pts
        return np.array([list(np.resize(np.array(p), d)) for p in self.pts])

    def __exit__(self, *a):
        np.random.random = self.old


class Recorder:
    """stand-in for matplotlib.pyplot which collects the calls"""

    def __init__(self, module):
        self.calls = []
        self.module = module

    def get_ylim(self):
        return (-1.0, 1.0)

    def get_figheight(self):
        return 4.8

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*a, **k):
            self.calls.append((name, a, k))
            return self
        return call

    def __enter__(self):
        import sys
        import matplotlib
        import matplotlib.pyplot
        from symex import loader
        loader.STUBS["matplotlib.pyplot"] = self
        self.old = matplotlib.pyplot, sys.modules["matplotlib.pyplot"]
        matplotlib.pyplot = sys.modules["matplotlib.pyplot"] = self
        self.names = {n: self.module.__dict__[n] for n in ("plt", "pyplot") if n in self.module.__dict__}
        for n in self.names:
            setattr(self.module, n, self)
        return self

    def __exit__(self, *a):
        import sys
        import matplotlib
        from symex import loader
        del loader.STUBS["matplotlib.pyplot"]
        matplotlib.pyplot, sys.modules["matplotlib.pyplot"] = self.old
        for n, v in self.names.items():
            setattr(self.module, n, v)

    def named(self, name):
        return [c for c in self.calls if c[0] == name]


class Drawn:
    """random numbers of numpy, replaced by symbolic ones between 0 and 1; shuffling reverses"""

    def __init__(self, X):
        self.X, self.n, self.drawn = X, 0, []

    def draw(self, shape=None):
        self.n += 1
        return self.X.real(f"rnd{self.n}", 0.0, 1.0) if shape is None else self.X.array(f"rnd{self.n}", shape, 0.0, 1.0)

    def reverse(self, x):
        x[:] = list(x)[::-1]

    def __enter__(self):
        self.old = np.random.random, np.random.shuffle, np.random.standard_normal
        np.random.random, np.random.shuffle, np.random.standard_normal = self.draw, self.reverse, self.normal
        return self

    def normal(self, shape=None):
        self.n += 1
        x = self.X.real(f"normal{self.n}", -3.0, 3.0) if shape is None else self.X.array(f"normal{self.n}", shape, -3.0, 3.0)
        self.drawn.append(x)
        return x

    def __exit__(self, *a):
        np.random.random, np.random.shuffle, np.random.standard_normal = self.old
