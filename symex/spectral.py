"""contract stubs for hermitian eigenproblems.

A slice of a batched call is answered by (in this order)
  1. numpy itself, when the slice is concrete,
  2. the entry for 1x1 matrices, sorting for diagonal matrices,
  3. a decomposition registered by the harness (H = W^H diag(la) W, S = W^H W with V = W^-1): the contract of eigh is that it
     returns ascending eigenvalues and S-orthonormal eigenvectors, and the harness quantifies over all such decompositions,
  4. the closed form for 2x2 matrices.
"""
import numpy as np
import scipy.linalg
from . import sarr, poly
from .poly import Sym, Unsupported, ssqrt, compare
from .sarr import to_obj, raw, wrap, demote


def _same(a, b):
    for x, y in zip(raw(a).flat, raw(b).flat):
        d = Sym.of(x) - Sym.of(y)
        m = max(1.0, Sym.of(x).max_coef())
        if not d.is_zero(1e-9 * m):
            return False
    return True


def _is_zero(x):
    return (not isinstance(x, Sym) and abs(x) < 1e-14) or (isinstance(x, Sym) and x.is_zero(1e-13))


class Spectral:
    def __init__(self):
        self.table = []

    def register(self, H, la, V, S=None):
        self.table.append((to_obj(H), None if S is None else to_obj(S), to_obj(la), to_obj(V)))

    def slice(self, H, S):
        n = H.shape[-1]
        Hc = demote(H)
        Sc = None if S is None else demote(S)
        if Sc is not None and not isinstance(Sc, sarr.SA) and np.allclose(Sc, np.eye(n), atol=1e-13):
            S = None
        if Hc is not None and (S is None or Sc is not None):
            la, ev = scipy.linalg.eigh(Hc, None if S is None else Sc)
            return to_obj(la), to_obj(ev)
        if n == 1:
            if S is None:
                return to_obj([Sym.of(H[0, 0]).real]), to_obj([[1.0]])
            s = Sym.of(S[0, 0]).real
            return to_obj([H[0, 0] / s]), to_obj([[1 / ssqrt(s)]])
        for H0, S0, la, V in self.table:
            if H0.shape != H.shape or not _same(H, H0):
                continue
            if (S is None) != (S0 is None):
                continue
            if S is None or _same(S, S0):
                return la, V
        h = raw(H)
        off = [(i, j) for i in range(n) for j in range(n) if i != j]
        if all(_is_zero(h[i]) for i in off) and (S is None or all(_is_zero(raw(S)[i]) for i in off)):
            d = [Sym.of(h[i, i]).real for i in range(n)]
            s = [1.0] * n if S is None else [Sym.of(raw(S)[i, i]).real for i in range(n)]
            d = [x if S is None else x / y for x, y in zip(d, s)]
            order = sarr._sorted_idx(d)
            ev = np.zeros((n, n), dtype=object)
            for c, i in enumerate(order):
                ev[i, c] = 1.0 if S is None else 1 / ssqrt(s[i])
            return to_obj([d[i] for i in order]), to_obj(ev if S is not None else ev.astype(float))
        if n == 2 and S is None:
            a, d, b = Sym.of(h[0, 0]).real, Sym.of(h[1, 1]).real, Sym.of(h[0, 1])
            m, q = (a + d) * 0.5, (a - d) * 0.5
            r = ssqrt(q * q + (b * b.conj()).real)
            lo, hi = m - r, m + r
            # eigenvector of hi: (b, hi - a); of lo: (hi - a, -conj(b))
            x = r - q
            n2 = (b * b.conj()).real + x * x
            if bool(compare("eq", n2, 0.0)):
                ev = [[0.0, 1.0], [1.0, 0.0]] if bool(q >= 0) else [[1.0, 0.0], [0.0, 1.0]]
                return to_obj([lo, hi]), to_obj(ev)
            nn = 1 / ssqrt(n2)
            return to_obj([lo, hi]), to_obj([[x * nn, b * nn], [-b.conj() * nn, x * nn]])
        raise Unsupported("eigendecomposition of a symbolic matrix without a registered decomposition")

    def eigh(self, H, S=None, *a, **k):
        H = to_obj(H)
        S = None if S is None else to_obj(S)
        if H.shape[-1] != H.shape[-2]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        la = np.empty(H.shape[:-1], dtype=object)
        ev = np.empty(H.shape, dtype=object)
        for i in np.ndindex(H.shape[:-2]):
            r = self.slice(H[i], None if S is None else S[i] if S.ndim > 2 else S)
            la[i] = raw(r[0])
            ev[i] = raw(r[1])
        return wrap(la), wrap(ev)

    def np_eigh(self, H, UPLO="L"):
        la, ev = self.eigh(H)
        return np.linalg._linalg.EighResult(la, ev) if hasattr(np.linalg, "_linalg") else (la, ev)

    def sc_eigh(self, a, b=None, *args, eigvals_only=False, **k):
        r = self.eigh(a, b)
        return r[0] if eigvals_only else r

    def install(self, hooks):
        hooks["eigh"] = self.np_eigh
        hooks["eigvalsh"] = lambda H, UPLO="L": self.eigh(H)[0]
        hooks["scipy.eigh"] = self.sc_eigh
        hooks["scipy.eigvalsh"] = lambda a, b=None, *x, **k: self.eigh(a, b)[0]
