"""Interpolation by brute force, written from the definitions."""
import numpy as np
from common import *


def neighbours(tr, p, k, radius, comp):
    """Indices of the k nearest tracers in the radius that are neither at the point nor its companion, nearest first."""
    d = np.sqrt(((tr - p) ** 2).sum(axis=1)) if len(tr) else np.zeros(0)
    ok = [j for j in range(len(tr)) if d[j] > 0 and j != comp and (radius is None or d[j] < radius)]
    ok.sort(key=lambda j: d[j])
    return ok[:k], d


class Ref(object):
    """A scene and the results for it."""
    def __init__(self, method, k, radius, par, corr=None):
        self.method, self.k, self.radius, self.par, self.corr = method, k, radius, par, corr
        self.tr = self.pts = self.comp = self.data = None

    def sel(self, m):
        return neighbours(self.tr, self.pts[m], self.k, self.radius, -1 if self.comp is None else self.comp[m])

    def rows(self, fn, shape):
        return np.array([fn(m) for m in range(len(self.pts))]).reshape((len(self.pts),) + shape)

    def active(self):
        n = len(self.tr)
        return self.rows(lambda m: (self.sel(m)[0] + [n] * self.k)[:self.k], (self.k,)).astype(np.int64)

    def dists(self):
        def row(m):
            ok, d = self.sel(m)
            return (list(d[ok]) + [np.inf] * self.k)[:self.k]
        return self.rows(row, (self.k,))

    def rel(self):
        def row(m):
            ok, _ = self.sel(m)
            return np.vstack([self.tr[j] - self.pts[m] for j in ok] + [-self.pts[m]] * (self.k - len(ok)))
        return self.rows(row, (self.k, 3))

    def at(self, p, comp, mask=None):
        """Interpolated value at one point. ``mask``: how many of its neighbours, by place, are left out."""
        ok, d = neighbours(self.tr, p, self.k, self.radius, comp)
        if mask is not None:
            ok = [j for n, j in enumerate(ok) if n not in mask]
        dim = self.data.shape[1]
        if not ok:
            return np.full(dim, np.nan) if self.method != 'rbf' else np.zeros(dim)
        if self.method == 'inv':
            w = d[ok] ** -self.par
            return (w[:, None] * self.data[ok]).sum(axis=0) / w.sum()
        if self.method == 'rbf':
            dd = np.sqrt(((self.tr[ok][:, None] - self.tr[ok][None]) ** 2).sum(axis=2))
            c = np.linalg.solve(np.exp(-self.par * dd ** 2), self.data[ok])
            return (np.exp(-self.par * d[ok] ** 2)[:, None] * c).sum(axis=0)
        hist, bins = self.corr
        w = np.array([hist[max(b for b in range(len(bins)) if bins[b] <= d[j])] for j in ok])
        w = np.broadcast_to(w.reshape(len(ok), -1), (len(ok), dim))
        return (w * self.data[ok]).sum(axis=0) / w.sum(axis=0)

    def value(self, masks=None):
        dim = self.data.shape[1]
        if len(self.tr) == 0:
            return np.zeros((len(self.pts), dim))
        return self.rows(lambda m: self.at(self.pts[m], -1 if self.comp is None else self.comp[m],
                                           None if masks is None else masks[m]), (dim,))

    def jacobian(self, local=None, eps=100e-6):
        dim = self.data.shape[1]
        loc = self.value() if local is None else local
        if self.method == 'inv':
            def row(m):
                ok, d = self.sel(m)
                w = d[ok] ** -self.par
                j = np.zeros((dim, 3))
                for i, n in enumerate(ok):
                    j += d[n] ** -(self.par + 2) * np.outer(self.data[n] - loc[m], self.tr[n] - self.pts[m])
                return self.par / w.sum() * j if ok else np.full((dim, 3), np.nan)
            return self.rows(row, (dim, 3))

        def row(m):
            c = -1 if self.comp is None else self.comp[m]
            return np.array([(self.at(self.pts[m] + eps * np.eye(3)[a], c) - loc[m]) / eps for a in range(3)]).T
        return self.rows(row, (dim, 3))


def near(a, b, tol=1e-8, floor=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= tol * (floor + np.abs(b))) | (a == b) | ((a != a) & (b != b))))
