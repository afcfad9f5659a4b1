"""Expected posterior with rigorous-style first-order round-off tolerances (see DESIGN.md, 'Tolerances')."""
import numpy as np

import ref
from cases import scaled, ref_gp
from harness import Skip

EPS = 2.3e-16
C = 60.0


class Post:
    """Reference posterior of a case in the user's units, with per-output tolerances."""

    def __init__(self, c, sc=None):
        self.c = c
        self.R, self.sc = ref_gp(c, sc)
        R, sc = self.R, self.sc
        self.N = R.y.size
        self.nK = max(R.w[-1], 1.0)
        self.a_s = R.a * R.scale
        X = np.array(c['X'], float)
        self.xmax = np.abs(X).max() if X.size else 0.0
        self.ymag = sc['kf'] * (np.abs(np.array(c['f'], float)).max() + abs(sc['sfv'])) + abs(sc['beta'])
        if sc['g'] is not None and sc['g'].size:
            gs = np.abs(sc['g']) / np.sqrt(2 * sc['th'])
            self.ymag = max(self.ymag, gs.max())
        self.cond = R.cond_s
        if not np.isfinite(self.cond) or self.e2(0.0) * self.cond > 0.02:
            raise Skip()

    def ex(self, xm):
        # the derivative w.r.t. the coordinates is bounded by ~4 sqrt(theta)
        return 4 * EPS * (self.xmax + xm) * self.sc['kx'] * np.sqrt(self.sc['th'].max()) + EPS

    def delta(self, xm):
        return C * (EPS + self.ex(xm))

    def e2(self, xm):
        return C * (self.N * EPS + self.ex(xm)) * self.nK

    def at(self, x, hess=False):
        c, sc, R = self.c, self.sc, self.R
        x = np.asarray(x, float)
        xs = (x - sc['sx']) * sc['kx']
        xm = np.abs(x).max()
        d = c['d']
        KX = R.kx(xs)
        S = R.solve(KX)
        D = R.scale
        n_ = np.linalg.norm
        k, dk = KX[:, 0], KX[:, 1:]
        xw = S[:, 0] * D
        dxw = S[:, 1:] * D[:, None]
        an = n_(self.a_s)
        de, e2 = self.delta(xm), self.e2(xm)
        sN = np.sqrt(self.N)
        yn = C * EPS * self.ymag * sN
        o = {}
        o['mu'] = R.beta + k @ R.a
        o['v'] = max(0.0, 1.0 - k @ S[:, 0])
        # scale of the derivatives of k: sqrt(theta), in units of the scaled observations
        Dm = 1.0
        st = 8 * np.sqrt(sc['th'])
        o['tmu'] = 1.5 * (e2 * n_(xw) * an + de * sN * an * Dm + yn * n_(xw) + C * EPS * (abs(R.beta) + abs(o['mu'])))
        o['tv'] = 1.5 * (e2 * n_(xw) ** 2 + 2 * de * sN * n_(xw) + C * EPS)
        o['dmu'] = dk.T @ R.a
        o['dv'] = -2 * dk.T @ S[:, 0]
        ndx = n_(dxw, axis=0)
        o['tdmu'] = 1.5 * (e2 * ndx * an + de * sN * an * st + yn * ndx)
        o['tdv'] = 3.0 * (e2 * ndx * n_(xw) + de * sN * (st * n_(xw) + ndx))
        if hess:
            H = ref.kern_hess(c['kernel'], xs, sc['X'], sc['th'], sc['alpha'], R.use_g, sc['bvec'])
            o['d2mu'] = H @ R.a
            o['d2v'] = -2 * (H @ S[:, 0]) - 2 * dk.T @ S[:, 1:]
            Hf = R.solve(H.reshape(d * d, -1).T) * D[:, None]
            nh = n_(Hf, axis=0).reshape(d, d)
            ss = np.outer(st, st)
            o['td2mu'] = 1.5 * (e2 * nh * an + de * sN * an * ss + yn * nh)
            o['td2v'] = 3.0 * (e2 * (nh * n_(xw) + np.outer(ndx, ndx)) +
                               de * sN * (ss * n_(xw) + nh + np.outer(st, ndx) + np.outer(ndx, st)))
        # user units
        kx, kf, vk = sc['kx'], sc['kf'], sc['varK']
        u = dict(mu=o['mu'] / kf + sc['sfv'], tmu=o['tmu'] / kf + 4 * EPS * abs(sc['sfv']), dmu=o['dmu'] * kx / kf, tdmu=o['tdmu'] * kx / kf,
                 var=o['v'] * vk / kf ** 2, tvar=o['tv'] * vk / kf ** 2, dvar=o['dv'] * vk * kx / kf ** 2,
                 tdvar=o['tdv'] * vk * kx / kf ** 2, prior=vk / kf ** 2)
        if hess:
            u.update(d2mu=o['d2mu'] * kx ** 2 / kf, td2mu=o['td2mu'] * kx ** 2 / kf,
                     d2var=o['d2v'] * vk * kx ** 2 / kf ** 2, td2var=o['td2v'] * vk * kx ** 2 / kf ** 2)
        return u


def eval_points(c, rng, k, style=None):
    """Evaluation points in the user's coordinates: around, at, next to and far from the data."""
    X = np.array(c['X'], float)
    n, d = X.shape
    L = 1 / np.sqrt(2 * np.array(c['theta'], float))
    out = []
    for _ in range(k):
        t = style or rng.choice(['near', 'between', 'at', 'edge', 'outside', 'sameaxis'])
        b = X[rng.integers(n)]
        if t == 'near':
            p = b + L * rng.normal(size=d) * 0.7
        elif t == 'between':
            w = rng.dirichlet(np.ones(n))
            p = w @ X + 0.1 * L * rng.normal(size=d)
        elif t == 'at':
            p = b.copy()
        elif t == 'edge':
            p = b + L * rng.normal(size=d) * 10.0 ** rng.uniform(-5, -1)
        elif t == 'sameaxis':
            p = b.copy()
            p[rng.integers(d)] += L.max() * rng.normal()
        else:
            p = b + L * rng.normal(size=d) * 3
        out.append(p)
    return np.array(out)
