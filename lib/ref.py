"""Independent reference model of the (gradient-enhanced) Gaussian process.

Nothing here imports the code under test.  Everything is written directly from
the mathematical definition: the kernel is k(x,y) = f(s), s = sum_i th_i (x_i-y_i)^2,
and every covariance between values / derivatives follows from the chain rule.
All functions accept complex arguments, so exact derivatives are obtained with
the complex-step method (no truncation or cancellation error).
"""
import numpy as np

KERNELS = ('SqExp', 'Ma5f2', 'RatQu')
SQ5 = np.sqrt(5.0)


def fders(kernel, s, alpha=None):
    """f, f', f'' and f''' * sqrt-safe at s (complex allowed, s>=0 in the real part)."""
    if kernel == 'SqExp':
        e = np.exp(-s)
        return e, -e, e, -e
    if kernel == 'RatQu':
        b = 1 + s / alpha
        f0 = b ** (-alpha)
        f1 = -b ** (-alpha - 1)
        f2 = (alpha + 1) / alpha * b ** (-alpha - 2)
        f3 = -(alpha + 1) * (alpha + 2) / alpha ** 2 * b ** (-alpha - 3)
        return f0, f1, f2, f3
    if kernel == 'Ma5f2':
        nu = np.sqrt(s)
        e = np.exp(-SQ5 * nu)
        f0 = (1 + SQ5 * nu + 5.0 / 3.0 * s) * e
        f1 = -(5.0 / 6.0) * (1 + SQ5 * nu) * e
        f2 = (25.0 / 12.0) * e
        zero = (np.abs(nu) < 1e-150)
        nus = np.where(zero, 1.0, nu)
        # always multiplied by a product of three coordinate differences, hence 0 at s=0
        f3 = np.where(zero, 0.0, -(25.0 * SQ5 / 24.0) / nus * e)
        return f0, f1, f2, f3
    raise ValueError(kernel)


def _obs(n, d, bvec):
    """List of (point, derivative index or None) in the documented data order."""
    idx = np.arange(n) if bvec is None else np.flatnonzero(bvec)
    out = [(i, None) for i in range(n)]
    for a in range(d):
        out += [(int(i), a) for i in idx]
    return out


def kern(kernel, X, Y, th, alpha=None, gx=False, gy=False, bx=None, by=None):
    """Joint covariance (unit variance) of [f(X), grads] with [f(Y), grads].

    gx / gy: are derivatives observed;  bx / by: which points have derivatives.
    """
    X = np.atleast_2d(X)
    Y = np.atleast_2d(Y)
    n1, d = X.shape
    n2 = Y.shape[0]
    R = X[:, None, :] - Y[None, :, :]
    s = np.sum(th * R * R, axis=2)
    f0, f1, f2, _ = fders(kernel, s, alpha)
    ix = (np.arange(n1) if bx is None else np.flatnonzero(bx)) if gx else np.arange(0)
    iy = (np.arange(n2) if by is None else np.flatnonzero(by)) if gy else np.arange(0)
    N1 = n1 + len(ix) * (d if gx else 0)
    N2 = n2 + len(iy) * (d if gy else 0)
    K = np.zeros((N1, N2), dtype=np.result_type(f0, th, float))
    K[:n1, :n2] = f0
    for a in range(d):
        ga = 2 * th[a] * R[:, :, a]
        if gx:
            ra = slice(n1 + a * len(ix), n1 + (a + 1) * len(ix))
            K[ra, :n2] = (ga * f1)[ix, :]
        if gy:
            ca = slice(n2 + a * len(iy), n2 + (a + 1) * len(iy))
            K[:n1, ca] = (-ga * f1)[:, iy]
        if gx and gy:
            for b in range(d):
                gb = 2 * th[b] * R[:, :, b]
                blk = -(ga * gb * f2 + (2 * th[a] * f1 if a == b else 0.0))
                cb = slice(n2 + b * len(iy), n2 + (b + 1) * len(iy))
                K[ra, cb] = blk[np.ix_(ix, iy)]
    return K


def kern_hess(kernel, x, Y, th, alpha=None, gy=False, by=None):
    """d2/dx_a dx_b of the covariance of f(x) with [f(Y), grads]; shape (d, d, N2)."""
    x = np.asarray(x).ravel()
    Y = np.atleast_2d(Y)
    n2, d = Y.shape
    R = x[None, :] - Y
    s = np.sum(th * R * R, axis=1)
    _, f1, f2, f3 = fders(kernel, s, alpha)
    iy = (np.arange(n2) if by is None else np.flatnonzero(by)) if gy else np.arange(0)
    H = np.zeros((d, d, n2 + len(iy) * (d if gy else 0)))
    for a in range(d):
        for b in range(d):
            H[a, b, :n2] = 4 * th[a] * th[b] * R[:, a] * R[:, b] * f2 + (2 * th[a] * f1 if a == b else 0)
            if gy:
                for j in range(d):
                    t = 8 * th[a] * th[b] * th[j] * R[:, a] * R[:, b] * R[:, j] * f3
                    if a == j:
                        t = t + 4 * th[a] * th[b] * R[:, b] * f2
                    if b == j:
                        t = t + 4 * th[a] * th[b] * R[:, a] * f2
                    if a == b:
                        t = t + 4 * th[a] * th[j] * R[:, j] * f2
                    H[a, b, n2 + j * len(iy): n2 + (j + 1) * len(iy)] = -t[iy]
    return H


def kern_dhp(kernel, X, th, alpha, gx, bx, which, i=0, h=1e-30):
    """Exact derivative (complex step) of kern(X, X) wrt th[i] or alpha."""
    thc = np.asarray(th, dtype=complex).copy()
    ac = alpha
    if which == 'theta':
        thc[i] += 1j * h
    else:
        ac = complex(alpha) + 1j * h
    return kern(kernel, X, X, thc, ac, gx, gx, bx, bx).imag / h


def data_vec(f, g=None):
    return np.asarray(f, float) if g is None else np.concatenate([np.asarray(f, float), np.asarray(g, float).T.ravel()])


def mean_basis(n, ng, d):
    """Design vector of the constant mean function."""
    return np.concatenate([np.ones(n), np.zeros(ng * d)])


def psi_diag(Kn, precon):
    """Diagonal added per unit of nugget: diag of K (incl. noise) if preconditioned else 1."""
    return np.diag(Kn).copy() if precon else np.ones(Kn.shape[0])


class RefGP:
    """Dense textbook GP with explicit regularised covariance.

    Sigma = varK*K(theta) + diag(noise) + eta*varK*D, D = I or diag(K + noise/varK).
    """

    def __init__(self, kernel, X, f, th, alpha, varK, beta, eta, precon, g=None, bvec=None, noise=None):
        self.kernel, self.X, self.th, self.alpha = kernel, np.asarray(X, float), np.asarray(th, float), alpha
        self.varK, self.beta, self.g, self.bvec = varK, beta, g, bvec
        n, d = self.X.shape
        self.n, self.d = n, d
        self.use_g = g is not None
        y = data_vec(f, g)
        self.y = y
        N = y.size
        ng = (N - n) // d if self.use_g else 0
        self.M = mean_basis(n, ng, d)
        noise = np.zeros(N) if noise is None else noise
        K = kern(kernel, self.X, self.X, self.th, alpha, self.use_g, self.use_g, bvec, bvec)
        Kn = K + np.diag(noise / varK)
        self.K = K
        self.Kreg = Kn + eta * np.diag(psi_diag(Kn, precon))
        self.scale = np.sqrt(np.diag(self.Kreg))
        self.Ks = self.Kreg / np.outer(self.scale, self.scale)
        self.w, self.V = np.linalg.eigh((self.Ks + self.Ks.T) / 2)
        self.cond_s = np.inf if self.w[0] <= 0 else self.w[-1] / self.w[0]
        self.a = self.solve(y - self.M * beta)

    def solve(self, B):
        """Kreg^{-1} B through the symmetrically scaled eigen-decomposition + one refinement step."""
        def s1(B):
            t = (B.T / self.scale).T
            t = self.V @ ((self.V.T @ t).T / self.w).T
            return (t.T / self.scale).T
        x = s1(B)
        x = x + s1(B - self.Kreg @ x)
        return x

    def kx(self, x):
        """Covariance of data with [f(x), grad f(x)] : (N, 1+d)."""
        return kern(self.kernel, self.X, x[None, :], self.th, self.alpha, self.use_g, True, self.bvec, None)

    def mean(self, x):
        k = self.kx(np.asarray(x, float))[:, 0]
        return self.beta + k @ self.a

    def var_unit(self, x):
        k = self.kx(np.asarray(x, float))[:, 0]
        return 1.0 - k @ self.solve(k)

    def full(self, x, hess=False):
        """mean, unit variance, their gradients and (optionally) Hessians."""
        x = np.asarray(x, float)
        KX = self.kx(x)
        S = self.solve(KX)
        k, dk = KX[:, 0], KX[:, 1:]
        mu = self.beta + k @ self.a
        v = 1.0 - k @ S[:, 0]
        dmu = dk.T @ self.a
        dv = -2 * dk.T @ S[:, 0]
        out = dict(mu=mu, v=v, dmu=dmu, dv=dv)
        if hess:
            H = kern_hess(self.kernel, x, self.X, self.th, self.alpha, self.use_g, self.bvec)
            out['d2mu'] = H @ self.a
            out['d2v'] = -2 * (H @ S[:, 0]) - 2 * dk.T @ S[:, 1:]
        return out
