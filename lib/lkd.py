"""Reference marginal likelihood, GLS mean, closed-form variance and their gradients, with round-off tolerances."""
import numpy as np

import ref
from cases import scaled, eta_ref
from harness import Skip

EPS = 2.3e-16
C = 60.0
LN10 = np.log(10.0)


def hp_names(c, optz_kernel=True):
    names = ['theta%d' % i for i in range(c['d'])]
    if c['kernel'] == 'RatQu' and optz_kernel:
        names.append('alpha')
    if is_noisy(c):
        names.append('varK')
    if c['sf'] is None:
        names.append('var_f')
    if c['use_grad'] and c['sg'] is None:
        names.append('var_g')
    return names


def is_noisy(c):
    """Data are noisy unless the known standard deviations are zero (negligible relative to the variation of the data)."""
    if c['sf'] is None or np.max(np.array(c['sf'], float)) > 1e-10 * np.ptp(np.array(c['f'], float)):
        return True
    if c['use_grad']:
        if c['sg'] is None or np.max(np.abs(np.array(c['sg'], float)), initial=0) > 1e-10 * np.max(np.abs(np.array(c['g'], float)), initial=0):
            return True
    return False


class Lkd:
    """All quantities in scaled coordinates at scaled hyperparameters sc (th, alpha, varK, noise)."""

    def __init__(self, c, sc=None, pnlt=None):
        self.c = c
        self.sc = sc = scaled(c) if sc is None else sc
        self.pnlt = pnlt
        self.noisy = is_noisy(c)
        X, th, al = sc['X'], sc['th'], sc['alpha']
        self.use_g, self.bv = sc['g'] is not None, sc['bvec']
        n, d = X.shape
        self.y = ref.data_vec(sc['f'], sc['g'])
        N = self.N = self.y.size
        self.n = n
        self.M = ref.mean_basis(n, (N - n) // d, d)
        self.vk = vk = sc['varK'] if self.noisy else 1.0
        noise = sc['noise'] if self.noisy else np.zeros(N)
        self.K = K = ref.kern(c['kernel'], X, X, th, al, self.use_g, self.use_g, self.bv, self.bv)
        self.Kn = K + np.diag(noise / vk)
        self.pre = c['wc'] == 'precon'
        self.eta = eta_ref(c, self.Kn, K)
        self.Dn = np.diag(self.Kn).copy() if self.pre else np.ones(N)
        self.A = vk * (self.Kn + self.eta * np.diag(self.Dn))
        self.D = np.sqrt(np.diag(self.A))
        As = self.A / np.outer(self.D, self.D)
        self.w, self.V = np.linalg.eigh((As + As.T) / 2)
        if self.w[0] <= 0:
            raise Skip()
        self.cond = self.w[-1] / self.w[0]
        xm = np.abs(np.array(c['X'], float)).max()
        self.ex = 4 * EPS * 2 * xm * sc['kx'] * np.sqrt(th.max()) + EPS
        self.e2 = C * (N * EPS + self.ex) * max(self.w[-1], 1.0)
        if self.e2 * self.cond > 0.02:
            raise Skip()
        AiM = self.solve(self.M)
        Aiy = self.solve(self.y)
        self.MAM = self.M @ AiM
        self.beta = (self.M @ Aiy) / self.MAM
        self.a = self.solve(self.y - self.M * self.beta)
        self.q = (self.y - self.M * self.beta) @ self.a
        self.logdet = np.sum(np.log(self.w)) + 2 * np.sum(np.log(self.D))
        a_s = self.a * self.D
        an = np.linalg.norm(a_s)
        ys = C * EPS * (sc['kf'] * (np.abs(np.array(c['f'])).max() + abs(sc['sfv'])) + np.abs(self.y[:n]).max(initial=0))
        self.yerr = ys / self.D[:n].min() * np.sqrt(N) + C * EPS * np.linalg.norm(self.y / self.D)
        self.t_beta = 2 * (self.e2 * np.linalg.norm(AiM * self.D) * an + self.yerr * np.linalg.norm(AiM * self.D)) / self.MAM + C * EPS * abs(self.beta)
        self.t_q = 2 * (self.e2 * an ** 2 + 2 * self.yerr * an) + C * EPS * self.q
        self.t_logdet = 1.5 * self.e2 * np.sum(1 / self.w) + C * EPS * (N + abs(self.logdet) + np.sum(np.abs(np.log(self.D))))
        if self.noisy:
            self.varK = None
            self.lkd = -0.5 * (self.logdet + self.q)
            self.t_lkd = 0.5 * (self.t_logdet + self.t_q)
        else:
            self.varK = max(1e-32, self.q / N)
            self.t_varK = self.t_q / N
            if N < 2 or self.q <= 0 or self.t_q > 0.05 * self.q or self.varK < 1e-28:
                raise Skip()
            self.pen, self.dpen = 0.0, 0.0
            if pnlt is not None:
                vf = max(np.var(sc['f']), pnlt['lb'])
                ex = max(self.varK - pnlt['c2'] * vf, 0.0)
                self.pen, self.dpen = pnlt['c1'] * vf * ex ** 2, 2 * pnlt['c1'] * vf * ex
                self.t_pen = self.dpen * self.t_varK + pnlt['c1'] * vf * self.t_varK ** 2 + C * EPS * self.pen
            else:
                self.t_pen = 0.0
            self.lkd = -0.5 * (N * np.log(self.varK) + self.logdet) - self.pen
            self.t_lkd = 0.5 * (N * self.t_varK / self.varK * 1.1 + self.t_logdet) + self.t_pen + C * EPS * abs(N * np.log(self.varK))

    def solve(self, B):
        def s1(B):
            t = (B.T / self.D).T
            t = self.V @ ((self.V.T @ t).T / self.w).T
            return (t.T / self.D).T
        x = s1(B)
        return x + s1(B - self.A @ x)

    def eta_rows(self):
        """(varies, margin of the largest row sum over the others, relative)."""
        if self.c['wc'] != 'rescale_eta_vary' and self.c['eta_const']:
            return False, 1.0
        if self.pre:
            p = np.sqrt(np.diag(self.Kn))
            Mx = self.Kn / np.outer(p, p)
        else:
            Mx = self.K
        s = np.sort(np.abs(Mx).sum(1))
        return True, (1.0 if len(s) == 1 else 1 - s[-2] / s[-1])

    def dA(self, name):
        """Derivative of the regularised covariance (kernel matrix if noise-free), nugget included."""
        c, sc, N, n = self.c, self.sc, self.N, self.n
        noise = sc['noise']
        vk = self.vk
        dK = np.zeros((N, N))
        dnv = np.zeros(N)        # derivative of noise / varK
        dvk = 0.0
        if name.startswith('theta'):
            dK = ref.kern_dhp(c['kernel'], sc['X'], sc['th'], sc['alpha'], self.use_g, self.bv, 'theta', int(name[5:]))
        elif name == 'alpha':
            dK = ref.kern_dhp(c['kernel'], sc['X'], sc['th'], sc['alpha'], self.use_g, self.bv, 'alpha')
        elif name == 'varK':
            dnv = -noise / vk ** 2
            dvk = 1.0
        elif name == 'var_f':
            dnv[:n] = 1 / vk
        else:
            dnv[n:] = 1 / vk
        dKn = dK + np.diag(dnv)
        deta = 0.0
        if self.eta_rows()[0]:
            cm = c['cmax'] - 1
            if self.pre:
                p = np.sqrt(np.diag(self.Kn))
                Mx = self.Kn / np.outer(p, p)
                u = np.diag(dKn) / np.diag(self.Kn)
                dM = dKn / np.outer(p, p) - 0.5 * Mx * (u[:, None] + u[None, :])
                np.fill_diagonal(dM, 0.0)
            else:
                Mx, dM = self.K, dK
            i = int(np.argmax(np.abs(Mx).sum(1)))
            deta = float(np.sign(Mx[i]) @ dM[i]) / cm
        dD = np.diag(dKn) if self.pre else np.zeros(N)
        return dvk * (self.Kn + self.eta * np.diag(self.Dn)) + vk * (dKn + np.diag(self.eta * dD + deta * self.Dn))

    def value_of(self, name):
        sc = self.sc
        return {'alpha': sc['alpha'], 'varK': sc['varK'], 'var_f': sc['var_f'], 'var_g': sc['var_g']}.get(name) if not name.startswith('theta') else sc['th'][int(name[5:])]

    def grad(self, name):
        """(d lkd / d name * value, tolerance, d logdet * value, d varK * value, d beta * value)."""
        p = self.value_of(name)
        dA = self.dA(name) * p
        N = self.N
        As = dA / np.outer(self.D, self.D)
        Wi = (self.V / self.w) @ self.V.T
        a_s = self.a * self.D
        aa = a_s @ As @ a_s
        tr = np.sum(Wi * As)
        an = np.linalg.norm(a_s)
        B = Wi @ As @ Wi
        nuc = np.sum(np.linalg.svd(B, compute_uv=False))
        # rounding of the derivative matrix itself: relative to the natural size of its entries
        nat = 6.0 * (1 + (1.0 if name != 'alpha' else p))
        da = C * (EPS + self.ex) * nat
        t_aa = 2 * (2 * self.e2 * an * np.linalg.norm(Wi @ As @ a_s) + da * N * an ** 2 + 2 * self.yerr * np.linalg.norm(Wi @ As @ a_s))
        t_tr = 2 * (self.e2 * nuc + da * np.sqrt(N) * np.sum(1 / self.w))
        AiM = self.solve(self.M)
        dbeta = -(AiM @ dA @ self.a) / self.MAM
        if self.noisy:
            g = 0.5 * aa - 0.5 * tr
            t = 0.5 * (t_aa + t_tr)
            dv = None
        else:
            dv = -aa / N
            k = N / (2 * self.varK) + self.dpen
            g = -dv * k - 0.5 * tr
            kt = N / (2 * self.varK) * self.t_varK / self.varK * 1.2
            if self.pnlt is not None:
                kt += 2 * self.pnlt['c1'] * max(np.var(self.sc['f']), self.pnlt['lb']) * self.t_varK
            t = t_aa / N * k + abs(dv) * kt + 0.5 * t_tr
        t += C * EPS * (abs(tr) + abs(g))
        return dict(g=g, t=t, dlogdet=tr, t_dlogdet=t_tr + C * EPS * abs(tr), dvarK=dv, t_dvarK=t_aa / N, dbeta=dbeta, p=p)
