"""C18: the preconditioner is the prior scale of the observations; its inverse, derivative and parameter maps are exact."""
import numpy as np
from hypothesis import strategies as st
import ref
from cases import kernels, structure, expand, jl, arr, arrays, make_gp, scaled, hp_of, close, tags_of
from harness import Sub, Violation

PROP = 'C18'
RULE = ('(maps) length scales over 24 orders of magnitude, 0-40 values and 0-15 gradients in 1-10 dimensions: preconditioner, inverse, derivative '
        'and parameter maps against the prior standard deviations computed from the reference kernel at coincident points, instance and '
        'static versions, vector and matrix form. (matrix) preconditioned surrogates from data: unit diagonal, scaling back, factorisation. '
        'Non-trivial: at least two different length scales or a partial mask, and at least one gradient.')
ASSUMPTIONS = ['round-off tolerance 1e-13 relative for the maps, 1e-12 for matrices']

TOL = 1e-13


@st.composite
def map_cases(draw):
    d = draw(st.integers(1, 10))
    lo = draw(st.sampled_from([-12, -6, -2]))
    e = draw(st.lists(st.floats(lo, -lo, allow_nan=False), min_size=d, max_size=d))
    return dict(kernel=draw(kernels()), d=d, n=draw(st.integers(0, 40)), ng=draw(st.integers(0, 15)), theta=[float(10.0 ** v) for v in e],
                vec=draw(st.booleans()), static=draw(st.booleans()), cg=draw(st.booleans()), alpha=draw(st.sampled_from([0.3, 1.0, 2.0, 7.5])))


def prior_std(kernel, th, alpha):
    """Standard deviation of each partial derivative of the unit-variance prior."""
    d = len(th)
    x = np.zeros((1, d))
    K = ref.kern(kernel, x, x, th, alpha, True, True)
    return np.sqrt(np.diag(K)[1:].real)


def dprior_std(kernel, th, alpha):
    out = np.zeros((len(th), len(th)))
    x = np.zeros((1, len(th)))
    for j in range(len(th)):
        t = np.asarray(th, complex).copy()
        h = 1e-30 * th[j]
        t[j] += 1j * h
        K = ref.kern(kernel, x, x, t, alpha, True, True)
        out[:, j] = np.sqrt(np.diag(K)[1:]).imag / h
    return out                       # [i, j] = d std_i / d theta_j


def funcs(kernel, static):
    if static:
        from gpgradpy.src.kernel import KernelSqExp, KernelMatern5f2, KernelRatQuad
        m = dict(SqExp=KernelSqExp, Ma5f2=KernelMatern5f2, RatQu=KernelRatQuad)[kernel]
        import types
        if isinstance(m, types.ModuleType):
            m = getattr(m, m.__name__.split('.')[-1])
        p = dict(SqExp='sq_exp', Ma5f2='matern_5f2', RatQu='rat_quad')[kernel]
        return tuple(getattr(m, '%s_%s' % (p, s)) for s in ('Kern_precon', 'theta2gamma', 'gamma2theta'))
    from gpgradpy.src.GaussianProcess import GaussianProcess
    gp = GaussianProcess(3, True, kernel, 'precon')
    return gp.calc_Kern_precon, gp.theta2gamma, gp.gamma2theta


def rel(name, got, want, tol=TOL):
    want = np.asarray(want, float)
    close(name, got, want, tol, scale=np.abs(want))


def o_maps(c):
    d, n, ng = c['d'], c['n'], c['ng']
    th = arr(c['theta'])
    fp, t2g, g2t = funcs(c['kernel'], c['static'])
    std = prior_std(c['kernel'], th, c['alpha'])
    gam = t2g(th.copy())
    rel('theta2gamma', gam, std)
    rel('gamma2theta(theta2gamma)', g2t(np.array(gam)), th)
    rel('theta2gamma(gamma2theta)', t2g(g2t(th.copy())), th)
    P, Pi, dP = fp(n, ng, th.copy(), c['cg'], c['vec'])
    N = n + ng * d
    p = np.concatenate([np.ones(n)] + [np.full(ng, s) for s in std])
    dp = np.zeros((N, d))
    ds = dprior_std(c['kernel'], th, c['alpha'])
    for i in range(d):
        for j in range(d):
            dp[n + i * ng:n + (i + 1) * ng, j] = ds[i, j]
    if c['vec']:
        rel('preconditioner', P, p)
        rel('inverse of the preconditioner', Pi, 1 / p)
        rel('derivative of the preconditioner', dP, dp, 1e-12)
    else:
        rel('preconditioner', P, np.diag(p))
        rel('inverse of the preconditioner', Pi, np.diag(1 / p))
        rel('derivative of the preconditioner', dP, np.array([np.diag(dp[:, j]) for j in range(d)]).reshape(d, N, N), 1e-12)
        close('preconditioner times its inverse', np.asarray(P) @ np.asarray(Pi), np.eye(N), 1e-13, scale=1.0)
        # same numbers as the vector form
        Pv, Piv, dPv = fp(n, ng, th.copy(), c['cg'], True)
        rel('matrix form (vs vector form)', P, np.diag(Pv), 0)
        rel('matrix form of the inverse (vs vector form)', Pi, np.diag(Piv), 0)
        for j in range(d):
            rel('matrix form of the derivative (vs vector form)', np.asarray(dP)[j], np.diag(np.asarray(dPv)[:, j]), 0)
    return (ng > 0 and d > 1 and len(set(c['theta'])) > 1), ['kernel=' + c['kernel'], 'd=%d' % d, 'vec=%s' % c['vec'], 'static=%s' % c['static'],
                                                            'ng=%s' % ('0' if ng == 0 else '1' if ng == 1 else '>1')]


@st.composite
def mat_cases(draw):
    s = draw(structure(dmax=5, nmax=6, wcs=('precon',), use_grads=(True,), scales=(-3, 3)))
    c = expand(s)
    return jl(c)


def o_matrix(c):
    gp = make_gp(c)
    sc = scaled(c)
    hp = hp_of(gp, c, sc)
    d, n = c['d'], c['n']
    R = gp.get_scl_x_w_dist()[1]
    Kern, Kcor, Kcov, ch, cond, eta, idx = gp.calc_all_K_w_chofac(R, hp)
    N = np.asarray(Kern).shape[0]
    ng = (N - n) // d
    P, Pi, dP = gp.calc_Kern_precon(n, ng, hp.theta.copy(), True, True)
    Pn = np.asarray(P)
    std = prior_std(c['kernel'], sc['th'], sc['alpha'])
    rel('preconditioner', P, np.concatenate([np.ones(n)] + [np.full(ng, s) for s in std]))
    close('diagonal of the preconditioned kernel matrix', np.diag(Kern / np.outer(Pn, Pn)), np.ones(N), 1e-13, scale=1.0)
    close('diagonal of the preconditioned matrix', np.diag(Kcor), np.ones(N), 1e-13, scale=1.0)
    noisy = np.any(sc['noise'] > 0)
    # scale of the observations incl. noise
    q = np.sqrt(np.diag(Kern) + sc['noise'] / sc['varK'])
    M = (Kern + np.diag(sc['noise'] / sc['varK'])) / np.outer(q, q)
    close('preconditioned matrix', Kcor, M, 1e-12, scale=1.0)
    if not noisy:
        close('scaled preconditioned matrix', np.asarray(Kcor) * np.outer(Pn, Pn), Kern, 1e-12, scale=np.outer(q, q))
    # |correlation| <= 1
    if np.abs(Kcor).max() > 1 + 1e-12:
        raise Violation('preconditioned matrix has an entry of magnitude %.17g > 1' % np.abs(Kcor).max())
    close('covariance matrix', np.asarray(Kcov) / np.outer(q, q) / sc['varK'], M + eta * np.eye(N), 1e-12, scale=1.0)
    if ch is not None:
        L = np.tril(ch[0]) if ch[1] else np.triu(ch[0]).T
        close('factorisation', (L @ L.T) / np.outer(q, q) / sc['varK'], M + eta * np.eye(N), 1e-11, scale=1.0)
    else:
        raise Violation('the preconditioned matrix was not factorised')
    part = c['bvec'] is not None and 0 < sum(c['bvec']) < n
    return ng > 0 and (d > 1 or part), tags_of(c) + ['noisy=%s' % bool(noisy)]


SUBS = [Sub('maps', map_cases, o_maps, quick=800, thorough=20000),
        Sub('matrix', mat_cases, o_matrix, quick=400, thorough=8000)]
