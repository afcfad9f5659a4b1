"""C01: the covariance matrix used by the surrogate is the exact joint covariance."""
import numpy as np
from hypothesis import strategies as st
import ref
from cases import (structure, expand, kernels, jl, arr, make_gp, hp_of, scaled, ref_gp, close, tags_of, rnd, shape_of)
from harness import Sub, Violation, Skip

PROP = 'C01'
RULE = ('Random kernel, dimension 1-4, point sets (generic, decimal, lattice, coincident points), length scales from far '
        'below to far above the spacing, any subset of points with derivatives, noise (zero/known/unknown) and every '
        'well-conditioning method; non-trivial: at least one derivative row or noise entry and a non-constant matrix.')
ASSUMPTIONS = ['reference kernel formulas in lib/ref.py (self-tested against complex-step differentiation by lib/selftest.py)',
               'double precision with at least 1e-11 relative agreement is required']


def kernel_gp(kernel, d, use_grad):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    return GaussianProcess(d, use_grad, kernel, 'base')


@st.composite
def _kcase(draw):
    s = dict(kernel=draw(kernels()), d=draw(st.sampled_from([1, 2, 3, 4] * 3 + [6, 9])), n1=draw(st.sampled_from([1, 2, 3, 4, 5] * 3 + [12])), n2=draw(st.sampled_from([1, 2, 3, 4, 5] * 3 + [15])),
             seed=draw(st.integers(0, 2 ** 32 - 1)), style=draw(st.sampled_from(['float', 'decimal', 'lattice'])),
             lt=draw(st.sampled_from([-6, -2, -1, 0, 0, 0, 1, 3])), same=draw(st.booleans()),
             b1=draw(st.sampled_from(['none', 'random', 'random', 'all', 'zero'])),
             b2=draw(st.sampled_from(['none', 'random', 'random', 'all', 'zero'])),
             dup=draw(st.booleans()), near=draw(st.sampled_from([None, None, None, -9.0, -7.0, -5.0, -4.0, -3.0, -2.0, -1.0])))
    rng = np.random.default_rng(s['seed'])
    X = rnd(rng, (s['n1'], s['d']), -1, 1, s['style'])
    Y = X.copy() if s['same'] else rnd(rng, (s['n2'], s['d']), -1, 1, s['style'])
    if s['dup']:
        Y[-1] = X[0]
    th = 10.0 ** (s['lt'] + rng.uniform(-1, 1, s['d']))
    if s['near'] is not None:
        # two points much closer than the length scales
        Y[-1] = X[0] + 10.0 ** s['near'] * rng.uniform(0.2, 1, s['d']) * rng.choice([-1, 1, 1, 0], s['d']) / np.sqrt(th)
        if s['same']:
            X = Y.copy()

    def bv(kind, n):
        return {'none': None, 'all': [True] * n, 'zero': [False] * n}.get(kind, [bool(b) for b in rng.uniform(size=n) < 0.5])
    c = dict(kernel=s['kernel'], d=s['d'], X=X, Y=Y, theta=th,
             alpha=float(10 ** rng.uniform(*draw(st.sampled_from([(-0.7, 1), (-0.7, 1), (-3, -0.7), (1, 3)])))) if s['kernel'] == 'RatQu' else None,
             b1=bv(s['b1'], len(X)), b2=bv(s['b2'], len(Y)))
    return jl(c)


def _scale(kernel, th, alpha, d, n1, m1, n2, m2):
    """Natural scale of each entry: sqrt of prior variances (2*theta*|f'(0)| for derivatives)."""
    f1 = {'SqExp': 1.0, 'RatQu': 1.0, 'Ma5f2': 5.0 / 6.0}[kernel]
    p1 = np.concatenate([np.ones(n1)] + [np.full(m1, np.sqrt(2 * f1 * th[a])) for a in range(d)])
    p2 = np.concatenate([np.ones(n2)] + [np.full(m2, np.sqrt(2 * f1 * th[a])) for a in range(d)])
    return np.outer(p1, p2)


def o_kernel(c):
    X, Y = arr(c['X']), arr(c['Y'])
    n1, d = X.shape
    n2 = Y.shape[0]
    th, al = arr(c['theta']), c['alpha']
    b1, b2 = arr(c['b1'], bool), arr(c['b2'], bool)
    gp = kernel_gp(c['kernel'], d, True)
    R = gp.calc_Rtensor(X, Y, 1)
    close('coordinate differences', R, np.moveaxis(X[:, None, :] - Y[None, :, :], 2, 0), 1e-15, 1.0)
    K0 = gp.calc_KernBase(R, th, al)
    close('value covariance', K0, ref.kern(c['kernel'], X, Y, th, al), 1e-11, 1.0)
    m1 = n1 if b1 is None else int(b1.sum())
    m2 = n2 if b2 is None else int(b2.sum())
    K = gp.calc_KernGrad(R, th, al, bvec_use_grad1=b1, bvec_use_grad2=b2)
    want = ref.kern(c['kernel'], X, Y, th, al, True, True, b1, b2)
    close('joint covariance', K, want, 1e-11, _scale(c['kernel'], th, al, d, n1, m1, n2, m2))
    spread = np.ptp(want[:n1, :n2]) > 1e-8
    return bool((m1 + m2 > 0) and (spread or n1 * n2 == 1)), [
        'kernel=' + c['kernel'], 'd=%d' % d, 'bvec1=%s' % ('none' if b1 is None else 'given'),
        'bvec2=%s' % ('none' if b2 is None else 'given'),
        'coincident' if np.any(np.all(X[:, None] == Y[None], axis=2)) else 'apart']


FULL = {'SqExp': ('KernelSqExp', 'KernelSqExpGrad', 'sq_exp'), 'Ma5f2': ('KernelMatern5f2', 'KernelMatern5f2Grad', 'matern_5f2'),
        'RatQu': ('KernelRatQuad', 'KernelRatQuadGrad', 'rat_quad')}


def full_fn(kernel, name):
    """The variants without gradient masks (classes that are importable but not used by the surrogate), if the tree has them."""
    import importlib
    mod, cls, pre = FULL[kernel]
    try:
        return getattr(getattr(importlib.import_module('gpgradpy.src.kernel.' + mod), cls), pre + '_' + name)
    except (ImportError, AttributeError):
        raise Skip()


def o_full(c):
    X, Y = arr(c['X']), arr(c['Y'])
    n1, d = X.shape
    n2 = Y.shape[0]
    th, al = arr(c['theta']), c['alpha']
    R = np.ascontiguousarray(np.moveaxis(X[:, None, :] - Y[None, :, :], 2, 0))
    K = full_fn(c['kernel'], 'calc_KernGrad')(R, th, al)
    close('joint covariance (all gradients)', K, ref.kern(c['kernel'], X, Y, th, al, True, True), 1e-11,
          _scale(c['kernel'], th, al, d, n1, n1, n2, n2))
    return True, ['kernel=' + c['kernel'], 'd=%d' % d]


def o_cov(c):
    gp = make_gp(c)
    R, sc = ref_gp(c)
    x_scl, Rt = gp.get_scl_x_w_dist()
    close('scaled points', x_scl, sc['X'], 1e-11, np.abs(sc['X']).max() + np.abs(sc['sx'] * sc['kx']).max())
    hp = hp_of(gp, c, sc)
    varK = sc['varK']
    d, n = c['d'], c['n']
    N = R.Kreg.shape[0]
    m = (N - n) // d
    S = _scale(c['kernel'], sc['th'], sc['alpha'], d, n, m, n, m) if N > n else np.ones((n, n))
    S = S + np.diag(sc['noise'] / varK)
    S0, S = S, S + np.diag(np.abs(np.diag(R.Kreg)))
    out = gp.calc_all_K_w_chofac(Rt, hp, calc_cond=True)
    if len(out) < 6:
        raise Violation('unexpected number of results')
    Kern, Kcor, Kcov, cho, cond, eta = out[:6]
    # coordinates are rescaled in double precision: allow their rounding error, amplified by theta*dist^2
    amp = 1.0 + np.abs(sc['X']).max() * np.sqrt(sc['th'].max()) * 4
    tol = 3e-12 * amp
    close('kernel matrix', Kern, R.K, tol, S0)
    if not abs(eta - R.eta) <= 1e-9 * R.eta:
        raise Violation('nugget %.17g, documented value %.17g' % (eta, R.eta))
    close('covariance matrix', Kcov, varK * R.Kreg, tol, varK * S)
    # symmetric up to the rounding of the coordinates
    close('asymmetry of covariance', Kcov - np.asarray(Kcov).T, np.zeros((N, N)), tol, varK * S)
    if c['wc'] == 'precon':
        p = np.sqrt(np.diag(R.Kn))
        close('correlation matrix', Kcor, R.Kn / np.outer(p, p), tol, 1.0)
    if cho is None:
        raise Violation('the covariance matrix has no Cholesky factor')
    L = np.asarray(cho[0])
    L = np.tril(L) if cho[1] else np.triu(L).T
    close('Cholesky factor times its transpose', L @ L.T, varK * R.Kreg, tol * 3, varK * S)
    # normalised by varK (used to evaluate the surrogate)
    out2 = gp.calc_all_K_w_chofac(Rt, hp, b_normlz_w_varK=True)
    close('normalised covariance matrix', out2[2], R.Kreg, tol, S)
    # explicit noise vector and skipped factorisation
    nv = sc['noise'] * 0.5 + 0.1 * varK * np.arange(1, N + 1) / N * np.diag(R.K)
    out3 = gp.calc_all_K_w_chofac(Rt, hp, noise_vec=nv, calc_chofac=False)
    Kn3 = R.K + np.diag(nv / varK)
    from cases import eta_ref
    e3 = eta_ref(c, Kn3, R.K)
    want3 = varK * (Kn3 + e3 * (np.diag(np.diag(Kn3)) if c['wc'] == 'precon' else np.eye(N)))
    close('covariance matrix with given noise', out3[2], want3, tol, varK * (S + np.diag(np.diag(want3) / varK)))
    if out3[3] is not None:
        raise Violation('a factorisation was returned although it was not requested')
    if not np.any(sc['noise']) and c['sf'] is not None and (c['sg'] is not None or not c['use_grad']):
        o4 = gp.calc_Kern_w_chofac(Rt, hp)
        close('regularised kernel matrix', o4[2], R.Kreg, tol, S)
    # points sets keep their identity
    return bool((N > n or np.any(sc['noise'])) and n > 1), tags_of(c) + ['cmax=%g' % c['cmax'], 'eta=' + (c['eta_mtd'] if c['eta_const'] else 'row-sum')]


SUBS = [
    Sub('kernel', _kcase, o_kernel, quick=400, thorough=6000),
    Sub('full', _kcase, o_full, quick=100, thorough=2000, lanes='nojit', weight=0.3),
    Sub('covariance', lambda: structure().map(expand).map(jl), o_cov, quick=250, thorough=4000),
]
