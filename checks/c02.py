"""C02: derivatives of kernel and covariance matrices w.r.t. the hyperparameters are exact."""
import numpy as np
import ref
from cases import structure, expand, jl, arr, make_gp, hp_of, ref_gp, close, tags_of
from harness import Sub, Violation, Skip
import c01

PROP = 'C02'
RULE = ('Same generators as C01 (masks, coincident points, anisotropic length scales, noise kinds, every conditioning method); every '
        'derivative matrix is compared entry by entry with the complex-step derivative of the reference covariance. Non-trivial: more '
        'than one point and at least one derivative row or noise entry (covariance) / one derivative matrix not identically zero (kernel).')
ASSUMPTIONS = ['complex-step derivatives of lib/ref.py are exact to rounding', 'agreement of 1e-10 relative to the natural size of each entry']


def _kcase():
    def sq(c):
        c['Y'] = c['X']
        c['b2'] = c['b1']
        return c
    return c01._kcase().map(sq)


def o_kernel(c):
    X = arr(c['X'])
    n, d = X.shape
    th, al = arr(c['theta']), c['alpha']
    b = arr(c['b1'], bool)
    nt = False
    for use_grad in (True, False):
        gp = c01.kernel_gp(c['kernel'], d, use_grad)
        R = gp.calc_Rtensor(X, X, 1)
        bb = b if use_grad else None
        m = 0 if not use_grad else (n if b is None else int(b.sum()))
        S = c01._scale(c['kernel'], th, al, d, n, m, n, m) if m else np.ones((n, n))
        G = gp.calc_Kern_grad_theta(R, th, al, bb)
        N = n + m * d
        if np.shape(G) != (d, N, N):
            raise Violation('derivative w.r.t. theta has shape %s, expected %s' % (np.shape(G), (d, N, N)))
        for i in range(d):
            want = ref.kern_dhp(c['kernel'], X, th, al, use_grad, bb, 'theta', i)
            close('d kernel / d theta[%d] (gradients %s)' % (i, use_grad), G[i] * th[i], want * th[i], 1e-11, 4 * S)
            nt |= np.any(want != 0)
        if c['kernel'] == 'RatQu':
            G = np.asarray(gp.calc_Kern_grad_alpha(R, th, al, bb))
            want = ref.kern_dhp(c['kernel'], X, th, al, use_grad, bb, 'alpha')
            if G.shape == (1, N, N):
                G = G[0]
            big = 1 + np.log1p(np.max(th * 4) / al)
            close('d kernel / d alpha (gradients %s)' % use_grad, G, want, 1e-11, S * (1 + 1 / al) * big)
    return bool(nt and n > 1), ['kernel=' + c['kernel'], 'd=%d' % d, 'mask=' + ('none' if b is None else 'given')]


def o_full(c):
    X = arr(c['X'])
    n, d = X.shape
    th, al = arr(c['theta']), c['alpha']
    R = np.ascontiguousarray(np.moveaxis(X[:, None, :] - X[None, :, :], 2, 0))
    S = c01._scale(c['kernel'], th, al, d, n, n, n, n)
    G = c01.full_fn(c['kernel'], 'calc_KernGrad_grad_th')(R, th, al)
    for i in range(d):
        close('d kernel / d theta[%d] (all gradients)' % i, G[i] * th[i],
              ref.kern_dhp(c['kernel'], X, th, al, True, None, 'theta', i) * th[i], 1e-11, 4 * S)
    if c['kernel'] == 'RatQu':
        G = np.asarray(c01.full_fn(c['kernel'], 'calc_KernGrad_grad_alpha')(R, th, al))
        G = G[0] if G.ndim == 3 else G
        big = 1 + np.log1p(np.max(th * 4) / al)
        close('d kernel / d alpha (all gradients)', G, ref.kern_dhp(c['kernel'], X, th, al, True, None, 'alpha'), 1e-11,
              S * (1 + 1 / al) * big)
    return n > 1, ['kernel=' + c['kernel'], 'd=%d' % d]


def expected_idx(gp, c):
    """Documented order of the optimised hyperparameters."""
    names = ['theta%d' % i for i in range(c['d'])]
    noisy = gp.b_has_noisy_data
    if c['kernel'] == 'RatQu' and gp.b_optz_hp_kernel:
        names.append('alpha')
    if noisy:
        names.append('varK')
    if c['sf'] is None:
        names.append('var_f')
    if c['use_grad'] and c['sg'] is None:
        names.append('var_g')
    return names


def ref_dcov(c, sc, R, name, normalised):
    """Derivative of the regularised covariance (or kernel matrix if normalised) with the nugget fixed."""
    N, n = R.Kreg.shape[0], c['n']
    vk = 1.0 if normalised else sc['varK']
    use_g, bv = sc['g'] is not None, sc['bvec']
    pre = c['wc'] == 'precon'
    if name.startswith('theta') or name == 'alpha':
        if name == 'alpha':
            dK = ref.kern_dhp(c['kernel'], sc['X'], sc['th'], sc['alpha'], use_g, bv, 'alpha')
        else:
            dK = ref.kern_dhp(c['kernel'], sc['X'], sc['th'], sc['alpha'], use_g, bv, 'theta', int(name[5:]))
        return vk * (dK + (R.eta * np.diag(np.diag(dK)) if pre else 0))
    if name == 'varK':
        return R.K + R.eta * (np.diag(np.diag(R.K)) if pre else np.eye(N))
    e = np.zeros(N)
    if name == 'var_f':
        e[:n] = 1
    else:
        e[n:] = 1
    return np.diag(e) * ((1 + R.eta) if pre else 1)


def o_cov(c):
    gp = make_gp(c)
    R, sc = ref_gp(c)
    x_scl, Rt = gp.get_scl_x_w_dist()
    hp = hp_of(gp, c, sc)
    n, d = c['n'], c['d']
    N = R.Kreg.shape[0]
    m = (N - n) // d
    S = c01._scale(c['kernel'], sc['th'], sc['alpha'], d, n, m, n, m) if N > n else np.ones((n, n))
    amp = 1.0 + np.abs(sc['X']).max() * np.sqrt(sc['th'].max()) * 4
    tol = 1e-11 * amp
    names = expected_idx(gp, c)
    info = gp.hp_info_optz_lkd
    if info.n_hp != len(names):
        raise Violation('%d hyperparameters are optimised, expected %s' % (info.n_hp, names))
    noisy = gp.b_has_noisy_data
    if noisy:
        o = gp.calc_all_K_w_chofac(Rt, hp)
        G = gp.calc_Kcov_grad_hp(info, hp, o[0], Rt, o[5])
    else:
        o = gp.calc_Kern_w_chofac(Rt, hp)
        G = gp.calc_KernGrad_hp(info, hp, Rt, o[5])
    if np.shape(G) != (len(names), N, N):
        raise Violation('derivatives have shape %s, expected %s' % (np.shape(G), (len(names), N, N)))
    for k, nm in enumerate(names):
        want = ref_dcov(c, sc, R, nm, not noisy)
        vk = sc['varK'] if noisy else 1.0
        if nm.startswith('theta'):
            s = sc['th'][int(nm[5:])]
            close('theta[%s] * d covariance / d theta[%s]' % (nm[5:], nm[5:]), G[k] * s, want * s, tol, vk * 4 * S * (1 + R.eta))
        elif nm == 'alpha':
            al = sc['alpha']
            close('d covariance / d alpha', G[k], want, tol, vk * 4 * S * (1 + 1 / al))
        elif nm == 'varK':
            close('d covariance / d varK', G[k], want, tol, S + np.diag(np.abs(np.diag(want))))
        else:
            close('d covariance / d ' + nm, G[k], want, 1e-12, 1.0 + R.eta)
    return bool(n > 1 and (N > n or noisy)), tags_of(c) + ['n_hp=%d' % len(names)]


SUBS = [
    Sub('kernel', _kcase, o_kernel, quick=400, thorough=6000),
    Sub('full', _kcase, o_full, quick=100, thorough=2000, lanes='nojit', weight=0.3),
    Sub('covariance', lambda: structure().map(expand).map(jl), o_cov, quick=250, thorough=4000),
]
