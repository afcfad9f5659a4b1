"""C08: the conditioning methods guarantee the bound on the condition number."""
import numpy as np
from hypothesis import strategies as st
from cases import kernels, jl, arr, arrays, new_gp, scaled, hp_of, structure, expand, vreq, tags_of, RESCALE
from harness import Sub, Violation, Skip

PROP = 'C08'
RULE = ('Adversarial point sets (clusters, coincident points, lattices, strongly anisotropic length scales; targets 3 to 1e12) followed by a '
        'short hill climb over points and length scales that maximises the condition number of the matrix that is factorised; each matrix '
        'visited is checked against the target. Non-trivial: without the nugget the matrix would exceed the target. Scaled coordinates: '
        'smallest (largest) distance of the stored data equals the requirement; non-trivial: the points needed rescaling.')
ASSUMPTIONS = ['relative tolerance 1e-6 plus 40 N eps target for the eigenvalues computed by LAPACK']
EPS = 2.3e-16


@st.composite
def _cases(draw):
    mode = draw(st.sampled_from(['precon', 'precon', 'precon_noise', 'gradfree', 'rows_base', 'rows_precon', 'rows_vary', 'rows_other']))
    c = dict(mode=mode, kernel=draw(kernels()), d=draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 6, 9])), n=draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 3, 4, 5, 6, 7, 15])),
             cmax=draw(st.sampled_from([3.0, 20.0, 100.0, 1e4, 1e6, 1e10, 1e12])),
             eta_mtd=draw(st.sampled_from(['Kbase_eta', 'Kbase_eta_w_dim'])), eta_const=not mode.startswith('rows'),
             use_grad=mode != 'gradfree', wc='precon' if 'precon' in mode else 'rescale_eta_vary' if mode == 'rows_vary' else 'base')
    if mode == 'rows_other':
        c['wc'] = draw(st.sampled_from(['dflt_vmin', 'dflt_vmax', 'rescale_origin']))
    if mode == 'gradfree':
        c['wcname'] = draw(st.sampled_from(['base', 'precon', 'dflt_vmin', 'rescale_origin']))
    vary = mode in ('rows_vary', 'rows_other')
    if mode == 'rows_base':
        c['use_grad'] = draw(st.booleans())
    if vary:
        c['n'] = max(2, c['n'])
        c['eta_const'] = draw(st.booleans()) if mode == 'rows_vary' else False
    kind = draw(st.sampled_from(['uniform', 'cluster', 'coincident', 'lattice', 'line']))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
    n, d = c['n'], c['d']
    X = rng.uniform(-1, 1, (n, d))
    if vary and kind == 'coincident':
        kind = 'cluster'
    if kind == 'cluster':
        X = X[rng.integers(0, max(1, n // 3), n)] + rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-6, -1)
    elif kind == 'coincident':
        X = X[rng.integers(0, max(1, n // 2), n)]
    elif kind == 'lattice':
        X = np.round(X * 1.5)
        if vary:
            X = X + rng.uniform(-0.1, 0.1, X.shape)
    elif kind == 'line':
        X = np.outer(rng.uniform(-1, 1, n), rng.normal(size=d))
    c['X'] = X
    c['theta'] = 10.0 ** (rng.choice([-3, -1, 0, 0, 1, 3]) + rng.uniform(-1, 1) * rng.choice([0, 1, 3]) * rng.uniform(-1, 1, d))
    c['alpha'] = float(10 ** rng.uniform(-1.5, 1)) if c['kernel'] == 'RatQu' else None
    c['varK'] = float(10 ** rng.uniform(-3, 3))
    c['bvec'] = [bool(b) for b in rng.uniform(size=n) < 0.6] if c['use_grad'] and rng.uniform() < 0.4 else None
    ng = 0 if not c['use_grad'] else n if c['bvec'] is None else sum(c['bvec'])
    c['f'] = rng.normal(size=n)
    c['g'] = rng.normal(size=(ng, d)) if c['use_grad'] else None
    nz = mode == 'precon_noise'
    c['sf'] = 10.0 ** rng.uniform(-3, 1, n) * (rng.uniform(size=n) < 0.7) if nz else np.zeros(n)
    c['sg'] = None if not c['use_grad'] else (10.0 ** rng.uniform(-3, 1, (ng, d)) if nz else np.zeros((ng, d)))
    c['beta'], c['var_f'], c['var_g'] = 0.3, None, None
    c['climb'] = draw(st.sampled_from([0, 10, 25]))
    c['cseed'] = draw(st.integers(0, 2 ** 31))
    return jl(c)


def cond_of(c):
    """Condition number of the matrix that is factorised, computed from the covariance returned by the library."""
    gp = new_gp(c)
    X, f, sf, g, sg, bvec = arrays(c)
    gp.set_data(X, f, sf, g, sg, bvec)
    hp = hp_of(gp, c)
    Kern, Kcor, Kcov, cho, cond, eta, idx = gp.calc_all_K_w_chofac(gp.get_scl_x_w_dist()[1], hp)
    sc = scaled(c)
    N = Kcov.shape[0]
    if not np.all(np.isfinite(Kcov)):
        raise Violation('the covariance matrix is not finite')
    D = np.ones(N)
    if c['wc'] == 'precon':
        D = np.sqrt(np.diag(Kern) + sc['noise'] / sc['varK'])
    A = Kcov / np.outer(D, D) / sc['varK']
    w = np.linalg.eigvalsh((A + A.T) / 2)
    B = A - eta * np.eye(N)
    w0 = np.linalg.eigvalsh((B + B.T) / 2)
    tol = 1e-6 + 40 * N * EPS * c['cmax']
    nm = '%s method (%s nugget)' % (c['wc'], 'constant' if c['eta_const'] else 'row-sum')
    if w[0] <= 0 or w[-1] / w[0] > c['cmax'] * (1 + tol):
        raise Violation('condition number %.10g of the factorised matrix exceeds the target %.10g: %s, %d points in %d dimensions' % (
            w[-1] / w[0] if w[0] > 0 else np.inf, c['cmax'], nm, c['n'], c['d']))
    if cho is None:
        raise Violation('Cholesky factorisation failed: %s' % nm)
    return w[-1] / w[0] / c['cmax'], bool(w0[0] <= 0 or w0[-1] / w0[0] > c['cmax'])


def o_bound(c):
    r, nt = cond_of(c)
    rng = np.random.default_rng(c['cseed'])
    best = r
    cur = dict(c)
    for k in range(c['climb']):
        t = dict(cur)
        X = np.array(t['X'])
        if rng.uniform() < 0.6:
            i = rng.integers(0, len(X))
            X[i] = X[i] + rng.normal(size=X.shape[1]) * 10.0 ** rng.uniform(-2, 0) * (np.ptp(X) + 1e-3)
            if c['mode'] in ('rows_vary', 'rows_other') and min(np.linalg.norm(X[a] - X[b]) for a in range(len(X)) for b in range(a)) < 1e-7:
                continue
            t['X'] = X.tolist()
        else:
            t['theta'] = (np.array(t['theta']) * 10.0 ** (rng.normal(size=X.shape[1]) * 0.4)).tolist()
        r2, n2 = cond_of(t)
        nt |= n2
        if r2 > best:
            best, cur = r2, t
    return nt, ['mode=' + c['mode'], 'kernel=' + c['kernel'], 'd=%d' % c['d'], 'target=%g' % c['cmax'],
                'reached=%s' % ('>0.9' if best > 0.9 else '0.5-0.9' if best > 0.5 else '<0.5')]


def dcases():
    return structure(wcs=RESCALE, use_grads=(True,), nmin=2, noises=('none', 'known'), scales=(-4, 4)).map(expand).map(jl)


def o_dist(c):
    gp = new_gp(c)
    X, f, sf, g, sg, bvec = arrays(c)
    gp.set_data(X, f, sf, g, sg, bvec)
    Xs = np.asarray(gp.get_scl_x_w_dist()[0])
    if Xs.shape != X.shape:
        raise Violation('scaled points have shape %s' % (Xs.shape,))
    D = np.sqrt(((Xs[:, None] - Xs[None]) ** 2).sum(-1))[np.triu_indices(len(X), 1)]
    want, got, nm = {'rescale_origin': (vreq(c['n'], c['d']), D.min(), 'smallest'), 'rescale_eta_vary': (1.0, D.min(), 'smallest'),
                     'dflt_vmin': (1.0, D.min(), 'smallest'), 'dflt_vmax': (1.0, D.max(), 'largest')}[c['wc']]
    D0 = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))[np.triu_indices(len(X), 1)]
    ext = np.abs(X).max() / D0.min() * 1e-15 * 20 + 1e-12
    if not abs(got / want - 1) <= ext:
        raise Violation('%s distance between the scaled points is %.12g, required %.12g (%s)' % (nm, got, want, c['wc']))
    # same shape: distances are all scaled by the same factor
    q = D / D0
    if not np.ptp(q) <= 4 * ext * q.max():
        raise Violation('distances are not scaled by one factor: %r' % q.tolist())
    return bool(abs(q[0] - 1) > 1e-3), tags_of(c)


SUBS = [Sub('bound', _cases, o_bound, quick=220, thorough=6000, weight=4.0), Sub('distance', dcases, o_dist, quick=120, thorough=1500)]
