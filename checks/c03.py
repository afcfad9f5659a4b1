"""C03: surrogate mean and standard deviation equal the exact GP posterior."""
import copy
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, make_gp, hp_of, scaled, close, tags_of, shape_of
from post import Post, eval_points
from harness import Sub, Violation, Skip

PROP = 'C03'
RULE = ('Random surrogates (kernels, dimensions 1-4, up to 7 points, some with up to 24 or 70 points, masks, noise kinds, conditioning methods, target condition numbers '
        '50..1e10, coordinate scales 1e-2..1e2, value scales 1e-3..1e3) evaluated at points at, next to, between, around and outside the '
        'data. Non-trivial: the round-off tolerance of at least one point is below 1e-5 of the prior scale and the posterior differs from '
        'the prior there.')
ASSUMPTIONS = ['documented nugget formulas (paper of the package) as written in lib/cases.py eta_ref',
               'first-order backward-error tolerance with factor 60; cases with (tolerance x condition number) > 0.02 are skipped']


def with_points(c, k=5):
    rng = np.random.default_rng(int(abs(float(c['f'][0])) * 1e6) % 2 ** 32)
    c['xt'] = jl(eval_points(c, rng, k))
    return c


LLS = (0.15, 0.3, 0.5, 0.8, 1.2, 3.0, 10.0)


def cases(**kw):
    kw.setdefault('lls', LLS)
    return structure(**kw).map(expand).map(with_points).map(jl)


def o_post(c):
    gp = make_gp(c)
    P = Post(c)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, P.sc))
    xt = arr(c['xt'])
    out = gp.eval_model(xt)
    mu = shape_of('mean', out[0], (len(xt),))
    sig = shape_of('standard deviation', out[1], (len(xt),))
    nt = False
    for i, x in enumerate(xt):
        e = P.at(x)
        if not abs(mu[i] - e['mu']) <= e['tmu']:
            raise Violation('mean at %s is %.17g, exact posterior mean %.17g (tolerance %.2g)' % (x, mu[i], e['mu'], e['tmu']))
        if not abs(sig[i] ** 2 - e['var']) <= e['tvar'] + 1e-13 * e['var']:
            raise Violation('standard deviation at %s is %.17g, exact posterior value %.17g (tolerance on the variance %.2g)' % (
                x, sig[i], np.sqrt(e['var']), e['tvar']))
        nt |= e['tvar'] < 1e-5 * e['prior'] and e['tmu'] < 1e-5 * np.sqrt(e['prior']) * 10 and e['var'] < 0.99 * e['prior']
    one = gp.eval_model(xt[0], squeeze_nx=True)
    e = P.at(xt[0])
    if np.ndim(one[0]) != 0 or not abs(one[0] - e['mu']) <= e['tmu'] or not abs(one[1] ** 2 - e['var']) <= e['tvar'] + 1e-13 * e['var']:
        raise Violation('squeezed evaluation gives %s, %s; expected %.17g, %.17g' % (one[0], one[1], e['mu'], np.sqrt(e['var'])))
    return bool(nt), tags_of(c)


def ref_dist(X):
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(2))
    return D[~np.eye(len(X), dtype=bool)].min()


def o_other(c):
    """Mean with replaced data of the same shape (same points, other values)."""
    gp = make_gp(c)
    sc = scaled(c)
    hp = hp_of(gp, c, sc)
    P0 = Post(c)
    gp.set_hpara('set', 0, hp_vals=hp)
    X, f, sf, g, sg, bvec = arrays(c)
    f2 = f + arr(c['df']) * (np.abs(f).max() + 1e-12)
    g2 = None if g is None else g * (1 + arr(c['df'])[0]) + 0.1 * np.abs(g).max()
    xt = arr(c['xt'])
    mu, dmu = gp.calc_model_mean_w_data_init(xt, gp.KernEta_chofac, hp.beta, X, f2, g2)
    mu, dmu = shape_of('mean with other data', mu, (len(xt),)), shape_of('gradient of mean with other data', dmu, (len(xt), c['d']))
    # scaling stays that of the surrogate
    sc2 = dict(sc)
    sc2['f'] = (f2 - sc['sfv']) * sc['kf']
    sc2['g'] = None if g2 is None else g2 * sc['kf'] / sc['kx']
    c2 = dict(c, f=jl(f2), g=jl(g2))
    P = Post(c2, sc2)
    nt = False
    for i, x in enumerate(xt):
        e = P.at(x)
        if not abs(mu[i] - e['mu']) <= e['tmu']:
            raise Violation('mean with other data at %s is %.17g, exact value %.17g (tolerance %.2g)' % (x, mu[i], e['mu'], e['tmu']))
        if not np.all(np.abs(dmu[i] - e['dmu']) <= e['tdmu']):
            raise Violation('gradient of the mean with other data at %s is %s, exact value %s' % (x, dmu[i], e['dmu']))
        nt |= e['tmu'] < 1e-5 * np.sqrt(e['prior']) * 10
    # factor and data of another surrogate, with other points (the scaling stays that of the first one)
    if not gp.b_use_data_scl and len(X) > 1:
        X2 = X[::-1] + 0.05 * ref_dist(X) * np.random.default_rng(len(X)).uniform(-1, 1, X.shape)
        c3 = dict(c2, X=jl(X2))
        gq = make_gp(c3)
        sc3 = scaled(c3)
        gq.set_hpara('set', 0, hp_vals=hp_of(gq, c3, sc3))
        P3 = Post(c3, sc3)
        a, b = gp.calc_model_mean_w_data_init(xt, gq.KernEta_chofac, hp.beta, X2, f2, g2)
        for i, x in enumerate(xt):
            e = P3.at(x)
            if not abs(a[i] - e['mu']) <= e['tmu'] or not np.all(np.abs(b[i] - e['dmu']) <= e['tdmu']):
                raise Violation('mean and gradient with other points at %s are %.17g, %s, exact values %.17g, %s' % (x, a[i], b[i], e['mu'], e['dmu']))
    # any number of points, with and without gradients, and explicit theta whatever the present hyperparameters
    fac, beta, th = gp.KernEta_chofac, np.array(hp.beta), np.array(hp.theta)
    gp.hp_vals = copy.deepcopy(hp)
    gp.hp_vals.theta = th * 1.7
    for k in range(1, len(xt) + 1):
        for cg in (True, False):
            a, b = gp.calc_model_mean_w_data_init(xt[:k], fac, beta, X, f2, g2, th, cg)
            if a.shape != (k,) or not np.all(np.abs(a - mu[:k]) <= np.array([P.at(x)['tmu'] for x in xt[:k]])):
                raise Violation('mean with other data at the first %d points is %r, with all points %r' % (k, a.tolist(), mu[:k].tolist()))
            if (b is None) == cg:
                raise Violation('gradient of the mean with other data is %s although calc_grad=%s' % ('missing' if b is None else 'present', cg))
            if cg and (b.shape != (k, c['d']) or not np.all(np.abs(b - dmu[:k]) <= np.array([P.at(x)['tdmu'] for x in xt[:k]]))):
                raise Violation('gradient of the mean with other data at the first %d points is %r, with all points %r' % (k, b.tolist(), dmu[:k].tolist()))
    return bool(nt), tags_of(c)


def _other():
    def add(c, s):
        c['df'] = jl(np.random.default_rng(s).normal(size=c['n']))
        return c
    return st.builds(add, cases(partial=False), st.integers(0, 2 ** 31)).map(jl)


def _large():
    """Many points; well-conditioned (noise, short length scales) so that the tolerance stays small."""
    return st.one_of(cases(nmin=30, nmax=70, dmax=3, use_grads=(False,), lls=(0.05, 0.15, 0.3, 1.2), noises=('none', 'known', 'known', 'unknown'),
                           scales=(-1, 1), big=False),
                     cases(nmin=20, nmax=45, dmax=3, use_grads=(True,), lls=(0.05, 0.15, 0.3), scales=(-1, 1), big=False))


SUBS = [
    Sub('posterior', cases, o_post, quick=300, thorough=6000, weight=2),
    Sub('large', _large, o_post, quick=30, thorough=600),
    Sub('other_data', _other, o_other, quick=100, thorough=2000),
]
