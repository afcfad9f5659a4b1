"""C05: the predicted uncertainty is bounded, non-negative, shrinks with data, and noise-free data are interpolated."""
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, make_gp, hp_of, scaled, close, tags_of, shape_of, RESCALE, eta_ref
from post import Post, eval_points
from harness import Sub, Violation, Skip
import c03

PROP = 'C05'
RULE = ('Random surrogates incl. nearly coincident points, very long and very short length scales and tight or loose condition targets. '
        'Oracles: (bounds) 0 <= sigma <= prior, finite, no refusal, at points at / within 1e-14..1e-2 of the data and far away; '
        '(data) residual at data points bounded by nugget and noise; (nested) sigma never increases when a point or gradients are added or '
        'noise is reduced with a fixed nugget. Non-trivial: some evaluated variance is below half of the prior (bounds, data), the '
        'variance strictly decreases by more than ten tolerances somewhere (nested).')
ASSUMPTIONS = ['the bounds oracle covers surrogates whose scaled condition number is below 1e13 (always true for the preconditioned method)',
               'first-order backward-error tolerance as in C03']


def _hard(c, r):
    """Make the geometry nasty: nearly coincident points, tiny / huge length scales."""
    rng = np.random.default_rng(r[0])
    X = arr(c['X'])
    n, d = X.shape
    sp = np.abs(X - X.mean(0)).max() + 1e-12
    if r[1] and n > 1:
        i, j = rng.choice(n, 2, replace=False)
        X[i] = X[j] + sp * 10.0 ** (-r[1]) * rng.normal(size=d)
    c['X'] = X
    c['theta'] = arr(c['theta']) * 10.0 ** r[2]
    c['far'] = jl(X[0] + (1 if rng.uniform() < 0.5 else -1) * np.array([10.0 ** rng.uniform(2, 5) for _ in range(d)]) / np.sqrt(c['theta']))
    pts = [X[rng.integers(n)] + sp * 10.0 ** rng.uniform(-14, -2) * rng.normal(size=d) for _ in range(6)]
    c['xt'] = np.vstack([np.array(pts), eval_points(jl(c), rng, 4)])
    return jl(c)


def _bounds():
    return st.builds(_hard, structure(cond_targets=(1e17, 1e17, 1e14, 1e12, 1e10, 1e10, 1e6, 50.0), eta_mtds=('Kbase_eta', 'Kbase_eta_w_dim'),
                                      nmax=9).map(expand).map(jl),
                     st.tuples(st.integers(0, 2 ** 31), st.sampled_from([0, 0, 1, 2, 3, 5, 8, 11]), st.sampled_from([-3, -2, -1, 0, 0, 0, 1, 2, 4])))


def cond_scaled(c, sc, x=None):
    """Condition number of the scaled covariance, nugget and, for a point x, the relative variance removed by the data."""
    import ref
    K = ref.kern(c['kernel'], sc['X'], sc['X'], sc['th'], sc['alpha'], sc['g'] is not None, sc['g'] is not None, sc['bvec'], sc['bvec'])
    Kn = K + np.diag(sc['noise'] / sc['varK'])
    eta = eta_ref(c, Kn, K)
    A = Kn + eta * (np.diag(np.diag(Kn)) if c['wc'] == 'precon' else np.eye(len(K)))
    p = np.sqrt(np.diag(A))
    w = np.linalg.eigvalsh(A / np.outer(p, p))
    cs = w[-1] / max(w[0], 1e-300)
    if x is None:
        return cs, eta
    xs = ((np.asarray(x, float) - sc['sx']) * sc['kx'])[None]
    k = ref.kern(c['kernel'], sc['X'], xs, sc['th'], sc['alpha'], sc['g'] is not None, False, sc['bvec'], None)[:, 0] / p
    try:
        quad = float(k @ np.linalg.solve(A / np.outer(p, p), k))
    except np.linalg.LinAlgError:
        quad = np.nan
    return cs, eta, quad


def o_bounds(c):
    if c['wc'] == 'rescale_eta_vary' or not c['eta_const'] or c['wc'] in RESCALE:
        pass
    sc = scaled(c)
    if not np.all(np.isfinite(sc['X'])):
        raise Skip()
    cs, eta, quad = cond_scaled(c, sc, arr(c['far']))
    guaranteed = c['wc'] == 'precon' or not c['use_grad']
    if cs > (1e11 if c['cmax'] > 1e15 else 1e14 if guaranteed else 1e12):
        raise Skip()
    gp = make_gp(c)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, sc))
    xt = np.vstack([arrays(c)[0], arr(c['xt']), arr(c['far'])[None]])
    prior = np.sqrt(sc['varK']) / sc['kf']
    mu, sig, dmu, dsig, _, _ = gp.eval_model(xt, calc_grad=True)
    shape_of('standard deviation', sig, (len(xt),))
    shape_of('mean', mu, (len(xt),))
    for nm, a in (('mean', mu), ('standard deviation', sig), ('gradient of the mean', dmu), ('gradient of the standard deviation', dsig)):
        if not np.all(np.isfinite(a)):
            raise Violation('%s is not finite: %s' % (nm, np.asarray(a).tolist()))
    if np.any(sig < 0) or np.any(sig > prior * (1 + 1e-9)):
        i = int(np.argmax(np.maximum(-sig, sig / prior - 1)))
        raise Violation('standard deviation %.17g at %s outside [0, %.17g]' % (sig[i], xt[i], prior))
    # far away: prior, up to what the (for RatQu slowly decaying) correlation with the data still removes
    if quad < 0.5 and not abs(sig[-1] - prior * np.sqrt(1 - max(quad, 0))) <= (1e-6 + 0.1 * abs(quad)) * prior:
        raise Violation('far from the data the standard deviation is %.17g, prior %.17g' % (sig[-1], prior))
    s1 = gp.eval_model(xt)[1]
    if np.any(np.abs(s1 ** 2 - sig ** 2) > 1e-9 * prior ** 2 * max(1, cs * 1e-10)):
        raise Violation('standard deviation depends on whether gradients are requested: %s, %s' % (s1.tolist(), sig.tolist()))
    # at data points the variance is at most that of one (regularised) observation
    n = c['n']
    rel = sc['noise'][:n] / sc['varK']
    lim = rel + eta * (1 + (rel if c['wc'] == 'precon' else 0))
    for i in range(n):
        v = (sig[i] / prior) ** 2
        b = lim[i] / (1 + lim[i])
        if not v <= b * (1 + 1e-9) + 2e-16 * 100 * len(sc['noise']) * max(1.0, np.sqrt(cs) * 1e-2):
            raise Violation('relative variance %.3g at data point %s exceeds %.3g allowed by nugget and noise' % (v, xt[i], b))
    if not (c['wc'] in RESCALE):
        s2 = gp.eval_model_var(xt, calc_grad=True)
        if not np.all(np.isfinite(s2[0])) or np.any(s2[0] < 0) or np.any(s2[0] > prior ** 2 * (1 + 1e-9)) or not np.all(np.isfinite(s2[1])):
            raise Violation('variance outside [0, prior variance] or not finite: %s' % s2[0].tolist())
        if np.any(np.abs(s2[0] - sig ** 2) > 1e-9 * prior ** 2 * max(1, cs * 1e-10)):
            raise Violation('variance %s of eval_model_var, standard deviation %s of eval_model' % (s2[0].tolist(), sig.tolist()))
    return bool(np.any(sig < 0.7 * prior)), tags_of(c) + ['log10cond=%d' % int(np.log10(cs))]


def o_data(c):
    """Residual at the data equals nugget/noise times weight: bounded, and zero-noise data are interpolated."""
    P = Post(c)
    gp = make_gp(c)
    sc, R = P.sc, P.R
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, sc))
    X, f, sf, g, sg, bvec = arrays(c)
    n, d = X.shape
    mu, sig, dmu, dsig, _, _ = gp.eval_model(X, calc_grad=True)
    shape_of('mean', mu, (n,)), shape_of('gradient of the mean', dmu, (n, d))
    D = np.diag(R.Kreg) - np.diag(R.K)     # nugget and noise of every observation
    nt = False
    for i in range(n):
        e = P.at(X[i])
        lim = D[i] * abs(R.a[i]) / sc['kf'] * (1 + 1e-6) + e['tmu']
        if not abs(mu[i] - f[i]) <= lim + 1e-14 * abs(f[i]):
            raise Violation('mean %.17g at data point %s, data %.17g, allowed difference %.3g' % (mu[i], X[i], f[i], lim))
        nt |= lim < 1e-3 * np.ptp(f)
    if g is not None and g.size:
        idx = np.arange(n) if bvec is None else np.flatnonzero(bvec)
        for a in range(d):
            for k, i in enumerate(idx):
                r = n + a * len(idx) + k
                e = P.at(X[i])
                lim = D[r] * abs(R.a[r]) * sc['kx'] / sc['kf'] * (1 + 1e-6) + e['tdmu'][a]
                if not abs(dmu[i, a] - g[k, a]) <= lim + 1e-14 * abs(g[k, a]):
                    raise Violation('gradient of the mean %.17g at data point %s, data %.17g, allowed difference %.3g' % (dmu[i, a], X[i], g[k, a], lim))
    return bool(nt), tags_of(c)


def _pick(c, s):
    c['pick'] = s
    return c


def o_nested(c):
    """Less data / more noise first, then the full case: variance must not increase."""
    rng = np.random.default_rng(c['pick'])
    X, f, sf, g, sg, bvec = arrays(c)
    n, d = X.shape
    kinds = []
    if n > 1 and c['wc'] not in RESCALE:
        kinds.append('point')
    if c['use_grad'] and n > 0:
        kinds.append('gradients')
    kinds.append('noise')
    kind = kinds[rng.integers(len(kinds))]
    if kind == 'noise' and c['sf'] is None and c['var_f'] is None:
        raise Skip()
    b = dict(c)
    full_b = np.ones(n, bool) if bvec is None else bvec
    if kind == 'point':
        k = int(rng.integers(n))
        keep = np.arange(n) != k
        b['n'] = n - 1
        b['X'], b['f'] = jl(X[keep]), jl(f[keep])
        b['sf'] = None if sf is None else jl(sf[keep])
        if c['use_grad']:
            rows = np.flatnonzero(full_b)
            gk = rows != k
            b['g'] = jl(g[gk])
            b['sg'] = None if sg is None else jl(sg[gk])
            b['bvec'] = None if bvec is None else [bool(v) for v in bvec[keep]]
    elif kind == 'gradients':
        drop = full_b & (rng.uniform(size=n) < 0.6)
        if not np.any(drop):
            raise Skip()
        nb = full_b & ~drop
        rows = np.flatnonzero(full_b)
        gk = nb[rows]
        b['g'] = jl(g[gk])
        b['sg'] = None if sg is None else jl(sg[gk])
        b['bvec'] = [bool(v) for v in nb]
    else:
        q = 1 + 2 * rng.uniform()
        for key, p in (('sf', 1), ('sg', 1), ('var_f', 2), ('var_g', 2)):
            if c[key] is not None:
                v = arr(c[key]) * q ** p
                if key == 'sf':
                    v = v + rng.uniform(size=v.shape) * 0.2 * (np.abs(f).max() + 1e-3)
                b[key] = jl(v)
    c2 = []
    for cc in (b, c):
        P = Post(cc)
        gp = make_gp(cc)
        gp.set_hpara('set', 0, hp_vals=hp_of(gp, cc, P.sc))
        c2.append((P, gp))
    xt = arr(c['xt'])
    sb, sa = c2[0][1].eval_model(xt)[1], c2[1][1].eval_model(xt)[1]
    shape_of('standard deviation', sb, (len(xt),)), shape_of('standard deviation', sa, (len(xt),))
    nt = False
    for i, x in enumerate(xt):
        t = c2[0][0].at(x)['tvar'] + c2[1][0].at(x)['tvar']
        if not sa[i] ** 2 <= sb[i] ** 2 + t:
            raise Violation('standard deviation at %s increases from %.17g to %.17g after %s' % (
                x, sb[i], sa[i], {'point': 'adding a point', 'gradients': 'adding gradients', 'noise': 'reducing the noise'}[kind]))
        nt |= bool(sb[i] ** 2 - sa[i] ** 2 > 10 * t)
    return nt, tags_of(c) + ['nested=' + kind]


def _nested():
    return st.builds(_pick, c03.cases(eta_mtds=('dflt_eta',), eta_const=(True,), wcs=('base', 'base', 'precon', 'precon', 'dflt_vmin', 'rescale_origin')), st.integers(0, 2 ** 31)).map(jl)


SUBS = [
    Sub('bounds', _bounds, o_bounds, quick=200, thorough=4000),
    Sub('data', lambda: structure(lls=c03.LLS).map(expand).map(jl), o_data, quick=150, thorough=3000),
    Sub('nested', _nested, o_nested, quick=150, thorough=3000),
]
