"""C04: gradients and Hessians of the surrogate are the derivatives of its mean and standard deviation."""
import os
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, make_gp, hp_of, scaled, close, tags_of, shape_of, RESCALE
from post import Post
from harness import Sub, Violation, Skip
import c01
import c03
import ref

PROP = 'C04'
RULE = ('Same surrogates and evaluation points as C03; gradients at all points in one call, Hessians one point at a time, compared with '
        'the analytic derivatives of the dense reference posterior. Derivatives of the standard deviation are compared through '
        'sigma*dsigma = dvar/2 where sigma is clearly positive. Non-trivial: some derivative is nonzero and its tolerance is below 1e-4 '
        'of its size.')
ASSUMPTIONS = ['first-order backward-error tolerance as in C03', 'reference derivatives self-tested by finite differences']


def chk(name, x, got, want, tol):
    got = shape_of(name, got, np.shape(want))
    if not np.all(np.abs(got - want) <= tol):
        raise Violation('%s at %s is %s, exact value %s (tolerance %s)' % (name, x, got.tolist(), want.tolist(), np.asarray(tol).tolist()))


def o_grad(c):
    gp = make_gp(c)
    P = Post(c)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, P.sc))
    xt = arr(c['xt'])
    k, d = xt.shape
    mu, sig, dmu, dsig, a, b = gp.eval_model(xt, calc_grad=True)
    if a is not None or b is not None:
        raise Violation('Hessians returned although not requested')
    shape_of('mean', mu, (k,))
    shape_of('standard deviation', sig, (k,))
    shape_of('gradient of the mean', dmu, (k, d))
    shape_of('gradient of the standard deviation', dsig, (k, d))
    nt = False
    for i, x in enumerate(xt):
        e = P.at(x)
        if not abs(mu[i] - e['mu']) <= e['tmu'] or not abs(sig[i] ** 2 - e['var']) <= e['tvar'] + 1e-13 * e['var']:
            raise Violation('mean / standard deviation returned with the gradient at %s are %.17g / %.17g, exact %.17g / %.17g' % (
                x, mu[i], sig[i], e['mu'], np.sqrt(e['var'])))
        chk('gradient of the mean', x, dmu[i], e['dmu'], e['tdmu'])
        if e['var'] > 100 * e['tvar']:
            chk('sigma * gradient of the standard deviation', x, sig[i] * dsig[i], e['dvar'] / 2, e['tdvar'] / 2 + 1e-13 * np.abs(e['dvar']))
            nt |= bool(np.any(np.abs(e['dvar']) > 1e4 * e['tdvar']))
        nt |= bool(np.any(np.abs(e['dmu']) > 1e4 * e['tdmu']))
    if not c['wc'] in RESCALE:
        s2, ds2, _ = gp.eval_model_var(xt, calc_grad=True)
        s2, ds2 = shape_of('variance', s2, (k,)), shape_of('gradient of the variance', ds2, (k, d))
        for i, x in enumerate(xt):
            e = P.at(x)
            if not abs(s2[i] - e['var']) <= e['tvar'] + 1e-13 * e['var']:
                raise Violation('variance at %s is %.17g, exact value %.17g' % (x, s2[i], e['var']))
            chk('gradient of the variance', x, ds2[i], e['dvar'], e['tdvar'])
        q = gp.eval_model_var(xt[0], calc_grad=True, squeeze_nx=True)
        shape_of('squeezed variance', q[0], ())
        shape_of('squeezed gradient of the variance', q[1], (d,))
        if abs(q[0] - s2[0]) > P.at(xt[0])['tvar'] * 2 or np.any(np.abs(q[1] - ds2[0]) > 2 * P.at(xt[0])['tdvar']):
            raise Violation('squeezed variance differs from the batch')
    return nt, tags_of(c)


def o_hess(c):
    gp = make_gp(c)
    P = Post(c)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, P.sc))
    d = c['d']
    nt = False
    for x in arr(c['xt'])[:3]:
        e = P.at(x, True)
        mu, sig, dmu, dsig, H, Hs = gp.eval_model(x[None, :], calc_grad=True, calc_hess=True)
        shape_of('gradient of the mean', dmu, (1, d))
        shape_of('gradient of the standard deviation', dsig, (1, d))
        shape_of('Hessian of the mean', H, (1, d, d))
        shape_of('Hessian of the standard deviation', Hs, (1, d, d))
        chk('gradient of the mean (with Hessian)', x, dmu[0], e['dmu'], e['tdmu'])
        chk('Hessian of the mean', x, H[0], e['d2mu'], e['td2mu'])
        nt |= bool(np.any(np.abs(e['d2mu']) > 1e4 * e['td2mu']))
        if e['var'] > 100 * e['tvar']:
            chk('sigma * gradient of the standard deviation (with Hessian)', x, sig[0] * dsig[0], e['dvar'] / 2,
                e['tdvar'] / 2 + 1e-13 * np.abs(e['dvar']))
            oo = np.outer(dsig[0], dsig[0])
            chk('sigma * Hessian of the standard deviation + outer product of gradients', x, sig[0] * Hs[0] + oo, e['d2var'] / 2,
                e['td2var'] / 2 + 1e-12 * np.abs(oo) + 1e-12 * np.abs(e['d2var']))
            nt |= bool(np.any(np.abs(e['d2var']) > 1e4 * e['td2var']))
        q = gp.eval_model(x, calc_grad=True, calc_hess=True, squeeze_nx=True)
        for nm, a, b in (('gradient of the mean', q[2], dmu[0]), ('Hessian of the mean', q[4], H[0])):
            shape_of('squeezed ' + nm, a, b.shape)
        chk('squeezed Hessian of the mean', x, q[4], e['d2mu'], e['td2mu'])
    return nt, tags_of(c)


def o_kern(c):
    """Second derivatives of the kernel with respect to the evaluation point."""
    Y = arr(c['Y'])
    n, d = Y.shape
    x = arr(c['X'])[0]
    th, al = arr(c['theta']), c['alpha']
    by = arr(c['b2'], bool)
    gp = c01.kernel_gp(c['kernel'], d, True)
    R = np.ascontiguousarray((x[None, :] - Y).T[:, None, :])
    f1 = {'SqExp': 1.0, 'RatQu': 1.0, 'Ma5f2': 5.0 / 6.0}[c['kernel']]

    def comp(what, H, want, m):
        H = np.asarray(H)
        if H.shape != want.shape:
            raise Violation('%s has shape %s, expected %s' % (what, H.shape, want.shape))
        p = np.concatenate([np.ones(n)] + [np.full(m, np.sqrt(2 * f1 * th[a])) for a in range(d)]) if m is not None else np.ones(n)
        q = np.sqrt(2 * f1 * th)
        S = q[:, None, None] * q[None, :, None] * p[None, None, :] * (4 + (8 / al if al else 0))
        bad = np.abs(H - want) > 1e-11 * S
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            raise Violation('%s %s = %.17g, exact value %.17g' % (what, i, H[i], want[i]))
    comp('Hessian of the value covariance', gp.calc_KernBase_hess_x(R, th, al), ref.kern_hess(c['kernel'], x, Y, th, al), None)
    m = n if by is None else int(by.sum())
    comp('Hessian of the joint covariance', gp.calc_KernGrad_grad_x(R, th, al, by),
         ref.kern_hess(c['kernel'], x, Y, th, al, True, by), m)
    if not os.environ.get('NUMBA_DISABLE_JIT') == '1':
        return True, ['kernel=' + c['kernel'], 'd=%d' % d]
    try:
        full = c01.full_fn(c['kernel'], 'calc_KernGrad_grad_x')
    except Skip:
        full = None
    if full is not None:
        comp('Hessian of the joint covariance (all gradients)', full(R, th, al), ref.kern_hess(c['kernel'], x, Y, th, al, True), n)
    return True, ['kernel=' + c['kernel'], 'd=%d' % d]


SUBS = [
    Sub('kernel', c01._kcase, o_kern, quick=200, thorough=4000, weight=0.4),
    Sub('gradient', c03.cases, o_grad, quick=200, thorough=4000),
    Sub('hessian', c03.cases, o_hess, quick=200, thorough=4000),
]
