"""C20: gradient masks are consistent - all, some and none (metamorphic relations between masks)."""
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, make_gp, hp_of, scaled, tags_of, RESCALE
from post import Post
from lkd import Lkd, is_noisy, hp_names
from harness import Sub, Violation, Skip
import c03
import c06

PROP = 'C20'
RULE = ('A random surrogate with (1) a mask of all points against no mask, (2) a mask of no point against the gradient-free surrogate with the '
        'same nugget, (3) a partial mask against all gradients where the masked ones have an enormous noise: predictions, their derivatives, '
        'likelihood, its gradient and condition number. Non-trivial: predictions determined to 1e-5 and different from the prior; (3) '
        'needs at least one point with and one without gradient.')
ASSUMPTIONS = ['(2) base method, or preconditioned method with the default nugget and no noise, where both surrogates have the same documented nugget',
               '(3) noise 1e7 times the prior deviation of the gradient stands for a missing gradient; compared to 1e-6 for condition numbers up to 1e7']


def _cases(kind):
    def f(c):
        c['kind'] = kind
        rng = np.random.default_rng(c['n'] * 7 + c['d'])
        return jl(c03.with_points(c, 3))
    kw = dict(lls=c03.LLS, use_grads=(True,), partial=False)
    if kind == 'all':
        return structure(**kw).map(expand).map(f)
    if kind == 'none':
        kw.update(wcs=('base', 'precon'), eta_mtds=('Kbase_eta', 'dflt_eta', 'dflt_eta'), partial=True)

        def z(s):
            s['bstyle'] = 'zero'
            if s['wc'] == 'precon':
                s['eta_mtd'], s['noise'] = 'dflt_eta', 'none'
            return s
        return structure(**kw).map(z).map(expand).map(f)

    def z(s):
        s['bstyle'] = 'random'
        return s
    kw.update(noises=('none', 'known'), partial=True, eta_const=(True,), nmin=2, cond_targets=(1e10, 1e6),
              wcs=('base', 'precon', 'rescale_origin', 'dflt_vmin', 'dflt_vmax'))
    return structure(**kw).map(z).map(expand).map(f)


def out(c, lk=True):
    gp = make_gp(c)
    sc = scaled(c)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, sc))
    xt = arr(c['xt'])
    o = dict(zip(('mean', 'standard deviation', 'gradient of the mean', 'gradient of the deviation'),
                 [np.asarray(v, float) for v in gp.eval_model(xt, calc_grad=True)[:4]]))
    H = [gp.eval_model(x[None], calc_grad=True, calc_hess=True)[4] for x in xt]
    o['Hessian of the mean'] = np.array([np.asarray(h)[0] for h in H])
    if lk:
        gp.cond_max = gp.cond_max_abs = 1e16
        info = gp.calc_lkd_all(c06.lkd_hp(gp, c, sc), calc_cond=True, calc_grad=True)[0]
        o['lkd'], o['lkd_grad'], o['cond'], o['beta'] = info.ln_lkd, np.asarray(info.ln_lkd_grad), info.cond, info.hp_beta
        o['cond_grad'] = info.cond_grad
        o['vk'] = info.hp_varK
    return o


def compare(c, P, a, b, what):
    xt = arr(c['xt'])
    nt = False
    for i, x in enumerate(xt):
        e = P.at(x, True)
        z = a['standard deviation'][i] == 0 or b['standard deviation'][i] == 0
        for nm, u, v, t in (
                ('mean', a['mean'][i], b['mean'][i], e['tmu']),
                ('variance', a['standard deviation'][i] ** 2, b['standard deviation'][i] ** 2, e['tvar']),
                ('gradient of the mean', a['gradient of the mean'][i], b['gradient of the mean'][i], e['tdmu']),
                ('gradient of the variance', a['gradient of the deviation'][i] * a['standard deviation'][i],
                 b['gradient of the deviation'][i] * b['standard deviation'][i], e['tdvar']),
                ('Hessian of the mean', a['Hessian of the mean'][i], b['Hessian of the mean'][i], e['td2mu'])):
            if nm == 'gradient of the variance' and z:
                continue
            if not np.all(np.abs(u - v) <= 2 * t + 1e-12 * np.abs(u)):
                raise Violation('%s at %s: %s is %r, %s' % (what, x, nm, np.asarray(u).tolist(), np.asarray(v).tolist()))
        nt |= e['tvar'] < 1e-5 * e['prior'] and e['var'] < 0.99 * e['prior']
    return nt


def cmp_lkd(c, a, b, what, names=None):
    try:
        L = Lkd(c)
    except Skip:
        return
    def ck(nm, u, v, t):
        u, v = c06.num(nm, u), c06.num(nm, v)
        if not abs(u - v) <= 2 * t + 1e-12 * abs(u):
            raise Violation('%s: %s is %.12g, %.12g' % (what, nm, u, v))
    ck('log likelihood', a['lkd'], b['lkd'], L.t_lkd)
    ck('mean', a['beta'], b['beta'], L.t_beta)
    ck('condition number', a['cond'], b['cond'], (L.e2 * L.cond + 1e-13) * float(a['cond']) * 4)
    if L.eta_rows()[1] < 1e-6:
        return
    nm = hp_names(c)
    for k, h in enumerate(nm):
        if names is not None and h not in names:
            continue
        g = L.grad(h)
        j = k if names is None else names.index(h)
        ck('%s * d likelihood / d %s' % (h, h), a['lkd_grad'][k] * g['p'], b['lkd_grad'][j] * g['p'], g['t'])


def o_all(c):
    P = Post(c)
    c2 = dict(c, bvec=[True] * c['n'])
    a, b = out(c), out(c2)
    nt = compare(c, P, a, b, 'no mask against a mask of all points')
    cmp_lkd(c, a, b, 'no mask against a mask of all points')
    return bool(nt), tags_of(c)


def o_none(c):
    P = Post(c)
    c2 = dict(c, bvec=None, g=None, sg=None, use_grad=False, var_g=None, wc='base')
    a, b = out(c), out(c2)
    nt = compare(c, P, a, b, 'mask of no point against no gradients')
    if is_noisy(c) == is_noisy(c2):
        cmp_lkd(c, a, b, 'mask of no point against no gradients', hp_names(c2))
    return bool(nt), tags_of(c)


def o_some(c):
    """Masked gradients count as infinitely noisy ones."""
    bv = np.array(c['bvec'], bool)
    P = Post(c)
    if P.cond > 1e7:
        raise Skip()
    n, d = c['n'], c['d']
    rng = np.random.default_rng(n)
    g, sg = np.zeros((n, d)), np.zeros((n, d))
    gs = np.sqrt(2 * arr(c['theta'])) * np.sqrt(c['varK'])
    g[bv], sg[bv] = arr(c['g']).reshape(-1, d), arr(c['sg']).reshape(-1, d)
    g[~bv] = gs * rng.normal(size=(int((~bv).sum()), d))
    sg[~bv] = 1e7 * gs
    c2 = jl(dict(c, bvec=None, g=g, sg=sg))
    a, b = out(c, False), out(c2, False)
    nt = False
    for i, x in enumerate(arr(c['xt'])):
        e = P.at(x)
        s = np.sqrt(e['prior'])
        for nm, u, v, t in (('mean', a['mean'][i], b['mean'][i], e['tmu'] + 1e-6 * s + 1e-6 * np.abs(arr(c['f'])).max()),
                            ('variance', a['standard deviation'][i] ** 2, b['standard deviation'][i] ** 2, e['tvar'] + 1e-6 * e['prior']),
                            ('gradient of the mean', a['gradient of the mean'][i], b['gradient of the mean'][i],
                             e['tdmu'] + 1e-6 * gs.max() + 1e-6 * np.abs(arr(c['f'])).max() * np.sqrt(2 * arr(c['theta']).max()))):
            if not np.all(np.abs(u - v) <= 2 * t):
                raise Violation('%s at %s with masked gradients is %r, with enormous noise %r' % (nm, x, np.asarray(u).tolist(), np.asarray(v).tolist()))
        nt |= e['var'] < 0.99 * e['prior']
    return bool(nt and bv.any() and not bv.all()), tags_of(c)


SUBS = [Sub('all', lambda: _cases('all'), o_all, quick=120, thorough=2500),
        Sub('none', lambda: _cases('none'), o_none, quick=120, thorough=2500),
        Sub('some', lambda: _cases('some'), o_some, quick=150, thorough=3000)]
