"""C10: hyperparameter optimisation is feasible, bounded, improving, truthfully recorded and repeatable."""
import contextlib
import sys
import numpy as np
import scipy.optimize
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, new_gp, hp_of, scaled, tags_of, RESCALE, vreq
from lkd import Lkd, is_noisy, hp_names
from harness import Sub, Violation, Skip
import c06

PROP = 'C10'
RULE = ('Histories: data with one point (initial hyperparameters), then one or two growing data sets each followed by an optimisation; all '
        'kernels, methods, noise kinds, masks, both start options, optimised or fixed kernel hyperparameter, several condition limits, logarithmic or '
        'linear variables, both optimisers, penalty on or off, both norms. '
        'Non-trivial: the optimiser moved away from its start and the recorded values were determined to better than 1e-4.')
ASSUMPTIONS = ['the likelihood of starting points is evaluated with the library itself (its exactness is C06)',
               'improvement is demanded only when a starting point satisfies the constraint; slack 1e-6 (1 + |likelihood|)',
               'rescaling methods: likelihoods are compared after changing them to the user\'s units (Jacobian of the scaling)']
JIT_SHARE = 0.4


def _b(c, t):
    c['start'], c['optk'], c['stages'], c['cmx'], logs, c['mtd'], pn, c['cond_norm'] = t
    c['logs'] = dict(zip(('theta', 'kernel', 'var'), logs)) if logs else None
    c['pnlt'], c['data'] = None if pn is None else dict(c1=pn[0], c2=pn[1], lb=pn[2]), 'plain'
    return c


def cases(**kw):
    kw.setdefault('dmax', 3)
    kw.setdefault('nmin', 2)
    kw.setdefault('nmax', 6)
    kw.setdefault('scales', (-1, 1))
    kw.setdefault('cond_targets', (1e10, 1e10, 1e6, 1e3))
    return st.builds(_b, structure(**kw).map(expand).map(jl), st.tuples(
        st.sampled_from(['hp_best', 'lhs']), st.booleans(), st.sampled_from([1, 1, 2]), st.sampled_from([1.0, 1.0, 10.0, 1e4]),
        st.one_of(st.none(), st.none(), c06.LOGS), st.sampled_from(['SLSQP'] * 15 + ['trust-constr']),
        st.sampled_from([None, None, None, (1.0, 0.05, 0.1), (0.01, 1.0, 2.0)]), st.sampled_from([2, 2, 2, 'fro'])))


def sub_case(c, k):
    s = dict(c)
    s['n'] = k
    s['X'], s['f'] = c['X'][:k], c['f'][:k]
    s['sf'] = None if c['sf'] is None else c['sf'][:k]
    if c['use_grad']:
        m = k if c['bvec'] is None else sum(c['bvec'][:k])
        s['bvec'] = None if c['bvec'] is None else c['bvec'][:k]
        s['g'] = c['g'][:m]
        s['sg'] = None if c['sg'] is None else c['sg'][:m]
    return s


def setup(c, nmax=3):
    gp = new_gp(c)
    gp.cond_max = min(gp.cond_max_abs, c['cmax'] * c['cmx'])
    gp.lkd_optz_start_mtd = c['start']
    gp.b_optz_hp_kernel = c['optk']
    if c.get('pnlt'):
        gp.lkd_varK_pnlt_use = True
        gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2, gp.lkd_varK_pnlt_lb_var = c['pnlt']['c1'], c['pnlt']['c2'], c['pnlt']['lb']
    if c.get('mtd'):
        gp.optz_mtd = c['mtd']
    gp.init_optz_surr(nmax)
    return gp


def stage_sizes(c):
    return [c['n']] if c['stages'] == 1 or c['n'] < 3 else [c['n'] - 1, c['n']]


def give(gp, c):
    X, f, sf, g, sg, bvec = arrays(c)
    gp.set_data(X, f, sf, g, sg, bvec)


def state(gp, c):
    """Scaled data and hyperparameters of the current surrogate, from its public values, for the reference likelihood."""
    sc = dict(scaled(c))
    hp = gp.hp_vals
    sv = np.full(c['d'], sc['kx'])
    if c['wc'] in RESCALE:
        new = np.asarray(gp.DataScl.xvec_scale, float)
        sc['X'] = sc['X'] / sv * new
        if sc['g'] is not None:
            sc['g'] = sc['g'] * sv / new
            if sc['sg'] is not None:
                sc['sg'] = sc['sg'] * sv / new
        sc['kx'] = float(new.max())
        sv = new
    sc['th'] = np.asarray(hp.theta, float)
    sc['alpha'] = float(hp.kernel) if c['kernel'] == 'RatQu' else None
    sc['varK'] = c06.num('varK', hp.varK)
    sc['beta'] = c06.num('beta', hp.beta)
    sc['var_f'] = c06.num('var_fval', hp.var_fval) if c['sf'] is None else None
    sc['var_g'] = c06.num('var_fgrad', hp.var_fgrad) if c['use_grad'] and c['sg'] is None else None
    n = c['n']
    nd = 0 if sc['g'] is None else sc['g'].size
    noise = np.zeros(n + nd)
    noise[:n] = sc['var_f'] if sc['sf'] is None else sc['sf'] ** 2
    if nd:
        noise[n:] = sc['var_g'] if sc['sg'] is None else (sc['sg'] ** 2).T.ravel()
    sc['noise'] = noise
    return sc, sv


def jac(c, sv):
    """Change of the log density when gradients are expressed in the user's coordinates."""
    ng = 0 if c['g'] is None else len(c['g'])
    return -ng * np.sum(np.log(sv))


def med_bounds(gp, c, i, names):
    """Documented box: median of the last five entries times 10**+-5, within the allowed range."""
    lo, hi = [], []
    a = slice(max(0, i - 5), i)
    for nm in names:
        if nm.startswith('theta'):
            med, rg = np.median(gp.hp_theta_all[a, int(nm[5:])]), (1e-18, 1e24)
        elif nm == 'alpha':
            med, rg = np.median(gp.hp_kernel_all[a]), (1e-3, 10.0)
        elif nm == 'varK':
            med, rg = np.median(gp.hp_varK_all[a]), (1e-24, 1e14)
        elif nm == 'var_f':
            med, rg = np.median(gp.hp_var_fval_all[a]), (1e-8, 1e8)
        else:
            med, rg = np.median(gp.hp_var_fgrad_all[a]), (1e-8, 1e8)
        med = min(max(med, rg[0]), rg[1])
        lo.append(max(med / 1e5, rg[0]))
        hi.append(min(med * 1e5, rg[1]))
    return np.array(lo), np.array(hi)


def hp_value(hp, nm):
    if nm.startswith('theta'):
        return float(hp.theta[int(nm[5:])])
    return c06.num(nm, {'alpha': hp.kernel, 'varK': hp.varK, 'var_f': hp.var_fval, 'var_g': hp.var_fgrad}[nm])


def starts(gp, c, i):
    """Likelihood and condition number at the starting points (evaluated through the public likelihood)."""
    n0 = gp.lkd_hp_best_n_eval if c['start'] == 'hp_best' else gp.optz_n_x0
    x0 = gp.get_hp_x0_lhs_median(i, gp.hp_info_optz_lkd, n0)[0]
    out = []
    for v in x0:
        info, ok = gp.calc_lkd_all(gp.hp_vec2dataclass(gp.hp_info_optz_lkd, v), calc_cond=True)
        out.append((float(info.ln_lkd) if ok and info.ln_lkd is not None else np.nan, float(info.cond)))
    return x0, np.array(out)


@contextlib.contextmanager
def watch(gp=None):
    """Record the calls of the numerical optimiser (scipy.optimize.minimize, wherever the library bound it)."""
    orig, log = scipy.optimize.minimize, []

    def rec(fun, x0, *a, **k):
        seen = []

        def f(x, *b):
            seen.append(np.array(x, float).ravel())
            return fun(x, *b)
        x0 = np.array(x0, float).ravel()
        e = dict(x0=x0, seen=seen, args=a, kw=k, scale=None if gp is None or not gp.b_use_data_scl else np.array(gp.DataScl.xvec_scale, float))
        log.append(e)
        r = orig(f, x0.copy(), *a, **k)
        e.update(x=np.array(r.x, float).ravel(), fun=float(r.fun), success=bool(r.success), nit=float(r.nit))
        return r
    at = [(m, nm) for m in [scipy.optimize] + [m for k, m in list(sys.modules.items()) if k.startswith('gpgradpy')]
          for nm, v in list(vars(m).items()) if v is orig]
    for m, nm in at:
        setattr(m, nm, rec)
    try:
        yield log
    finally:
        for m, nm in at:
            setattr(m, nm, orig)


def coordinates(gp, s, log):
    """The rescaling only changes coordinates: the surrogate is one of the solutions of the optimiser, in coordinates with equal length
    scales and the documented smallest distance."""
    hp, sc = gp.hp_vals, np.asarray(gp.DataScl.xvec_scale, float)
    th = np.asarray(hp.theta, float)
    U = th * sc ** 2
    tried = []
    for r, k in [(r, k) for k in ('x', 'x0') for r in log]:        # the start is used if the optimiser ends at a worse point
        h = gp.hp_vec2dataclass(gp.hp_info_optz_lkd, r[k])
        u = np.asarray(h.theta, float) * r['scale'] ** 2
        tried.append(u.tolist())
        if not np.allclose(U, u, rtol=1e-7, atol=0):
            continue
        if any(a is not None and not np.isclose(a, b, rtol=1e-9, atol=0) for a, b in ((h.kernel, hp.kernel), (h.var_fval, hp.var_fval))):
            continue
        if is_noisy(s) and not np.isclose(h.varK, hp.varK, rtol=1e-9, atol=0):
            continue
        if h.var_fgrad is not None:
            v = np.clip(h.var_fgrad * np.exp(2 * np.mean(np.log(r['scale'] / sc))), *gp.hp_var_fgrad_range)
            if not np.isclose(v, hp.var_fgrad, rtol=1e-6, atol=0):
                continue
        break
    else:
        raise Violation('the surrogate (theta %r, scales %r, theta * scale^2 %r, var_fgrad %r) is none of the solutions of the optimiser: theta * scale^2 %r' % (
            th.tolist(), sc.tolist(), U.tolist(), hp.var_fgrad, tried))
    if np.ptp(th) > 1e-9 * th.max():
        raise Violation('theta %r is not the same in all directions after the rescaling' % th.tolist())
    X = arr(s['X']).reshape(s['n'], s['d'])
    w = np.sqrt(U / np.exp(np.mean(np.log(U))))
    if min(np.linalg.norm((X[i] - X[j]) * w) for i in range(len(X)) for j in range(i)) > 1e-9 * np.ptp(X):
        D = min(np.linalg.norm((X[i] - X[j]) * sc) for i in range(len(X)) for j in range(i))
        want = vreq(s['n'], s['d']) if s['wc'] == 'rescale_origin' else 1.0
        if not abs(D - want) <= 1e-8 * want:
            raise Violation('smallest distance %.12g after the rescaling, expected %.12g' % (D, want))


def optimiser_records(gp, s, i, S, log):
    """The recorded statistics of the optimiser, and its choice among the solutions found."""
    n_runs = 1 if gp.lkd_optz_start_mtd == 'hp_best' else len(S)
    runs = log[:n_runs]
    if len(runs) < n_runs:
        return
    nit, suc = np.array([r['nit'] for r in runs]), np.array([r['success'] for r in runs])
    for nm, a, b in (('average number of iterations', gp.hp_optz_iter_mean[i], nit.mean()), ('largest number of iterations', gp.hp_optz_iter_max[i], nit.max()),
                     ('fraction of successful optimisations', gp.hp_optz_success[i], suc.mean())):
        if not abs(a - b) <= 1e-9 * (1 + abs(b)):
            raise Violation('recorded %s %r, true value %r (%r)' % (nm, a, b, list(zip(nit, suc))))
    if s['wc'] in ('rescale_origin', 'rescale_eta_vary'):
        return coordinates(gp, s, log)
    cond, cond0 = [[1.0 if s['wc'] == 'precon' else float(gp.calc_lkd_all(gp.hp_vec2dataclass(gp.hp_info_optz_lkd, r[k]), calc_cond=True)[0].cond)
                    for r in runs] for k in ('x', 'x0')]
    lim = gp.cond_max
    # a run counts as feasible if its end or (then the start is used) its start is
    good = np.array([s['wc'] == 'precon' or not x > 1.01 * lim for x in np.minimum(cond, cond0)])
    if any(abs(x / (1.01 * lim) - 1) < 1e-6 for x in cond + cond0):
        return
    for r, x in zip(runs, cond):
        if r['success'] and gp.optz_mtd == 'SLSQP' and s['wc'] != 'precon' and x > 1.05 * lim:
            raise Violation('the optimiser reports success with the condition number %.6g, beyond the limit %.6g: it was not given the constraint' % (x, lim))
    if abs(gp.hp_optz_con_good[i] - good.mean()) > 1e-9:
        raise Violation('recorded fraction of feasible solutions %r, true value %r' % (gp.hp_optz_con_good[i], good.mean()))
    fun = np.array([r['fun'] for r in runs])
    ended = np.array([s['wc'] == 'precon' or not x > 1.01 * lim for x in cond])
    if good.any() and not ended.any():
        return
    fun = fun[ended] if ended.any() else fun
    if np.all(np.isnan(fun)):
        return
    info, ok = gp.calc_lkd_all(gp.hp_vals)
    if ok and not -info.ln_lkd <= np.nanmin(fun) + 1e-6 * (1 + abs(np.nanmin(fun))) and good.any():
        raise Violation('the optimiser found a feasible solution with likelihood %.8g, that of the surrogate is %.8g' % (-np.nanmin(fun), info.ln_lkd))


def run(c, check=True):
    gp = setup(c)
    give(gp, sub_case(c, 1))
    gp.set_hpara('optz', 0)
    nt, tags = False, []
    for i, k in enumerate(stage_sizes(c), 1):
        s = sub_case(c, k)
        give(gp, s)
        if check:
            x0, S = starts(gp, s, i)
            sv0 = np.full(s['d'], scaled(s)['kx'])
            names = hp_names(s, c['optk'])
            lo, hi = med_bounds(gp, s, i, names)
            y0 = np.where([c06.is_log(s, nm) for nm in names], 10 ** x0, x0)
            if np.any(y0 < lo * 0.999) or np.any(y0 > hi * 1.001):
                raise Violation('starting points outside the documented bounds')
        with watch(gp) as log:
            try:
                gp.set_hpara('optz', i)
            except Exception:
                if check and not np.any(np.isfinite(S[:, 0])):
                    raise Skip()        # no start can be factorised: there may be no surrogate to set up
                raise
        if check:
            optimiser_records(gp, s, i, S, log)
            a, t = after(gp, s, i, names, lo, hi, S, sv0)
            nt |= a
            tags += t
    return gp, nt, tags


def nugget_small(s, hp, sv, sv0):
    """The nugget (which is relative to the scaled coordinates) is negligible in the scalings before and after."""
    th = np.asarray(hp.theta, float)
    return s['cmax'] >= 1e9 and min(th.min(), (th * (sv / sv0) ** 2).min()) > 1e-4


def counters(gp, s, i, S):
    """Number of failed factorisations and condition numbers at the starting points that were used."""
    if s['wc'] == 'precon' or gp.lkd_optz_start_mtd != 'lhs':
        return 0
    fl = int(np.sum(~np.isfinite(S[:, 0])))
    for nm, a, b in (('failed factorisations', gp.optz_n_cho_fail_all[i], fl),
                     ('starts beyond the limit of the condition number', gp.optz_n_cond2big_all[i], int(np.sum(S[:, 1] > gp.cond_max))),
                     ('largest initial condition number', gp.optz_max_init_cond_all[i], np.max(S[:, 1]))):
        near = nm.startswith('starts') and np.any(np.abs(S[:, 1] / gp.cond_max - 1) < 1e-6)
        if not (near or a == b or (nm.startswith('largest') and (abs(a - b) <= (1e-9 + 1e-13 * b) * b or b > 1e12))):
            raise Violation('recorded %s: %r, true value %r' % (nm, a, b))
    return fl


def o_starts(c):
    """Records of the starting points when factorisations fail at some of them."""
    c['start'], c['stages'] = 'lhs', 1
    gp = setup(c)
    gp.optz_iter_max = 2
    s = sub_case(c, c['n'])
    give(gp, s)
    gp.store_new_para_surr(0, hp_of(gp, s))
    S = starts(gp, s, 1)[1]
    try:
        gp.set_hpara('optz', 1)
    except Exception:
        if np.any(np.isfinite(S[:, 0])):
            raise
        raise Skip()        # no start can be factorised: there may be no surrogate to set up
    fl = counters(gp, s, 1, S)
    good = gp.hp_optz_con_good[1]
    if not 0 <= good <= 1 or not abs(good * len(S) - round(good * len(S))) < 1e-9:
        raise Violation('fraction of feasible solutions %r of %d starts' % (good, len(S)))
    return fl > 0, tags_of(c) + ['failed=%s' % ('none' if not fl else 'some' if fl < len(S) else 'all')]


def o_choice(c):
    """The choice among the solutions of several starts when only some of them satisfy the constraint (few iterations are allowed)."""
    c['start'], c['stages'] = 'lhs', 1
    gp = setup(c)
    gp.optz_iter_max, gp.optz_n_x0 = c['iters'], c['nx0']
    s = sub_case(c, c['n'])
    give(gp, s)
    gp.store_new_para_surr(0, hp_of(gp, s))
    S = starts(gp, s, 1)[1]
    if not np.any(np.isfinite(S[:, 0])):
        raise Skip()
    with watch(gp) as log:
        try:
            gp.set_hpara('optz', 1)
        except AttributeError:
            raise Skip()        # none of the solutions can be factorised
    optimiser_records(gp, s, 1, S, log)
    counters(gp, s, 1, S)
    good, m = float(gp.hp_optz_con_good[1]), len(S)
    return 0 < good < 1 and round(good * m) > 1, tags_of(c) + ['feasible=%s' % ('none' if good == 0 else 'all' if good == 1 else 'some')]


def ccases():
    def f(c, t):
        c['iters'], c['nx0'] = t
        return c
    return st.builds(f, cases(use_grads=(True, False), dmax=3, nmin=3, nmax=8, lls=(2.0, 5.0, 20.0), cond_targets=(1e6, 1e4, 1e3),
                              eta_mtds=('dflt_eta', 'dflt_eta', 'Kbase_eta'), eta_const=(True,),
                              wcs=('base', 'base', 'dflt_vmin', 'dflt_vmax')), st.tuples(st.sampled_from([1, 1, 2, 2, 3, 6]), st.integers(4, 9)))


def scases():
    return cases(scales=(-7, -5), lls=(2.0, 10.0, 100.0), wcs=('base', 'base', 'dflt_vmin', 'rescale_origin'), use_grads=(True,), dmax=2, nmin=4, nmax=7)


def after(gp, s, i, names, lo, hi, S, sv0):
    hp = gp.hp_vals
    conv = s['wc'] in ('rescale_origin', 'rescale_eta_vary')
    # bounds
    for k, nm in enumerate(names):
        v = hp_value(hp, nm)
        l, h = lo[k], hi[k]
        if conv and nm.startswith('theta'):
            l, h = 1e-18, 1e24
        elif conv and nm == 'var_g':
            l, h = 1e-8, 1e8
        if not l * (1 - 1e-9) <= v <= h * (1 + 1e-9):
            raise Violation('optimised %s = %.6g is outside its bounds [%.6g, %.6g]' % (nm, v, l, h))
    if s['kernel'] == 'RatQu' and 'alpha' not in names and hp.kernel != gp.hp_kernel_default:
        raise Violation('the kernel hyperparameter is %r although it is not optimised (default %r)' % (hp.kernel, gp.hp_kernel_default))
    # recorded entries
    rec = [('theta', gp.hp_theta_all[i], hp.theta), ('beta', gp.hp_beta_all[i], hp.beta), ('varK', gp.hp_varK_all[i], hp.varK),
           ('kernel', gp.hp_kernel_all[i], hp.kernel), ('var_fval', gp.hp_var_fval_all[i], hp.var_fval),
           ('var_fgrad', gp.hp_var_fgrad_all[i], hp.var_fgrad), ('data variance', gp.var_fval[i], np.var(arr(s['f'])))]
    for nm, a, b in rec:
        b = np.nan if b is None else np.asarray(b, float)
        if not np.allclose(np.asarray(a, float).ravel(), np.asarray(b).ravel(), rtol=1e-12, atol=0, equal_nan=True):
            raise Violation('recorded %s %r differs from the value in use %r' % (nm, a, b))
    X = arr(s['X']).reshape(s['n'], s['d'])
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))[np.triu_indices(len(X), 1)].min()
    if not abs(gp.vmin_init_all[i] - D) <= 1e-12 * D:
        raise Violation('recorded smallest distance %.12g, true %.12g' % (gp.vmin_init_all[i], D))
    cond = c06.num('recorded condition number', gp.Kcov_cond_all[i])
    if bool(gp.Kcov_cond_at_max_all[i]) != (cond >= 0.99 * gp.cond_max):
        raise Violation('flag of an active condition constraint is %s at %.6g with limit %.6g' % (gp.Kcov_cond_at_max_all[i], cond, gp.cond_max))
    if abs(np.max(gp.varK_var_fval[i]) * np.var(arr(s['f'])) - gp.hp_varK_all[i]) > 1e-9 * gp.hp_varK_all[i] and np.var(arr(s['f'])) > 0:
        raise Violation('recorded ratio of variances is wrong')
    counters(gp, s, i, S)
    # values of the returned hyperparameters
    sc, sv = state(gp, s)
    nt = False
    try:
        L = Lkd(s, sc, s.get('pnlt'))
        ok = True
    except Skip:
        ok = False
    fin = float(gp.calc_lkd_all(hp)[0].ln_lkd)
    if ok:
        if not L.noisy:
            c06.cmpv('variance of the optimised surrogate', hp.varK, L.varK, L.t_varK + 1e-12 * L.varK)
        c06.cmpv('mean of the optimised surrogate', hp.beta, L.beta, L.t_beta + 1e-12 * abs(L.beta))
        c06.cmpv('likelihood of the optimised surrogate', fin, L.lkd, L.t_lkd)
        nt = L.t_lkd < 1e-4 * (1 + abs(L.lkd))
        A = L.A
        if s['wc'] == 'precon':
            A = A / np.sqrt(np.outer(L.Dn, L.Dn))
        w = np.linalg.eigvalsh((A + A.T) / 2)
        cr = w[-1] / w[0] if w[0] > 0 else np.inf
        e = 60 * (L.N * 2.3e-16 + L.ex) * cr
        if s.get('cond_norm') == 'fro' and w[0] > 0:
            cr, e = np.sqrt(np.sum(w ** 2) * np.sum(w ** -2)), 2 * e
        if e < 0.02 and not abs(cond - cr) <= (e + 1e-9) * cr:
            raise Violation('recorded condition number %.12g, exact value for the returned hyperparameters %.12g' % (cond, cr))
    # constraint
    t = tags_of(s) + ['penalty=%s' % bool(s.get('pnlt')), 'norm=%s' % s.get('cond_norm', 2), 'optimiser=%s' % s.get('mtd')] + [
        'linear:' + k for k, v in (s.get('logs') or {}).items() if not v] + ['start=' + ('hp_best' if gp.lkd_optz_start_mtd == 'hp_best' else 'lhs')]
    if s['wc'] == 'precon':
        if gp.b_use_cond_cstr:
            raise Violation('condition constraint used with the preconditioned method')
    elif not conv and gp.hp_optz_con_good[i] > 0 and cond > 1.011 * gp.cond_max:
        raise Violation('condition number %.6g exceeds the limit %.6g although feasible solutions were found' % (cond, gp.cond_max))
    feas = np.isfinite(S[:, 0])
    if s['wc'] != 'precon':
        if gp.lkd_optz_start_mtd == 'hp_best':
            # the best start may exceed the limit by a fifth, it is no reference then
            ok = np.where(feas & (S[:, 1] <= 1.2 * gp.cond_max), S[:, 0], -np.inf)
            feas &= np.arange(len(S)) == int(np.argmax(ok))
        feas &= S[:, 1] <= gp.cond_max
    if feas.any():
        best = S[feas, 0].max()
        bo, fo = best + jac(s, sv0), fin + jac(s, sv)
        slack = 1e-6 * (1 + abs(best))
        if conv:
            slack = 0.5 + 0.02 * abs(best)
        if s['wc'] != 'precon' and cond > 1.011 * gp.cond_max:
            if not conv:
                raise Violation('condition number %.6g exceeds the limit %.6g although a starting point was feasible' % (cond, gp.cond_max))
            t.append('infeasible_from_feasible')
            return False, t
        t.append('gain' if fo > bo + 1e-3 else 'nogain')
        # with variances at their bounds the likelihood is enormous and the line search of the optimiser is not reliable
        if abs(best) > (1e4 if conv else 1e7):
            t.append('enormous_likelihood')
            return False, t
        if fo < bo - slack and not (conv and not nugget_small(s, hp, sv, sv0)):
            raise Violation('likelihood of the optimised hyperparameters %.8g is below that of a feasible starting point %.8g' % (fo, bo))
        nt &= fo > bo + 1e-3
    else:
        t.append('no_feasible_start')
        nt = False
    return bool(nt), t


def o_rescale(c):
    """The iterations of the rescaling methods do not lose the likelihood reached without them."""
    c['stages'] = 1
    gp = run(c, False)[0]
    s = sub_case(c, stage_sizes(c)[-1])
    sc, sv = state(gp, s)
    a = float(gp.calc_lkd_all(gp.hp_vals)[0].ln_lkd) + jac(s, sv)
    g1 = setup(c)
    g1.cond_vreq_max_iter = 1
    give(g1, sub_case(c, 1))
    g1.set_hpara('optz', 0)
    for i, m in enumerate(stage_sizes(c), 1):
        give(g1, sub_case(c, m))
        g1.set_hpara('optz', i)
    sc1, sv1 = state(g1, s)
    b = float(g1.calc_lkd_all(g1.hp_vals)[0].ln_lkd) + jac(s, sv1)
    sv0 = np.full(c['d'], scaled(s)['kx'])
    if not nugget_small(c, gp.hp_vals, sv, sv0) or not nugget_small(c, g1.hp_vals, sv1, sv1):
        raise Skip()
    if a < b - 0.5 - 0.02 * abs(b):
        raise Violation('likelihood after the rescaling iterations %.8g is below %.8g reached without them; theta %r scales %r, without %r' % (
            a, b, (np.asarray(gp.hp_vals.theta) * sv ** 2).tolist(), sv.tolist(), (np.asarray(g1.hp_vals.theta) * sv1 ** 2).tolist()))
    t = tags_of(c)
    return bool(np.ptp(np.log(sv)) > 0.1), t + ['rescaled=%s' % bool(np.ptp(np.log(sv)) > 0.1)]


def rcases():
    return cases(wcs=('rescale_origin', 'rescale_eta_vary'), use_grads=(True,), cond_targets=(1e10,), dmin=1)


def o_optz(c):
    gp, nt, tags = run(c)
    g2 = run(c, False)[0]
    for nm in ('hp_theta_all', 'hp_beta_all', 'hp_varK_all', 'hp_kernel_all', 'hp_var_fval_all', 'hp_var_fgrad_all', 'Kcov_cond_all',
               'xvec_rescaling_all', 'hp_optz_iter_mean', 'hp_optz_success', 'optz_max_init_cond_all'):
        if not np.array_equal(getattr(gp, nm), getattr(g2, nm), equal_nan=True):
            raise Violation('repeating the optimisation changed %s: %r, %r' % (nm, getattr(gp, nm).tolist(), getattr(g2, nm).tolist()))
    return nt, tags


SUBS = [Sub('optimise', cases, o_optz, quick=60, thorough=1500, weight=3.0),
        Sub('rescale', rcases, o_rescale, quick=25, thorough=500),
        Sub('starts', scases, o_starts, quick=30, thorough=600),
        Sub('choice', ccases, o_choice, quick=60, thorough=1500)]
