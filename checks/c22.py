"""C22: the search for hyperparameters follows the configuration (initial values, boxes, starting points, limits)."""
import numpy as np
from hypothesis import strategies as st
from cases import scaled, tags_of
from lkd import Lkd, hp_names, is_noisy
from harness import Sub, Violation, Skip
import c06
import c10

PROP = 'C22'
RULE = ('Data sets of all kinds with a history of 1-12 past entries (any magnitudes, also outside the allowed ranges), and a random configuration: initial '
        'values, number of evaluations they are kept for, ranges, median window, box and start factors, number of starts, start option, '
        'iteration limit, optimiser, logarithmic or linear variables. Every call of the optimiser and every point it evaluates is observed. Non-trivial: '
        'at least two past entries and a bound that is not the default one.')
ASSUMPTIONS = ['the likelihood of the sampled starting points is taken from the library (its exactness is C06)']
JIT_SHARE = 0.3
RANGES = dict(theta=(1e-18, 1e24), varK=(1e-24, 1e14), kernel=(1e-3, 10.0), var_fval=(1e-8, 1e8), var_fgrad=(1e-8, 1e8))
NARROW = dict(theta=(1e-3, 1e3), varK=(1e-2, 1e2), kernel=(0.5, 3.0), var_fval=(1e-5, 1e-1), var_fgrad=(1e-4, 10.0))


def _b(c, t):
    keys = ('const', 'init', 'fac', 'win', 'narrow', 'n0', 'iters', 'hist', 'hseed', 'spread')
    c.update(zip(keys, t))
    c['pnlt'], c['cmx'] = None, 1.0
    rng = np.random.default_rng(c['hseed'])
    h, s = c['hist'], c['spread']
    lg = lambda m, *k: (m * 10.0 ** rng.uniform(-s, s, k)).tolist()
    v = np.var(c['f']) + 1e-6
    c['H'] = dict(theta=lg(np.array(c['theta']), h, c['d']), kernel=(10.0 ** rng.uniform(-3.5, 1.5, h)).tolist(), varK=lg(v, h), var_f=lg(1e-3 * v, h), var_g=lg(1e-2 * v, h))
    return c


def cases():
    return st.builds(_b, c10.cases(scales=(-1, 1)), st.tuples(
        st.sampled_from([1, 1, 1, 2, 4]), st.sampled_from([None, (1e-2, 2.0, 0.3, 0.01), (1.5, 0.5, 0.0, 0.2), (0.3, 1.0, 1e-3, 0.0)]),
        st.sampled_from([(1e3, 1e5), (10.0, 100.0), (2.0, 2.0), (1e3, 1e3), (1.5, 1e8)]), st.sampled_from([5, 5, 1, 2, 3, 7]),
        st.sampled_from([(), (), ('theta',), ('varK', 'kernel'), tuple(sorted(NARROW))]), st.integers(1, 8), st.sampled_from([3, 8, 20]),
        st.one_of(st.integers(1, 7), st.integers(1, 12)), st.integers(0, 2 ** 31), st.sampled_from([0.3, 2.0, 6.0, 12.0])))


def configure(c):
    gp = c10.setup(c, c['hist'] + 1)
    gp.hp_const_n_eval = c['const']
    if c['init']:
        gp.hp_theta_init, gp.hp_varK_init, gp.hp_var_fval_init, gp.hp_var_fgrad_init = c['init']
    gp.hp_lhs_bound_factor, gp.hp_box_bound_factor = c['fac']
    gp.hp_median_n_idx = c['win']
    rg = dict(RANGES)
    for k in c['narrow']:
        rg[k] = NARROW[k]
        if k != 'kernel' or c['kernel'] == 'RatQu':
            setattr(gp, 'hp_%s_range' % k, list(NARROW[k]))
    gp.optz_n_x0 = gp.lkd_hp_best_n_eval = c['n0']
    gp.optz_iter_max = c['iters']
    return gp, rg


def box(c, rg, names, fac):
    """Median of the last entries of the history, divided and multiplied by fac, within the range."""
    lo, hi = [], []
    w = c['win']
    for nm in names:
        key = {'alpha': 'kernel', 'var_f': 'var_fval', 'var_g': 'var_fgrad'}.get(nm, 'theta' if nm.startswith('theta') else nm)
        col = [r[int(nm[5:])] for r in c['H']['theta']] if key == 'theta' else c['H']['kernel' if nm == 'alpha' else nm]
        m = min(max(np.median(col[-w:]), rg[key][0]), rg[key][1])
        l, h = max(m / fac, rg[key][0]), min(m * fac, rg[key][1])
        if c06.is_log(c, nm):
            l, h = np.log10(l), np.log10(h)
        lo.append(l)
        hi.append(h)
    return np.array(lo), np.array(hi)


def bounds_of(r, k):
    b = r['kw'].get('bounds')
    if hasattr(b, 'lb'):
        return np.broadcast_to(np.asarray(b.lb, float), k), np.broadcast_to(np.asarray(b.ub, float), k)
    b = np.array([[-np.inf if x is None else x, np.inf if y is None else y] for x, y in b], float)
    return b[:, 0], b[:, 1]


def spread(what, P, lo, hi):
    """Latin hypercube: one of the n points in each of the n slices of every direction."""
    n = len(P)
    u = (P - lo) / (hi - lo) * n
    if np.any(u < -1e-9 * n) or np.any(u > n * (1 + 1e-9)):
        i = np.argwhere((u < -1e-9 * n) | (u > n * (1 + 1e-9)))[0]
        raise Violation('%s: variable %d is %r in start %d, range [%r, %r]' % (what, i[1], P[tuple(i)], i[0], lo[i[1]], hi[i[1]]))
    for k in range(P.shape[1]):
        if sorted(np.clip(np.floor(u[:, k]), 0, n - 1).astype(int).tolist()) != list(range(n)):
            raise Violation('%s: variable %d takes the values %r, not one in each of %d slices of [%r, %r]' % (what, k, P[:, k].tolist(), n, lo[k], hi[k]))


def o_search(c):
    gp, rg = configure(c)
    c10.give(gp, c)
    h = c['hist']
    noisy = is_noisy(c)
    for j in range(h):
        H = {k: v[j] for k, v in c['H'].items()}
        gp.store_new_para_surr(j, gp.make_hp_class(np.array([0.0]), np.array(H['theta']), H['kernel'] if c['kernel'] == 'RatQu' else None, H['varK'],
                                                   H['var_f'] if c['sf'] is None else None, H['var_g'] if c['use_grad'] and c['sg'] is None else None))
    names = hp_names(c, c['optk'])
    orig, sampled, state = gp.calc_lkd_all, [], dict(on=True)

    def rec(hp, *a, **k):
        out = orig(hp, *a, **k)
        if state['on'] and not log:
            sampled.append((vec(c, names, hp), out))
        return out
    gp.calc_lkd_all = rec
    err = None
    with c10.watch(gp) as log:
        try:
            gp.set_hpara('optz', h)
        except Exception as e:
            err = e
    state['on'] = False
    del gp.calc_lkd_all
    tags = tags_of(c) + ['history=%d' % h, 'start=' + c['start'], 'window=%d' % c['win'], 'ranges=%s' % ('narrow' if c['narrow'] else 'default'), 'optimiser=%s' % c['mtd']]
    if c['n'] <= c['const']:
        return initial(c, gp, log, err) and False, tags + ['initial']
    lo, hi = box(c, rg, names, c['fac'][1])
    l2, h2 = box(c, rg, names, c['fac'][0])
    if not log:
        if err is not None:
            if any(np.isfinite(o[0].ln_lkd or np.nan) for _, o in sampled if o[1]):
                raise err
            raise Skip()
        raise Violation('the hyperparameters were not optimised with %d evaluations, the initial values are for at most %d' % (c['n'], c['const']))
    for r in log:
        a, b = bounds_of(r, len(names))
        if a.shape != lo.shape or not np.allclose(a, lo, rtol=1e-9, atol=1e-9 * is_l(c, names)) or not np.allclose(b, hi, rtol=1e-9, atol=1e-9 * is_l(c, names)):
            raise Violation('bounds %r %r of %r, expected %r %r' % (a.tolist(), b.tolist(), names, lo.tolist(), hi.tolist()))
        for x in r['seen']:
            if np.any(x < a - 1e-7 * (1e-3 + np.abs(a))) or np.any(x > b + 1e-7 * (1e-3 + np.abs(b))):
                raise Violation('the optimiser evaluated %r outside its bounds %r %r' % (x.tolist(), a.tolist(), b.tolist()))
        if r['kw'].get('method') != c['mtd']:
            raise Violation('optimiser %r used, %r requested' % (r['kw'].get('method'), c['mtd']))
        if 'nit' in r and r['nit'] > c['iters']:
            raise Violation('%d iterations, the limit is %d' % (r['nit'], c['iters']))
    many = c['wc'] in ('rescale_origin', 'rescale_eta_vary') and c['n'] > 1
    ns = 1 if c['start'] == 'hp_best' else c['n0']
    if len(log) < ns or (not many and len(log) != ns) and err is None:
        raise Violation('%d runs of the optimiser from %d starts' % (len(log), ns))
    if c['start'] == 'lhs':
        if len(log) >= ns:
            spread('starting points', np.array([r['x0'] for r in log[:ns]]), l2, h2)
    else:
        first = [i for i, (p, _) in enumerate(sampled) if not any(np.allclose(p, q, rtol=1e-12, atol=0) for q, _ in sampled[:i])]
        sampled = [sampled[i] for i in first]       # the chosen start may be evaluated again before the optimiser starts
        if len(sampled) != c['n0']:
            raise Violation('%d points were evaluated to choose the start, %d requested' % (len(sampled), c['n0']))
        P = np.array([p for p, _ in sampled])
        spread('points sampled for the start', P, l2, h2)
        L = np.array([o[0].ln_lkd if o[1] and o[0].ln_lkd is not None else np.nan for _, o in sampled], float)
        x0 = log[0]['x0']
        d = np.abs(P - x0) / (1e-300 + np.abs(x0))
        k = int(np.argmin(d.max(1)))
        if d[k].max() > 1e-9:
            raise Violation('the start %r is none of the sampled points %r' % (x0.tolist(), P.tolist()))
        if c['wc'] != 'precon':
            cd = np.array([o[0].cond for _, o in sampled], float)
            cd = np.where(np.isfinite(L), cd, np.inf)
            L = np.where(cd > 1.2 * gp.cond_max, np.nan, L)
            if not np.any(np.isfinite(L)) and not cd[k] <= np.min(cd) * (1 + 1e-9):
                raise Violation('no sampled point is admissible, the start has condition number %r, the smallest is %r' % (cd[k], np.min(cd)))
        if np.any(np.isfinite(L)) and not L[k] >= np.nanmax(L) - 1e-9 * (1 + abs(np.nanmax(L))):
            raise Violation('the start has likelihood %r, the best admissible sampled point has %r (%r)' % (L[k], np.nanmax(L), L.tolist()))
    if err is not None:
        raise Skip()
    if not many:
        x = vec(c, names, gp.hp_vals)
        if np.any(x < lo - 1e-7 * (1e-3 + np.abs(lo))) or np.any(x > hi + 1e-7 * (1e-3 + np.abs(hi))):
            raise Violation('the optimised %r = %r is outside the box %r %r' % (names, x.tolist(), lo.tolist(), hi.tolist()))
    return h > 1 and bool(c['narrow'] or c['fac'] != (1e3, 1e5)), tags


def is_l(c, names):
    return np.array([float(c06.is_log(c, nm)) for nm in names])


def vec(c, names, hp):
    v = np.array([c10.hp_value(hp, nm) for nm in names])
    return np.where(is_l(c, names) > 0, np.log10(np.maximum(v, 1e-300)), v)


def initial(c, gp, log, err):
    if log:
        raise Violation('%d evaluations, the initial values are for up to %d, but the optimiser was run' % (c['n'], c['const']))
    th, vk, vf, vg = c['init'] or (1e-2, 1.0, 0.0, 0.0)
    sc = scaled(c)
    hp = gp.hp_vals
    if hp is None:
        raise Violation('no hyperparameters after an evaluation with the initial values (%r)' % (err,))
    want = dict(theta=np.full(c['d'], th), varK=vk, var_fval=vf if c['sf'] is None else None, var_fgrad=vg if c['use_grad'] and c['sg'] is None else None,
                beta=[np.mean(sc['f'])], kernel=2.0 if c['kernel'] == 'RatQu' else None)
    for nm, w in want.items():
        v = getattr(hp, nm)
        if w is None or v is None:
            if (w is None) != (v is None or np.all(np.isnan(np.asarray(v, float)))):
                raise Violation('initial %s is %r, expected %r' % (nm, v, w))
        elif np.shape(np.ravel(v)) != np.shape(np.ravel(w)) or not np.allclose(v, w, rtol=1e-12, atol=1e-12 * (np.max(np.abs(sc['f'])) if nm == 'beta' else 0)):
            raise Violation('initial %s is %r, expected %r' % (nm, v, w))
    cond = gp.Kcov_cond_all[c['hist']]
    sc.update(th=want['theta'], varK=vk, alpha=want['kernel'])
    n, nd = c['n'], 0 if sc['g'] is None else sc['g'].size
    noise = np.zeros(n + nd)
    noise[:n] = vf if sc['sf'] is None else sc['sf'] ** 2
    if nd:
        noise[n:] = vg if sc['sg'] is None else (sc['sg'] ** 2).T.ravel()
    sc['noise'] = noise
    try:
        L = Lkd(c, sc)
    except Skip:
        return True
    A = L.A / np.sqrt(np.outer(L.Dn, L.Dn)) if c['wc'] == 'precon' else L.A
    w = np.linalg.eigvalsh((A + A.T) / 2)
    if w[0] <= 0:
        return True
    cr, e = w[-1] / w[0], 60 * L.N * 2.3e-16 * w[-1] / w[0]
    if c.get('cond_norm') == 'fro':
        cr, e = np.sqrt(np.sum(w ** 2) * np.sum(w ** -2)), 2 * e
    if e < 0.02 and not abs(cond - cr) <= (e + 1e-9) * cr:
        raise Violation('recorded condition number %.12g with the initial values, exact value %.12g' % (cond, cr))
    if err is not None and w[0] > 1e-12 * w[-1]:
        raise err
    return True


SUBS = [Sub('search', cases, o_search, quick=120, thorough=3000)]
