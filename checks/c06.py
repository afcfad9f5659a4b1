"""C06: marginal likelihood, generalised least-squares mean and closed-form variance are exact."""
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, make_gp, hp_of, scaled, tags_of
from lkd import Lkd, is_noisy
from harness import Sub, Violation, Skip
import c03

PROP = 'C06'
RULE = ('Random data sets and hyperparameters (kernels, masks, noise kinds, methods, nugget kinds, penalty off / inactive / active, adjoint '
        'and direct evaluation); likelihood, log determinant, mean and variance compared with the dense reference. Non-trivial: at '
        'least two observations and tolerance on the likelihood below 1e-5 (1 + |likelihood|); for the extreme determinants: the determinant '
        'itself is outside the range of floating-point numbers.')
ASSUMPTIONS = ['first-order backward-error tolerance; cases with tolerance x condition number > 0.02 are skipped',
               'additive constants (n log 2 pi) are not part of the likelihood, as documented in the code']


def _pn(c, t):
    c['pnlt'] = None if t[0] == 'off' else dict(c1=t[1], c2={'on': 0.05, 'inactive': 1e6, 'mid': 1.0}[t[0]], lb=t[2])
    c['data'] = t[3]
    c['logs'] = None if len(t) < 5 or t[4] is None else dict(zip(('theta', 'kernel', 'var'), t[4]))
    if t[3] == 'flat':
        c['f'] = [c['f'][0]] * c['n']
    elif t[3] == 'wild':
        c['f'] = [v * (10.0 if i % 2 else 1.0) for i, v in enumerate(c['f'])]
    return c


# which hyperparameters the optimiser sees as logarithms (None: the default, all of them)
LOGS = st.one_of(st.none(), st.tuples(st.booleans(), st.booleans(), st.booleans()))


def is_log(c, nm):
    g = c.get('logs')
    return True if not g else g['theta' if nm.startswith('theta') else 'kernel' if nm == 'alpha' else 'var']


def cases(**kw):
    kw.setdefault('noises', ('none', 'none', 'known', 'unknown', 'mixed'))
    kw.setdefault('lls', c03.LLS)
    return st.builds(_pn, structure(**kw).map(expand).map(jl), st.tuples(
        st.sampled_from(['off', 'off', 'on', 'mid', 'inactive']), st.sampled_from([1.0, 0.01, 3.0]), st.sampled_from([0.1, 2.0]),
        st.sampled_from(['plain', 'plain', 'wild', 'flat']), LOGS))


def build(c):
    gp = make_gp(c)
    if c.get('pnlt'):
        gp.lkd_varK_pnlt_use = True
        gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2, gp.lkd_varK_pnlt_lb_var = c['pnlt']['c1'], c['pnlt']['c2'], c['pnlt']['lb']
    return gp


def lkd_hp(gp, c, sc):
    hp = hp_of(gp, c, sc)
    hp.beta = None
    if not is_noisy(c):
        hp.varK = None
    return hp


def num(name, v):
    try:
        v = float(np.asarray(v, float).reshape(-1)[0]) if np.size(v) == 1 else None
    except TypeError:
        v = None
    if v is None:
        raise Violation('%s is not a number: %r' % (name, v))
    return v


def cmpv(name, got, want, tol):
    got = num(name, got)
    if not abs(got - want) <= tol:
        raise Violation('%s is %.17g, exact value %.17g (tolerance %.2g)' % (name, got, want, tol))


def o_lkd(c):
    L = Lkd(c, pnlt=c['pnlt'] if not is_noisy(c) else None)
    if c['data'] == 'flat' and not is_noisy(c) and not c['use_grad']:
        raise Skip()
    gp = build(c)
    for adj in (True, False, None):
        info, ok = gp.calc_lkd_all(lkd_hp(gp, c, L.sc), lkd_use_adj_mtd=adj)
        if ok is not True and ok != 1:
            raise Violation('factorisation of a matrix with condition number %.2g reported as failed' % L.cond)
        nm = ' (adjoint %s)' % adj
        cmpv('log likelihood' + nm, info.ln_lkd, L.lkd, L.t_lkd)
        cmpv('log determinant' + nm, info.ln_det_Kmat, L.logdet, L.t_logdet)
        cmpv('mean' + nm, info.hp_beta, L.beta, L.t_beta)
        if not L.noisy:
            cmpv('closed-form variance' + nm, info.hp_varK, L.varK, L.t_varK + 1e-13 * L.varK)
    nt = L.N > 1 and L.t_lkd < 1e-5 * (1 + abs(L.lkd))
    # what the optimiser sees
    vec = to_vec(gp, c, L)
    v = gp.return_optz_val(vec)
    cmpv('objective given to the optimiser', v, -L.lkd, L.t_lkd * 1.2 + vec_tol(L))
    # closed-form completion of hyperparameters
    hp = gp.optz_closed_form_hp(lkd_hp(gp, c, L.sc))
    cmpv('mean stored with the hyperparameters', hp.beta, L.beta, L.t_beta)
    if not L.noisy:
        cmpv('variance stored with the hyperparameters', hp.varK, L.varK, L.t_varK + 1e-13 * L.varK)
    else:
        cmpv('variance stored with the hyperparameters', hp.varK, L.sc['varK'], 1e-13 * L.sc['varK'])
    t = tags_of(c)
    t.append('penalty=' + ('off' if L.noisy or c['pnlt'] is None else 'active' if L.dpen > 0 else 'inactive'))
    return bool(nt), t


def to_vec(gp, c, L):
    """Optimiser variables (log10 or plain) of the hyperparameters in the documented order."""
    from lkd import hp_names
    return np.array([np.log10(L.value_of(nm)) if is_log(c, nm) else L.value_of(nm) for nm in hp_names(c)])


def chain(c, L, nm):
    """(value * derivative) -> derivative w.r.t. the optimiser variable."""
    return np.log(10.0) if is_log(c, nm) else 1.0 / L.value_of(nm)


def vec_tol(L):
    """Effect of rounding the optimiser variables: |log10 p| eps ln10 relative change of p."""
    from lkd import hp_names
    t = 0.0
    for nm in hp_names(L.c):
        g = L.grad(nm)
        t += (abs(g['g']) + g['t']) * 1e-14 * (1 + abs(np.log10(L.value_of(nm))))
    return t


def bigdet():
    # many smooth observations in units far from one: the determinant is outside the range of floating-point numbers
    return cases(nmin=10, nmax=26, dmax=4, scales=(-4, 4), lls=(0.8, 1.5, 3.0), noises=('none', 'none', 'known', 'mixed'), big=False, partial=False)


def o_bigdet(c):
    nt, t = o_lkd(c)
    L = Lkd(c, pnlt=c['pnlt'] if not is_noisy(c) else None)
    return bool(abs(L.logdet) > 720), t


SUBS = [Sub('bigdet', bigdet, o_bigdet, quick=40, thorough=1000, weight=1.5), Sub('likelihood', cases, o_lkd, quick=300, thorough=6000)]
