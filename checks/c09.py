"""C09: the condition number and the gradient of the condition-number constraint are exact."""
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, make_gp, scaled, tags_of, shape_of
from lkd import Lkd, is_noisy, hp_names, C, EPS
from harness import Sub, Violation, Skip
import c03
import c06

PROP = 'C09'
RULE = ('Random data sets and hyperparameters (kernels, masks, noise kinds, methods, constant and varying nuggets, norm 2 and Frobenius, small to '
        'large function values); the condition number is compared with that of the reference matrix (preconditioned matrix for the '
        'preconditioned method) and its gradient with first-order perturbation of the reference eigenvalues. Non-trivial: value determined '
        'to 1e-4 and (gradients offered) at least one component 100 tolerances from zero.')
ASSUMPTIONS = ['cases whose extreme eigenvalues are not simple to 1e-5, or with (rounding x condition number) > 0.02, are skipped',
               'matrices with a condition number beyond the documented cond_max_abs are out of scope']


def _b(c, t):
    c['cond_norm'], c['pnlt'] = t[0], None
    c['data'] = 'plain'
    c['logs'] = None if t[2] is None else dict(zip(('theta', 'kernel', 'var'), t[2]))
    if t[1] != 1.0:
        # change of units of the function: values, gradients, noise and variances
        q = t[1]
        for k in ('f', 'sf', 'g', 'sg'):
            if c[k] is not None:
                c[k] = (np.array(c[k]) * q).tolist()
        c['beta'] *= q
        for k in ('varK', 'var_f', 'var_g'):
            if c[k] is not None:
                c[k] *= q * q
    return c


def cases():
    return st.builds(_b, structure(lls=c03.LLS, cond_targets=(1e10, 1e6, 1e4, 1e3, 50.0), scales=(-1, 1)).map(expand).map(jl),
                     st.tuples(st.sampled_from([2, 2, 'fro']), st.sampled_from([1.0, 1.0, 1e-4, 1e3, 1e-8]), c06.LOGS))


class Cond:
    def __init__(self, c):
        L = self.L = Lkd(c)
        A = L.A
        if c['wc'] == 'precon':
            p = np.sqrt(L.Dn)
            A = A / np.outer(p, p)
        self.A = A = (A + A.T) / 2
        self.w, self.V = np.linalg.eigh(A)
        if self.w[0] <= 0:
            raise Skip()
        self.fro = c['cond_norm'] == 'fro'
        cond = self.w[-1] / self.w[0]
        if cond > 1e15:
            raise Skip()
        self.e = C * (L.N * EPS + L.ex)
        if self.e * cond > 0.02:
            raise Skip()
        self.val = np.sqrt(np.sum(self.w ** 2) * np.sum(self.w ** -2)) if self.fro else cond
        self.t = (self.e * cond * (2 if self.fro else 1) + 1e-13) * self.val

    def grad(self, nm):
        """value * d cond / d nm and tolerance."""
        L, w, V = self.L, self.w, self.V
        p = L.value_of(nm)
        dA = L.dA(nm) * p
        nd = np.linalg.norm(dA)
        E = self.e * w[-1]
        nat = 6.0 * (1 + (1.0 if nm != 'alpha' else p))
        if self.fro:
            W3 = (V / w ** 3) @ V.T
            fA, fI = np.sqrt(np.sum(w ** 2)), np.sqrt(np.sum(w ** -2))
            t1, t2 = fI / fA * np.sum(self.A * dA), fA / fI * np.sum(W3 * dA)
            rel = 4 * self.e * w[-1] / w[0]
            tol = rel * (fI / fA * fA * nd + fA / fI * np.linalg.norm(W3) * nd)
            tol += (fI / fA * fA + fA / fI * np.linalg.norm(W3)) * C * (EPS + L.ex) * nat * np.diag(self.A).max()
            return t1 - t2, tol + 1e-12 * (abs(t1) + abs(t2))
        N = len(w)
        if N > 1 and (w[1] - w[0] < 1e-5 * w[-1] * 1e-3 + 200 * E or w[-1] - w[-2] < 1e-5 * w[-1]):
            raise Skip()
        cond = w[-1] / w[0]
        a, b = V[:, -1] @ dA @ V[:, -1], V[:, 0] @ dA @ V[:, 0]
        gm = w[1] - w[0] if N > 1 else 1.0
        gx = w[-1] - w[-2] if N > 1 else 1.0
        rel = 3 * self.e * cond + 1e-12
        # first-order change of v' dA v when v turns by E / gap (second-order part included for the flat direction)
        da = 2 * (np.linalg.norm(dA @ V[:, -1]) * E / gx) if N > 1 else 0.0
        db = 2 * (np.linalg.norm(dA @ V[:, 0]) * E / gm + nd * (E / gm) ** 2) if N > 1 else 0.0
        tol = (da + cond * db) / w[0] + rel * (abs(a) + cond * abs(b)) / w[0]
        # rounding of the derivative matrix itself
        tol += (self.e * nd + C * (EPS + L.ex) * nat * np.diag(self.A).max()) * (1 + cond) / w[0]
        return (a - cond * b) / w[0], tol


def cmpc(nm, got, R):
    got = c06.num(nm, got)
    if not abs(got - R.val) <= R.t:
        raise Violation('%s is %.12g, exact condition number %.12g (tolerance %.2g)' % (nm, got, R.val, R.t))


def o_cond(c):
    R = Cond(c)
    L = R.L
    gp = make_gp(c)
    gp.cond_max = gp.cond_max_abs = 1e16
    hp = c06.lkd_hp(gp, c, L.sc)
    names = hp_names(c)
    info, ok = gp.calc_lkd_all(hp, calc_cond=True)
    cmpc('condition number with the likelihood', info.cond, R)
    hp = c06.hp_of(gp, c, L.sc)
    cmpc('condition number of the covariance matrix', gp.calc_all_K_w_chofac(gp.get_scl_x_w_dist()[1], hp, varK=L.vk, calc_cond=True)[4], R)
    vec = c06.to_vec(gp, c, L)
    nt = R.t < 1e-4 * R.val and L.N > 1
    big = False
    hp = c06.lkd_hp(gp, c, L.sc)
    info, ok = gp.calc_lkd_all(hp, calc_cond=True, calc_grad=True)
    cmpc('condition number with the likelihood gradient', info.cond, R)
    t = tags_of(c) + ['norm=%s' % c['cond_norm']]
    if c['wc'] == 'precon':
        return bool(nt), t
    if L.eta_rows()[1] < 1e-6:
        raise Skip()
    G = [R.grad(nm) for nm in names]
    g = shape_of('gradient of the condition number', info.cond_grad, (len(names),))
    for k, nm in enumerate(names):
        if not abs(g[k] * L.value_of(nm) - G[k][0]) <= G[k][1]:
            raise Violation('%s * d condition number / d %s is %.12g, exact %.12g (tolerance %.2g)' % (
                nm, nm, g[k] * L.value_of(nm), G[k][0], G[k][1]))
        big |= bool(abs(G[k][0]) > 100 * G[k][1])
    # constraint given to the optimiser
    tv = R.t + sum((abs(a) + b) * 1e-14 * 30 for a, b in G)
    v = c06.num('constraint value', gp.return_cond_val(vec))
    if not abs(v - R.val) <= tv:
        raise Violation('constraint value is %.12g, exact condition number %.12g' % (v, R.val))
    gg = shape_of('constraint gradient', gp.return_cond_grad(vec), (len(names),))
    for k, nm in enumerate(names):
        q = c06.chain(c, L, nm)
        want = G[k][0] * q
        if not abs(gg[k] - want) <= 1.5 * G[k][1] * q + 1e-12 * abs(want):
            raise Violation('constraint gradient w.r.t. the variable of %s is %.12g, exact %.12g (tolerance %.2g)' % (nm, gg[k], want, G[k][1] * 1.5 * q))
    return bool(nt and big), t + ['nugget=' + ('varying' if L.eta_rows()[0] else 'constant')]


def fcases():
    """Nearly singular matrices with entries of very different sizes (the factorisation often fails)."""
    return st.builds(_b, structure(lls=(2.0, 10.0, 100.0), nmin=3, dmax=3, cond_targets=(1e10, 1e12, 1e14), use_grads=(True,),
                                   wcs=('base', 'base', 'rescale_origin', 'dflt_vmin', 'dflt_vmax'), scales=(-7, -4)).map(expand).map(jl),
                     st.tuples(st.sampled_from([2, 'fro']), st.sampled_from([1.0, 1.0, 1e-3]), c06.LOGS))


def o_failed(c):
    """When the factorisation fails, the objective and the constraint are the condition number and its gradient in the optimiser's variables."""
    gp = make_gp(c)
    sc = scaled(c)
    names = hp_names(c)
    val = {'alpha': sc['alpha'], 'varK': sc['varK'], 'var_f': sc['var_f'], 'var_g': sc['var_g']}
    p = np.array([val[nm] if nm in val else sc['th'][int(nm[5:])] for nm in names])
    log = np.array([c06.is_log(c, nm) for nm in names])
    vec = np.where(log, np.log10(p), p)
    hp = gp.hp_vec2dataclass(gp.hp_info_optz_lkd, vec.copy())
    info, ok = gp.calc_lkd_all(hp, calc_cond=True, calc_grad=True)
    p = np.where(log, 10.0 ** vec, p)
    t = tags_of(c) + ['factorised=%s' % bool(ok), 'norm=%s' % c['cond_norm']]
    chain = np.where(log, p * np.log(10), 1.0)
    if ok:
        if info.ln_lkd is None:
            raise Violation('no likelihood although the factorisation succeeded')
        v, g = -float(info.ln_lkd), -np.asarray(info.ln_lkd_grad) * chain
    else:
        v, g = info.cond, np.asarray(info.cond_grad) * chain
        if not info.cond > 1e10:
            raise Violation('condition number %r although the factorisation failed' % (info.cond,))
    def same(nm, a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-9 * np.abs(b)):
            raise Violation('%s is %r, expected %r (factorisation %s)' % (nm, a.tolist(), b.tolist(), 'succeeded' if ok else 'failed'))
    same('objective', gp.return_optz_val(vec.copy()), v)
    same('gradient of the objective', gp.return_optz_grad(vec.copy()), g)
    if gp.b_use_cond_cstr:
        same('constraint', gp.return_cond_val(vec.copy()), info.cond)
        same('gradient of the constraint', gp.return_cond_grad(vec.copy()), np.asarray(info.cond_grad) * chain)
    return not ok, t


SUBS = [Sub('condition', cases, o_cond, quick=300, thorough=6000),
        Sub('failed', fcases, o_failed, quick=150, thorough=3000)]
