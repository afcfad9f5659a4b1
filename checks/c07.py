"""C07: the likelihood gradient is the derivative of the likelihood, by the adjoint and the direct method."""
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, tags_of, shape_of
from lkd import Lkd, is_noisy, hp_names
from harness import Sub, Violation, Skip
import c06

PROP = 'C07'
RULE = ('Same cases as C06 (nugget constant or row-sum dependent, penalty off / inactive / active); each component of the gradient '
        'compared with the exact derivative of the reference likelihood, for the adjoint and direct method, for the derivatives of the log '
        'determinant, mean and variance, and for the optimiser callbacks in log10 variables. Non-trivial: a component is at least 1e3 '
        'tolerances from zero.')
ASSUMPTIONS = ['reference gradient self-tested by high-order differences of the reference likelihood (lib/selftest.py)',
               'cases where the row that sets a varying nugget is not unique (margin below 1e-6) are skipped: the likelihood has a kink there']


def o_grad(c):
    L = Lkd(c, pnlt=c['pnlt'] if not is_noisy(c) else None)
    if c['data'] == 'flat' and not is_noisy(c) and not c['use_grad']:
        raise Skip()
    if L.eta_rows()[1] < 1e-6:
        raise Skip()
    if L.pnlt and abs(L.varK / (L.pnlt['c2'] * max(np.var(L.sc['f']), L.pnlt['lb'])) - 1) < 1e-6:
        raise Skip()
    gp = c06.build(c)
    names = hp_names(c)
    G = [L.grad(nm) for nm in names]
    nt = False
    for adj in (True, False):
        info, ok = gp.calc_lkd_all(c06.lkd_hp(gp, c, L.sc), calc_grad=True, lkd_use_adj_mtd=adj)
        nm_ = ' (%s method)' % ('adjoint' if adj else 'direct')
        c06.cmpv('log likelihood with gradient' + nm_, info.ln_lkd, L.lkd, L.t_lkd)
        g = shape_of('gradient of the likelihood' + nm_, info.ln_lkd_grad, (len(names),))
        for k, nm in enumerate(names):
            e = G[k]
            if not abs(g[k] * e['p'] - e['g']) <= e['t']:
                raise Violation('%s * d likelihood / d %s%s is %.12g, exact %.12g (tolerance %.2g)' % (nm, nm, nm_, g[k] * e['p'], e['g'], e['t']))
            nt |= bool(abs(e['g']) > 1e3 * e['t'])
        if not adj:
            if info.ln_det_Kmat_grad is not None:
                gd = shape_of('gradient of the log determinant', info.ln_det_Kmat_grad, (len(names),))
                for k, nm in enumerate(names):
                    if not abs(gd[k] * G[k]['p'] - G[k]['dlogdet']) <= G[k]['t_dlogdet']:
                        raise Violation('%s * d log determinant / d %s is %.12g, exact %.12g' % (nm, nm, gd[k] * G[k]['p'], G[k]['dlogdet']))
            if info.hp_varK_grad is not None and not L.noisy:
                gv = shape_of('gradient of the variance', info.hp_varK_grad, (len(names),))
                for k, nm in enumerate(names):
                    if not abs(gv[k] * G[k]['p'] - G[k]['dvarK']) <= G[k]['t_dvarK'] + 1e-13 * abs(G[k]['dvarK']):
                        raise Violation('%s * d variance / d %s is %.12g, exact %.12g' % (nm, nm, gv[k] * G[k]['p'], G[k]['dvarK']))
            if info.hp_beta_grad is not None:
                gb = np.asarray(info.hp_beta_grad, float).reshape(-1)
                if gb.size != len(names):
                    raise Violation('gradient of the mean has size %d, expected %d' % (gb.size, len(names)))
                tb = [2 * L.t_beta * (1 + 10) + 1e-9 * (abs(G[k]['dbeta']) + abs(L.beta)) for k in range(len(names))]
                for k, nm in enumerate(names):
                    if L.cond < 1e6 and not abs(gb[k] * G[k]['p'] - G[k]['dbeta']) <= tb[k] * max(1.0, L.cond * 1e-3):
                        raise Violation('%s * d mean / d %s is %.12g, exact %.12g' % (nm, nm, gb[k] * G[k]['p'], G[k]['dbeta']))
    vec = c06.to_vec(gp, c, L)
    for twice in range(2):
        gg = gp.return_optz_grad(vec)
        gg = shape_of('gradient given to the optimiser', gg, (len(names),))
        for k, nm in enumerate(names):
            q = c06.chain(c, L, nm)
            want = -G[k]['g'] * q
            if not abs(gg[k] - want) <= G[k]['t'] * q * 1.5 + 1e-12 * abs(want):
                raise Violation('gradient given to the optimiser w.r.t. the variable of %s is %.12g, exact %.12g' % (nm, gg[k], want))
    t = tags_of(c) + ['variables=%s' % ('log' if not c.get('logs') or all(c['logs'].values()) else 'mixed')]
    t.append('penalty=' + ('off' if L.noisy or c['pnlt'] is None else 'active' if L.dpen > 0 else 'inactive'))
    t.append('nugget=' + ('varying' if L.eta_rows()[0] else 'constant'))
    return bool(nt), t


SUBS = [Sub('gradient', c06.cases, o_grad, quick=250, thorough=5000)]
