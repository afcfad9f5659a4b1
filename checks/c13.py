"""C13: predictions do not depend on the order of the data, the origin, units or batching (metamorphic relations)."""
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, make_gp, hp_of, scaled, tags_of, RESCALE
from post import Post
from lkd import Lkd, is_noisy
from harness import Sub, Violation, Skip
import c03
import c06

PROP = 'C13'
RULE = ('A random surrogate and a random composition of 1-4 transformations (permute points, permute or reflect coordinates, translate, shift or '
        'scale values, scale coordinates where the documented nugget allows it); predictions, gradients, Hessians and likelihood of both '
        'surrogates, each computed by the library, must agree after undoing the transformation; batches in random order with repeats '
        'must agree with single evaluations. Non-trivial: predictions differ from the prior and are determined to 1e-5.')
ASSUMPTIONS = ['coordinates are rescaled only for methods whose documented nugget is invariant (preconditioned, rescaling by one factor, no '
               'gradients)', 'tolerance: sum of the round-off bounds of both surrogates']


@st.composite
def cases(draw):
    c = jl(c03.with_points(expand(draw(structure(lls=c03.LLS))), 4))
    t = ['points', 'coords', 'reflect', 'translate', 'fshift', 'fscale']
    c['iso'] = True
    if not c['use_grad'] or c['wc'] == 'precon':
        t.append('xscale')
        c['iso'] = c['var_g'] is not None
    elif c['wc'] in RESCALE and c['n'] > 1:
        t.append('xscale')
    c['tr'] = draw(st.lists(st.sampled_from(t), min_size=1, max_size=4, unique=True))
    c['tseed'] = draw(st.integers(0, 2 ** 32 - 1))
    return c


class Tr:
    """Transformed case and the maps that take its predictions back."""

    def __init__(self, c):
        rng = np.random.default_rng(c['tseed'])
        d, n = c['d'], c['n']
        X, f, sf, g, sg, bv = arrays(c)
        xt, th = arr(c['xt']), arr(c['theta'])
        o = dict(c)
        beta, varK, vf, vg = c['beta'], c['varK'], c['var_f'], c['var_g']
        self.J = np.ones(d)          # d x_new / d x_old, per new coordinate
        self.perm = np.arange(d)
        self.fa, self.fq = 0.0, 1.0
        self.logx = 0.0
        for t in c['tr']:
            if t == 'points':
                p = rng.permutation(n)
                has = np.ones(n, bool) if bv is None else bv
                row = np.cumsum(has) - 1
                q = [row[i] for i in p if has[i]]
                X, f, sf = X[p], f[p], None if sf is None else sf[p]
                g, sg = (None if g is None else g[q]), (None if sg is None else sg[q])
                bv = None if bv is None else bv[p]
            elif t == 'coords':
                p = rng.permutation(d)
                X, xt, th = X[:, p], xt[:, p], th[p]
                g, sg = (None if g is None else g[:, p]), (None if sg is None else sg[:, p])
                self.perm, self.J = self.perm[p], self.J[p]
            elif t == 'reflect':
                s = rng.choice([-1.0, 1.0], d)
                s[rng.integers(d)] = -1.0
                X, xt = X * s, xt * s
                g = None if g is None else g * s
                self.J = self.J * s
            elif t == 'translate':
                v = np.abs(X).max() * rng.normal(size=d)
                X, xt = X + v, xt + v
            elif t == 'fshift':
                v = np.abs(f).max() * 3 * rng.normal()
                f, beta = f + v, beta + v
                self.fa += v
            elif t == 'fscale':
                q = float(10.0 ** (rng.uniform(-3, 3) if rng.uniform() < 0.8 else rng.uniform(-10, 10)) * rng.choice([-1, 1]))
                f, beta, g = f * q, beta * q, None if g is None else g * q
                sf, sg = (None if sf is None else sf * abs(q)), (None if sg is None else sg * abs(q))
                varK *= q * q
                vf, vg = (None if vf is None else vf * q * q), (None if vg is None else vg * q * q)
                self.fa, self.fq = self.fa * q, self.fq * q
            else:
                q = 10.0 ** rng.uniform(-2, 2, 1 if c['iso'] else d) * np.ones(d)
                X, xt, th = X * q, xt * q, th / q ** 2
                g, sg = (None if g is None else g / q), (None if sg is None else sg / q)
                vg = None if vg is None else vg / q[0] ** 2
                self.J = self.J * q
                self.logx += np.sum(np.log(q))
        self.c = jl(dict(o, X=X, f=f, sf=sf, g=g, sg=sg, bvec=bv, xt=xt, theta=th, beta=float(beta), varK=float(varK), var_f=vf, var_g=vg))

    def grad_back(self, g):
        """Gradient in new coordinates / values -> old coordinates (per row)."""
        o = np.zeros_like(g)
        o[..., self.perm] = g * self.J
        return o

    def hess_back(self, H):
        o = np.zeros_like(H)
        o[..., self.perm[:, None], self.perm[None, :]] = H * np.outer(self.J, self.J)
        return o


def outputs(c):
    P = Post(c)
    gp = make_gp(c)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, P.sc))
    xt = arr(c['xt'])
    o = gp.eval_model(xt, calc_grad=True)
    hs = [gp.eval_model(x[None], calc_grad=True, calc_hess=True)[4:] for x in xt]
    return gp, P, xt, [np.asarray(v, float) for v in o[:4]], hs


def o_meta(c):
    T = Tr(c)
    c2 = T.c
    g1, P1, x1, o1, h1 = outputs(c)
    g2, P2, x2, o2, h2 = outputs(c2)
    nt = False
    q = abs(T.fq)
    for i in range(len(x1)):
        a, b = P1.at(x1[i], True), P2.at(x2[i], True)
        for what, u, v, t in (
                ('mean', o1[0][i], (o2[0][i] - T.fa) / T.fq, a['tmu'] + b['tmu'] / q + 4e-16 * (abs(o2[0][i]) + abs(T.fa)) / q),
                ('variance', o1[1][i] ** 2, o2[1][i] ** 2 / q ** 2, a['tvar'] + b['tvar'] / q ** 2),
                ('gradient of the mean', o1[2][i], T.grad_back(o2[2][i]) / T.fq, a['tdmu'] + np.abs(T.grad_back(b['tdmu'])) / q),
                ('gradient of the variance', 2 * o1[1][i] * o1[3][i], T.grad_back(2 * o2[1][i] * o2[3][i]) / q ** 2,
                 a['tdvar'] + np.abs(T.grad_back(b['tdvar'])) / q ** 2),
                ('Hessian of the mean', np.asarray(h1[i][0])[0], T.hess_back(np.asarray(h2[i][0])[0]) / T.fq,
                 a['td2mu'] + np.abs(T.hess_back(b['td2mu'])) / q)):
            if what == 'gradient of the variance' and (o1[1][i] == 0 or o2[1][i] == 0):
                continue
            t = t + 1e-13 * np.abs(u)
            if not np.all(np.abs(u - v) <= t):
                raise Violation('%s at %s is %r, after %s %r (tolerance %s)' % (what, x1[i], np.asarray(u).tolist(), '+'.join(c['tr']), np.asarray(v).tolist(), t))
        nt |= a['tvar'] < 1e-5 * a['prior'] and a['var'] < 0.99 * a['prior']
    # likelihood
    try:
        L1, L2 = Lkd(c), Lkd(c2)
    except Skip:
        return bool(nt), tags_of(c) + ['tr=' + t for t in c['tr']]
    l1 = float(g1.calc_lkd_all(c06.lkd_hp(g1, c, L1.sc))[0].ln_lkd)
    l2 = float(g2.calc_lkd_all(c06.lkd_hp(g2, c2, L2.sc))[0].ln_lkd)
    ng = (L1.N - L1.n) // c['d']
    df = np.log(q * L2.sc['kf'] / L1.sc['kf'])
    dx = T.logx + c['d'] * np.log(L2.sc['kx'] / L1.sc['kx'])
    want = l1 - L1.N * df + ng * dx
    if not abs(l2 - want) <= L1.t_lkd + L2.t_lkd + 1e-12 * (abs(l1) + abs(l2) + L1.N * abs(df)):
        raise Violation('log likelihood is %.12g, after %s it should be %.12g but is %.12g' % (l1, '+'.join(c['tr']), want, l2))
    return bool(nt), tags_of(c) + ['tr=' + t for t in c['tr']]


def o_batch(c):
    """Many points at once, in any order and with repeats, equal one point at a time."""
    P = Post(c)
    gp = make_gp(c)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c, P.sc))
    xt = arr(c['xt'])
    rng = np.random.default_rng(c['tseed'])
    k = int(rng.integers(1, 9)) if rng.uniform() < 0.9 else int(rng.integers(20, 150))
    idx = rng.integers(len(xt), size=k)
    B = [np.asarray(v) for v in gp.eval_model(xt[idx], calc_grad=True)[:4]]
    V = gp.eval_model(xt[idx])
    W = gp.eval_model_var(xt[idx], calc_grad=True)[:2] if c['wc'] not in RESCALE else None
    nt = False
    for j, i in enumerate(idx):
        e = P.at(xt[i])
        S = [np.asarray(v) for v in gp.eval_model(xt[i], calc_grad=True)[:4]]
        Q = [np.asarray(v) for v in gp.eval_model(xt[i][None], calc_grad=True, squeeze_nx=True)[:4]]
        H = [np.asarray(v) for v in gp.eval_model(xt[i][None], calc_grad=True, calc_hess=True)[:4]]
        s = 1e-12
        for nm, b, one, sq, hh, t in zip(('mean', 'standard deviation', 'gradient of the mean', 'gradient of the deviation'), B, S, Q, H,
                                         (e['tmu'], None, e['tdmu'], None)):
            if nm == 'gradient of the deviation':
                if B[1][j] == 0 or S[1][0] == 0 or Q[1] == 0:
                    continue
                b, one, sq, hh, t = b[j] * B[1][j], one[0] * S[1][0], sq * Q[1], hh[0] * H[1][0], e['tdvar']
            elif nm == 'standard deviation':
                b, one, sq, hh, t = b[j] ** 2, one[0] ** 2, sq ** 2, hh[0] ** 2, e['tvar']
            else:
                b, one, hh = b[j], one[0], hh[0]
            for o in (one, sq, hh):
                if np.shape(o) != np.shape(b) or not np.all(np.abs(o - b) <= 2 * t + s * np.abs(b)):
                    raise Violation('%s in a batch of %d is %r, alone %r' % (nm, k, b.tolist(), o.tolist()))
        for nm, u, v, t in (('mean', V[0][j], B[0][j], e['tmu']), ('variance', V[1][j] ** 2, B[1][j] ** 2, e['tvar'])):
            if not abs(u - v) <= 2 * t + s * abs(v):
                raise Violation('%s without gradients is %.12g, with gradients %.12g' % (nm, u, v))
        if W is not None and not (abs(W[0][j] - B[1][j] ** 2) <= 2 * e['tvar'] + s * e['var']):
            raise Violation('variance in a batch is %.12g, squared standard deviation %.12g' % (W[0][j], B[1][j] ** 2))
        if W is not None:
            one = gp.eval_model_var(xt[i][None], calc_grad=True)
            for nm, a, b in (('variance alone', one[0][0], W[0][j]), ('gradient of the variance alone', one[1][0], W[1][j])):
                t = e['tvar'] if nm == 'variance alone' else e['tdvar']
                if np.shape(a) != np.shape(b) or not np.all(np.abs(a - b) <= 2 * t + s * np.abs(b)):
                    raise Violation('%s is %r, in a batch of %d %r' % (nm, np.asarray(a).tolist(), k, np.asarray(b).tolist()))
        nt |= k > 1 and e['tvar'] < 1e-5 * e['prior']
    if rng.uniform() < 0.2:
        big_batch(gp, P, c, rng)
    return bool(nt), tags_of(c) + ['batch=%d' % k]


def big_batch(gp, P, c, rng):
    """Hundreds of points (as for a figure or a grid) against the same points in small groups."""
    xt = arr(c['xt'])
    k = int(rng.integers(200, 1300))
    idx = rng.integers(len(xt), size=k)
    E = [P.at(x) for x in xt]
    S = [[np.asarray(v) for v in gp.eval_model(x[None], calc_grad=True)[:4]] for x in xt]
    for cg in (True, False):
        B = gp.eval_model(xt[idx], calc_grad=cg)
        for i in range(len(xt)):
            e, m = E[i], idx == i
            for nm, a, b, t in (('mean', B[0], S[i][0][0], e['tmu']), ('variance', B[1] ** 2, S[i][1][0] ** 2, e['tvar']),
                                ('gradient of the mean', B[2], S[i][2][0], e['tdmu'])):
                if a is not None and (len(a) != k or not np.all(np.abs(a[m] - b) <= 2 * t + 1e-12 * np.abs(b))):
                    raise Violation('%s in a batch of %d differs from that alone' % (nm, k))


SUBS = [Sub('transform', cases, o_meta, quick=300, thorough=5000, weight=2),
        Sub('batch', cases, o_batch, quick=120, thorough=2500)]
