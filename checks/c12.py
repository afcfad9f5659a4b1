"""C12: data rescaling is an exact, invertible, derivative-consistent change of units (model-based histories)."""
import numpy as np
from hypothesis import strategies as st
from cases import jl, arr, rnd, structure, expand, make_gp, scaled, tags_of, arrays, RESCALE
from harness import Sub, Violation, Skip

PROP = 'C12'
RULE = ('Random point sets, objective and constraint data (any part missing), shift and scale options and sequences of set_* calls on Rescaling; '
        'after every call all scaled data, both maps, box and linear constraints are compared with a change of variables inferred from '
        'the maps of points and values. The same maps through GaussianProcess for every method. Non-trivial: scales differ from one and at '
        'least two kinds of data were set.')
ASSUMPTIONS = ['the scale of the coordinates is a positive diagonal map (documented)']
LANE_KERNELS = ['SqExp']
JIT_SHARE = 0.3
T = 1e-11


@st.composite
def cases(draw):
    c = dict(d=draw(st.integers(1, 5) if draw(st.booleans()) else st.integers(1, 9)), n=draw(st.integers(1, 6) if draw(st.booleans()) else st.integers(1, 15)), m=draw(st.integers(1, 3)), seed=draw(st.integers(0, 2 ** 32 - 1)),
             style=draw(st.sampled_from(['float', 'decimal', 'lattice'])), xs=10.0 ** draw(st.integers(-3, 3)), fs=10.0 ** draw(st.integers(-4, 4)))
    c['idx'] = draw(st.one_of(st.none(), st.integers(0, c['n'] - 1)))
    c['use_shift'] = draw(st.booleans())
    c['mtd'] = draw(st.sampled_from(['set_vmin', 'set_vmax', None]))
    c['dist'] = draw(st.one_of(st.none(), st.sampled_from([0.1, 1.0, 3.7, 250.0])))
    c['obj_shift'], c['obj_mtd'] = draw(st.booleans()), draw(st.sampled_from(['dflt_max', 'dflt_max', None]))
    c['nlc_shift'], c['nlc_mtd'] = draw(st.booleans()), draw(st.sampled_from(['obj_scl', None]))
    c['flat'] = draw(st.sampled_from([False, False, False, True]))
    c['close'] = draw(st.sampled_from([None, None, None, 1e-4, 1e-6, 1e-8]))
    c['miss'] = [draw(st.booleans()) for _ in range(6)]
    c['ng'] = draw(st.integers(0, c['n']))
    c['inf'] = draw(st.sampled_from([0, 0, 1, 2, 3]))      # infinite sides of the box (1), the linear constraints (2)
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(['obj', 'nlc', 'box', 'lin', 'scale', 'shift', 'both', 'reset', 'oscl', 'nscl']),
                                       st.integers(0, 9)), min_size=3, max_size=10))
    return c


def relok(a, b, s=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.maximum(np.abs(a), np.abs(b)) if s is None else s
    with np.errstate(invalid='ignore'):
        return bool(np.all((a == b) | (np.abs(a - b) <= T * s + 1e-300)))


def same(what, got, want, s=None):
    if (got is None) != (want is None):
        raise Violation('%s is %s, expected %s' % (what, 'missing' if got is None else 'present', 'missing' if want is None else 'present'))
    if want is None:
        return
    if not relok(got, want, s):
        raise Violation('%s is %r, expected %r' % (what, np.asarray(got).tolist(), np.asarray(want).tolist()))


def alone(what, fun, args):
    """Every kind of data is converted independently of which other kinds are given."""
    full = fun(*args)
    for i, v in enumerate(args):
        r = fun(*[v if i == j else None for j in range(6)])
        for j in range(6):
            w = full[j] if i == j else None
            if (r[j] is None) != (w is None) or (w is not None and not np.array_equal(r[j], w)):
                raise Violation('%s: item %d is %r when only item %d is given, %r with all of them' % (
                    what, j, None if r[j] is None else np.asarray(r[j]).tolist(), i, None if w is None else np.asarray(w).tolist()))


def quad(rng, d, s, xs):
    b, H = rng.normal(size=d) * s / xs, rng.normal(size=(d, d)) * s / xs ** 2
    H = H + H.T
    a = s * rng.normal()
    return (lambda X: a + X @ b + 0.5 * np.einsum('ij,jk,ik->i', X, H, X)), (lambda X: b + X @ H), H


def o_rescale(c):
    from gpgradpy.src.base import Rescaling
    rng = np.random.default_rng(c['seed'])
    d, n, m, xs, fs = c['d'], c['n'], c['m'], c['xs'], c['fs']
    off = rng.choice([0.0, 0.0, 5.0, -40.0]) * xs
    X = rnd(rng, (n, d), -1, 1, c['style']) * xs + off
    D = np.array([np.linalg.norm(X[i] - X[j]) for i in range(n) for j in range(i)])
    if n > 1 and D.min() < 1e-3 * xs:
        X = rng.uniform(-1, 1, (n, d)) * xs + off
        D = np.array([np.linalg.norm(X[i] - X[j]) for i in range(n) for j in range(i)])
        if D.min() < 1e-3 * xs:
            raise Skip()
    if n > 1 and c.get('close'):
        # two points (not necessarily consecutive) that nearly coincide
        i, j = rng.choice(n, 2, replace=False)
        X[i] = X[j] + rng.normal(size=d) * c['close'] * xs
        D = np.array([np.linalg.norm(X[i] - X[j]) for i in range(n) for j in range(i)])
    xmag = np.abs(X).max() + xs
    fn, gr, H = quad(rng, d, fs, xs)
    f, g = fn(X), gr(X)[:c['ng']]
    if c['flat']:
        f = np.full(n, fs)
    sf, sg = fs * rng.uniform(0, 1, n), fs / xs * rng.uniform(0, 1, g.shape)
    ms = c['miss']
    obj = [f, None if ms[0] else sf, None if ms[1] else g, None if ms[2] or ms[1] else sg]
    Q = [quad(rng, d, fs * 10.0 ** rng.integers(-2, 3), xs) for _ in range(m)]
    nv = np.stack([q[0](X) for q in Q], 1)
    ngd = np.stack([q[1](X) for q in Q], 1)
    nlc = [nv, None if ms[3] else np.abs(nv) * 0.1, None if ms[4] else ngd, None if ms[5] or ms[4] else np.abs(ngd) * 0.2]
    lb, ub = X.min(0) - xs * rng.uniform(0, 1, d), X.max(0) + xs * rng.uniform(0, 1, d)
    A = rng.normal(size=(m, d))
    la, ua = A @ X[-1] - xs * rng.uniform(0, 1, m), A @ X[-1] + xs * rng.uniform(0, 1, m)
    if c.get('inf', 0) & 1:
        lb[rng.uniform(size=d) < 0.5], ub[rng.uniform(size=d) < 0.5] = -np.inf, np.inf
    if c.get('inf', 0) & 2:
        la[rng.uniform(size=m) < 0.5], ua[rng.uniform(size=m) < 0.5] = -np.inf, np.inf
    keep = [v.copy() for v in [X, lb, ub, A, la, ua] + [v for v in obj + nlc if v is not None]]
    R = Rescaling(X, idx_xbest=c['idx'], use_x_shift=c['use_shift'], x_scl_method=c['mtd'], dist_set=c['dist'])
    best = n - 1 if c['idx'] is None else c['idx']
    S = dict(obj=False, nlc=False, box=False, lin=False, vec=np.ones(d), shift=X[best].copy() if c['use_shift'] else np.zeros(d), os=None, ns=None)
    xt = X[rng.integers(n, size=3)] + rng.normal(size=(3, d)) * xs
    check(R, c, S, X, D, best, obj, nlc, (lb, ub), (A, la, ua), xt, xmag, (fn, gr, H), Q, rng)
    for op, p in c['ops']:
        if op == 'obj':
            R.set_obj_data(*obj, use_obj_shift=c['obj_shift'], obj_scl_method=c['obj_mtd'])
            rg = f.max() - f.min()
            S['os'] = (f[best] if c['obj_shift'] else 0.0, 100.0 / max(rg, 1e-20) if (n > 1 and c['obj_mtd']) else 1.0)
            S['obj'] = True
        elif op == 'nlc':
            if c['nlc_mtd'] == 'obj_scl' and not S['obj'] and n > 1:
                continue
            R.set_nlc_data(*nlc, use_nlc_shift=c['nlc_shift'], nlc_scl_method=c['nlc_mtd'])
            S['ns'] = (nv[best].copy() if c['nlc_shift'] else np.zeros(m), S['os'][1] if (c['nlc_mtd'] and n > 1) else 1.0)
            S['nlc'] = True
        elif op == 'box':
            R.set_boxcon(lb, ub)
            S['box'] = True
        elif op == 'lin':
            R.set_lincon(A, la, ua)
            S['lin'] = True
        elif op in ('scale', 'both', 'shift', 'reset'):
            sh = X.mean(0) + 0.3 * xs * rng.normal(size=d) if op in ('both', 'shift') else None
            vec = np.exp(rng.normal(size=d) * 1.5) if op in ('scale', 'both') else None
            R.set_xscale_data(x_shift_in=sh, xvec_scale_in=vec)
            S['vec'] = np.ones(d) if vec is None else vec
            S['shift'] = sh if sh is not None else (X[best].copy() if c['use_shift'] else np.zeros(d))
        elif op == 'oscl' and S['obj']:
            a, b = (None if p == 0 else fs * (p - 5.0)), (None if p == 1 else 0.5 + p)
            R.set_obj_scaling(a, b)
            S['os'] = (S['os'][0] if a is None else a, S['os'][1] if b is None else b)
        elif op == 'nscl' and S['nlc']:
            a, b = (None if p == 0 else nv.mean(0) * p), (None if p == 1 else 0.5 + p)
            R.set_nlc_scaling(a, b)
            S['ns'] = (S['ns'][0] if a is None else a, S['ns'][1] if b is None else b)
        check(R, c, S, X, D, best, obj, nlc, (lb, ub), (A, la, ua), xt, xmag, (fn, gr, H), Q, rng)
    now = [X, lb, ub, A, la, ua] + [v for v in obj + nlc if v is not None]
    if not all(np.array_equal(a, b) for a, b in zip(keep, now)):
        raise Violation('data given by the user were modified')
    kinds = sum(bool(S[k]) for k in ('obj', 'nlc', 'box', 'lin'))
    sc = np.asarray(R.xvec_scale)
    return bool(kinds >= 2 and np.any(sc != 1)), ['mtd=%s' % c['mtd'], 'n=%d' % n, 'd=%d' % d, 'kinds=%d' % kinds]


def check(R, c, S, X, D, best, obj, nlc, box, lin, xt, xmag, fq, Q, rng):
    n, d = X.shape
    xs = c['xs']
    # scale of the coordinates implied by the options
    Y = (X - S['shift']) * S['vec']
    coef = 1.0
    if n > 1 and c['mtd']:
        E = np.array([np.linalg.norm(Y[i] - Y[j]) for i in range(n) for j in range(i)])
        coef = (1.0 if c['dist'] is None else c['dist']) / (E.min() if c['mtd'] == 'set_vmin' else E.max())
    J = S['vec'] * coef
    tj = 2e-15 * max(1.0, xmag / D.min()) * 40 if n > 1 else 1e-13
    if tj > 1e-3:
        raise Skip()
    if np.any(np.abs(np.asarray(R.xvec_scale, float) - J) > (tj + T) * J):
        raise Violation('scales of the coordinates %r, expected %r' % (np.asarray(R.xvec_scale).tolist(), J.tolist()))
    J = np.asarray(R.xvec_scale, float)
    same('shift of the coordinates', R.x_shift, S['shift'], xmag)
    # points: affine map, both shapes, round trips
    P = np.vstack([X, xt])
    px = R.x_init_2_scl(P)
    same('scaled points', px, (P - S['shift']) * J, J * xmag)
    same('scaled point (1D)', R.x_init_2_scl(P[-1]), px[-1], J * xmag)
    same('points scaled back', R.x_scl_2_init(px), P, xmag)
    same('point scaled back (1D)', R.x_scl_2_init(px[0]), P[0], xmag)
    x2, Rt = R.get_scl_x_w_dist()
    same('stored scaled points', x2, px[:n], J * xmag)
    same('stored scaled points', R.get_scl_x(), px[:n], J * xmag)
    same('original points', R.get_init_x(), X)
    Rw = x2.T[:, :, None] - x2.T[:, None, :]
    if Rt.shape != Rw.shape or not relok(Rt, Rw, xmag * J.max()):
        raise Violation('stored differences of the scaled points are not those of the scaled points')
    if S['shift'] is not None and c['use_shift'] and np.array_equal(S['shift'], X[best]) and np.any(x2[best] != 0):
        raise Violation('reference point is not at the origin: %r' % x2[best])
    if n > 1 and c['mtd']:
        E = np.array([np.linalg.norm(x2[i] - x2[j]) for i in range(n) for j in range(i)])
        got, want = (E.min() if c['mtd'] == 'set_vmin' else E.max()), (1.0 if c['dist'] is None else c['dist'])
        if abs(got - want) > (1e-9 + 40 * 1e-15 * xmag * J.max() / want) * want:
            raise Violation('%s distance between the scaled points is %.12g, requested %.12g' % ('smallest' if c['mtd'] == 'set_vmin' else 'largest', got, want))
    dd = 0.37 * xs
    same('distance scaled back', R.dist_scl_2_init(R.dist_init_2_scl(dd)), dd)
    if np.ptp(J) == 0:
        same('scaled distance', R.dist_init_2_scl(dd), dd * J[0])
    fn, gr, H = fq
    if S['obj']:
        a, b = S['os']
        if abs(R.obj_shift - a) > T * (abs(a) + 1e-300) or abs(R.obj_scale - b) > T * b:
            raise Violation('shift and scale of the objective %r, %r, expected %r, %r' % (R.obj_shift, R.obj_scale, a, b))
        fm = np.abs(obj[0]).max() + abs(a)
        conv(R.obj_init_2_scl, R.obj_scl_2_init, obj, H, fn, gr, xt, a, b, J, fm, 'objective', rng)
        every = [fn(xt), np.abs(fn(xt)), gr(xt), np.abs(gr(xt)), H, 0.5 * H]
        alone('scaled objective data', R.obj_init_2_scl, every)
        alone('objective data scaled back', R.obj_scl_2_init, every)
        o = R.get_scl_obj_data()
        want = [(obj[0] - a) * b, None if obj[1] is None else obj[1] * b, None if obj[2] is None else obj[2] * b / J, None if obj[3] is None else obj[3] * b / J]
        for nm, u, v in zip(('values', 'standard deviations', 'gradients', 'standard deviations of the gradients'), o, want):
            same('stored scaled ' + nm, u, v, b * fm if nm == 'values' else None)
        for u, v in zip(R.get_init_obj_data(), obj):
            if (u is None) != (v is None) or (u is not None and not np.array_equal(u, v)):
                raise Violation('original objective data were altered')
    if S['nlc']:
        a, b = S['ns']
        m = len(Q)
        fm = np.abs(nlc[0]).max() + np.abs(a).max()
        r = R.nlc_init_2_scl(*nlc)
        sc = [(nlc[0] - a) * b] + [None if nlc[1] is None else nlc[1] * b] + [None if v is None else v * b / J for v in nlc[2:]]
        for nm, u, v in zip(('values', 'standard deviations', 'gradients', 'standard deviations of the gradients'), r, sc):
            same('scaled constraint ' + nm, u, v, b * fm if nm == 'values' else None)
        for nm, u, v in zip(('values', 'standard deviations', 'gradients', 'standard deviations of the gradients'), R.get_scl_nlc_data(), sc):
            same('stored scaled constraint ' + nm, u, v, b * fm if nm == 'values' else None)
        bk = R.nlc_scl_2_init(*r[:4])
        for nm, u, v in zip(('values', 'standard deviations', 'gradients', 'standard deviations of the gradients'), bk, nlc):
            same('constraint %s scaled back' % nm, u, v, fm if nm == 'values' else None)
        Hn = np.stack([q[2] for q in Q])
        hs = R.nlc_init_2_scl(nlc[0], None, None, None, Hn, Hn * 0.5)
        same('scaled constraint Hessians', hs[4], Hn * b / np.outer(J, J))
        same('scaled constraint Hessians of the deviation', hs[5], Hn * 0.5 * b / np.outer(J, J))
        hb = R.nlc_scl_2_init(None, None, None, None, hs[4], hs[5])
        same('constraint Hessians scaled back', hb[4], Hn)
        same('constraint Hessians of the deviation scaled back', hb[5], Hn * 0.5)
        if any(v is not None for v in hb[:4]) or hs[1] is not None or hs[2] is not None or hs[3] is not None:
            raise Violation('missing constraint data were not kept missing')
        alone('constraint data scaled back', R.nlc_scl_2_init, list(r[:4]) + [hs[4], hs[5]])
        for u, v in zip(R.get_init_nlc_data(), nlc):
            if (u is None) != (v is None) or (u is not None and not np.array_equal(u, v)):
                raise Violation('original constraint data were altered')
    if S['box']:
        lb, ub = box
        l, u = R.get_scl_boxcon()
        same('scaled lower bounds', l, (lb - S['shift']) * J, J * (xmag + np.abs(S['shift']).max()))
        same('scaled upper bounds', u, (ub - S['shift']) * J, J * (xmag + np.abs(S['shift']).max()))
        for a, b in zip(R.get_init_boxcon(), box):
            if not np.array_equal(a, b):
                raise Violation('original bounds were altered')
    if S['lin']:
        A, la, ua = lin
        As, ls, us = R.get_scl_lincon()
        for x in xt:
            y = R.x_init_2_scl(x)
            s = np.abs(A) @ (np.abs(x) + xmag) * 4 + np.nan_to_num(np.abs(la), posinf=0) + np.nan_to_num(np.abs(ua), posinf=0)
            same('linear constraint (lower side)', As @ y - ls, A @ x - la, s)
            same('linear constraint (upper side)', As @ y - us, A @ x - ua, s)
        for a, b in zip(R.get_init_lincon(), lin):
            if not np.array_equal(a, b):
                raise Violation('original linear constraints were altered')


def conv(fwd, bwd, data, H, fn, gr, xt, a, b, J, fm, nm, rng):
    k = len(xt)
    v, g = fn(xt), gr(xt)
    Hs = np.repeat(H[None], k, 0)
    s, sg, sH = np.abs(v) + 1e-3 * fm, np.abs(g), np.abs(Hs)
    args = [v, s, g, sg, Hs, sH]
    want = [(v - a) * b, s * b, g * b / J, sg * b / J, Hs * b / np.outer(J, J), sH * b / np.outer(J, J)]
    r = fwd(*args)
    names = ('values', 'standard deviations', 'gradients', 'gradients of the deviation', 'Hessians', 'Hessians of the deviation')
    mags = [(fm + np.abs(v).max()) * b, None, None, None, None, None]
    for q, u, w, mg in zip(names, r, want, mags):
        same('scaled %s of the %s' % (q, nm), u, w, mg)
    for q, u, w, mg in zip(names, bwd(*r), args, [fm + np.abs(v).max()] + [None] * 5):
        same('%s of the %s scaled back' % (q, nm), u, w, mg)
    # any part missing
    for i in range(6):
        z = [None] * 6
        z[i] = args[i]
        u = fwd(*z)
        same('scaled %s of the %s alone' % (names[i], nm), u[i], want[i], mags[i])
        w = [None] * 6
        w[i] = r[i]
        y = bwd(*w)
        same('%s of the %s scaled back alone' % (names[i], nm), y[i], args[i], fm + np.abs(v).max() if i == 0 else None)
        if any(u[j] is not None or y[j] is not None for j in range(6) if j != i):
            raise Violation('missing data were not kept missing')


def o_gp(c):
    """The same maps through the surrogate, for every method."""
    gp = make_gp(c)
    sc = scaled(c)
    X, f, sf, g, sg, bv = arrays(c)
    kx, kf = sc['kx'], sc['kf']
    xmag = np.abs(X).max()
    n, d = X.shape
    if n > 1:
        D = min(np.linalg.norm(X[i] - X[j]) for i in range(n) for j in range(i))
        if xmag / D * 1e-15 * 40 > 1e-11:
            raise Skip()
    fm = np.abs(f).max() + abs(sc['sfv'])
    same('points of the surrogate', gp.get_scl_x_w_dist()[0], sc['X'], xmag * kx)
    R = gp.get_scl_x_w_dist()[1]
    Rw = sc['X'].T[:, :, None] - sc['X'].T[:, None, :]
    same('differences of the points', R, Rw, xmag * kx)
    same('point to scaled', gp.x_init_2_scl(X), sc['X'], xmag * kx)
    same('point from scaled', gp.x_scl_2_init(sc['X']), X, xmag)
    got = gp.get_scl_eval_data()
    for nm, u, v in zip(('values', 'standard deviations', 'gradients', 'standard deviations of the gradients'), got, (sc['f'], sc['sf'], sc['g'], sc['sg'])):
        same('%s of the surrogate' % nm, u, v, kf * fm if nm == 'values' else None)
    ini = gp.get_init_eval_data()
    for nm, u, v in zip(('values', 'standard deviations', 'gradients', 'standard deviations of the gradients'), ini, (f, sf, g, sg)):
        same('original %s of the surrogate' % nm, u, v)
    rng = np.random.default_rng(n + d)
    v, s, gg = f[0] + np.abs(f).max() * rng.normal(size=3), np.abs(f).max() * rng.uniform(0.1, 1, 3), rng.normal(size=(3, d))
    H = rng.normal(size=(3, d, d))
    a = gp.data_init_2_scl(v, s, gg, gg * 2, H, H * 3)
    w = [(v - sc['sfv']) * kf, s * kf, gg * kf / kx, gg * 2 * kf / kx, H * kf / kx ** 2, H * 3 * kf / kx ** 2]
    for i, (p, q) in enumerate(zip(a, w)):
        same('quantity %d to scaled' % i, p, q, kf * (fm + np.abs(v).max()) if i == 0 else None)
    for i, (p, q) in enumerate(zip(gp.data_scl_2_init(*a), (v, s, gg, gg * 2, H, H * 3))):
        same('quantity %d from scaled' % i, p, q, fm + np.abs(v).max() if i == 0 else None)
    return c['wc'] in RESCALE and n > 1, tags_of(c)


SUBS = [Sub('rescaling', cases, o_rescale, quick=800, thorough=12000, weight=2),
        Sub('surrogate', lambda: structure().map(expand).map(jl), o_gp, quick=150, thorough=3000)]
