"""C23: the shared helpers (distances, differences, data vector, finite differences) compute what they document."""
import contextlib
import io
import numpy as np
from hypothesis import strategies as st
from cases import jl
from harness import Sub, Violation

PROP = 'C23'
RULE = ('(distances) 1-20 points in 1-8 dimensions with magnitudes 1e-8..1e8, coincident and nearly coincident points and offsets: smallest and '
        'largest distance against the definition over all pairs, invariance to the order, NaN for one point; coordinate differences of two point '
        'sets; data vector against the documented order, with its own memory. (differences) polynomials of several variables with one or several '
        'outputs: central and one-sided differences against the exact difference quotient (closed form of the cubic) and the exact gradient returned '
        'unchanged, steps 1e-8..1e-2, the point given not modified, functions asked only at the documented points. '
        'Non-trivial: at least three points in two dimensions (distances), at least two variables (differences).')
ASSUMPTIONS = ['relative round-off 1e-12 for distances; for finite differences first-order round-off bounds of the function values']
LANE_KERNELS = ['SqExp']


def helpers(how):
    from gpgradpy.src.base import CommonFun
    C = CommonFun if isinstance(CommonFun, type) else CommonFun.CommonFun
    if how == 'class':
        return C
    from gpgradpy.src.GaussianProcess import GaussianProcess
    return GaussianProcess(2, True, 'SqExp', 'precon')


@st.composite
def dist_cases(draw):
    return dict(n=draw(st.integers(1, 20) if draw(st.booleans()) else st.integers(1, 5)), m=draw(st.integers(1, 8)), d=draw(st.integers(1, 8)), seed=draw(st.integers(0, 2 ** 32 - 1)),
                mag=10.0 ** draw(st.integers(-8, 8)), aniso=draw(st.booleans()), off=draw(st.sampled_from([0.0, 0.0, 1.0, 1e3])),
                close=draw(st.sampled_from([None, None, 0.0, 1e-3, 1e-6])), how=draw(st.sampled_from(['class', 'instance'])),
                grid=draw(st.booleans()), order=draw(st.sampled_from(['C', 'F', 'view'])))


def layout(A, order):
    if order == 'view':
        B = np.zeros((2 * A.shape[0], 2 * A.shape[1]))
        B[::2, ::2] = A
        return B[::2, ::2]
    return np.array(A, order=order)


def o_dist(c):
    H = helpers(c['how'])
    rng = np.random.default_rng(c['seed'])
    n, m, d = c['n'], c['m'], c['d']
    s = c['mag'] * (10.0 ** rng.uniform(-2, 2, d) if c['aniso'] else np.ones(d))
    gen = (lambda k: rng.integers(-4, 5, (k, d)).astype(float)) if c['grid'] else (lambda k: rng.uniform(-1, 1, (k, d)))
    X = (gen(n) + c['off']) * s
    if c['close'] is not None and n > 1:
        i, j = rng.choice(n, 2, replace=False)
        X[i] = X[j] + c['close'] * s * rng.normal(size=d)
    Y = (gen(m) + c['off']) * s
    P = layout(X, c['order'])
    keep = P.copy()
    lo, hi = H.calc_dist_min(P), H.calc_dist_max(P)
    if n == 1:
        if not (np.isnan(lo) and np.isnan(hi)):
            raise Violation('distances between the points of a single point are %r, %r' % (lo, hi))
    else:
        E = np.array([np.sqrt(np.sum(((X[i] - X[j]) / c['mag']) ** 2)) for i in range(n) for j in range(i)]) * c['mag']
        for nm, got, want in (('smallest', lo, E.min()), ('largest', hi, E.max())):
            if np.ndim(got) or not abs(got - want) <= 1e-12 * want:
                raise Violation('%s distance between the points %s is %r, expected %.17g' % (nm, X.tolist(), got, want))
        p = rng.permutation(n)
        for nm, got, f in (('smallest', lo, H.calc_dist_min), ('largest', hi, H.calc_dist_max)):
            if not abs(f(X[p]) - got) <= 1e-13 * got:
                raise Violation('%s distance depends on the order of the points' % nm)
    Q = layout(Y, c['order'])
    for A, B, a, b in ((P, P, X, X), (P, Q, X, Y), (Q, P, Y, X)):
        R = H.calc_Rtensor(A, B, 1)
        if R.shape != (d, len(a), len(b)):
            raise Violation('differences of %d and %d points in %d dimensions have shape %s' % (len(a), len(b), d, R.shape))
        for k in range(d):
            for i in range(len(a)):
                for j in range(len(b)):
                    if R[k, i, j] != a[i, k] - b[j, k]:
                        raise Violation('difference of coordinate %d of points %d and %d is %r, expected %r' % (k, i, j, R[k, i, j], a[i, k] - b[j, k]))
    # data vector: values, then every direction of the gradients
    ng = int(rng.integers(0, n + 1))
    f, g = rng.normal(size=n) * c['mag'], layout(rng.normal(size=(ng, d)) * c['mag'], c['order'])
    v0, v1 = H.make_data_vec(f), H.make_data_vec(f, g)
    want = list(f) + [g[i, k] for k in range(d) for i in range(ng)]
    if v0.shape != (n,) or not np.array_equal(v0, f):
        raise Violation('data vector of values only is %r, expected %r' % (v0.tolist(), f.tolist()))
    if v1.shape != (n + ng * d,) or not np.array_equal(v1, np.array(want)):
        raise Violation('data vector is %r, expected values and then every direction of the gradients %r' % (np.asarray(v1).tolist(), want))
    if np.shares_memory(v0, f) or np.shares_memory(v1, f) or np.shares_memory(v1, g):
        raise Violation('data vector shares memory with the data')
    if not np.array_equal(P, keep):
        raise Violation('points were modified')
    return bool(n > 2 and d > 1), ['n=%d' % n, 'd=%d' % d, 'close=%s' % c['close'], 'order=%s' % c['order']]


@st.composite
def fd_cases(draw):
    return dict(d=draw(st.integers(1, 6)), q=draw(st.integers(1, 4)), seed=draw(st.integers(0, 2 ** 32 - 1)), eps=draw(st.sampled_from([None, 1e-2, 1e-3, 1e-4, 1e-6])),
                cent=draw(st.sampled_from([None, True, False])), pr=draw(st.sampled_from([None, True, False])), mag=10.0 ** draw(st.integers(-2, 2)),
                fmag=10.0 ** draw(st.integers(-4, 4)), form=draw(st.sampled_from(['array', 'list', 'int', 'scalar'])), flat=draw(st.booleans()))


def o_fd(c):
    H = helpers('class')
    rng = np.random.default_rng(c['seed'])
    d, q = (1 if c['form'] == 'scalar' else c['d']), c['q']
    one = q == 1 and c['flat']                    # gradient of a single output as a vector
    x = rng.uniform(-1, 1, d) * c['mag']
    if c['form'] == 'int':
        x = rng.integers(-3, 4, d).astype(float)
    a, B = rng.normal(size=(q, d)), rng.normal(size=(q, d, d))
    C3 = rng.normal(size=(q, d))

    def F(z):
        z = np.asarray(z, float)
        return c['fmag'] * (1.0 + a @ z + np.einsum('i,qij,j->q', z, B, z) + C3 @ z ** 3)

    def G(z):
        z = np.asarray(z, float)
        r = c['fmag'] * (a + np.einsum('qij,j->qi', B + B.transpose(0, 2, 1), z) + 3 * C3 * z ** 2)
        return r[0] if one else r
    asked = []

    def fun(z):
        asked.append(np.array(z, float, copy=True))
        r = F(z)
        return r[0] if one and q == 1 and c['form'] != 'list' else r
    x_in = dict(array=x.copy(), list=x.tolist(), int=x.astype(int), scalar=float(x[0]))[c['form']]
    kw = {}
    if c['eps'] is not None:
        kw['eps'] = c['eps']
    if c['cent'] is not None:
        kw['calc_cent_diff'] = c['cent']
    if c['pr'] is not None:
        kw['print_calc'] = c['pr']
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fd, gr = H.test_grad_calc(x_in, fun, G, **kw)
    eps, cent, pr = (1e-8 if c['eps'] is None else c['eps']), c['cent'] is not False, c['pr'] is not False
    if bool(buf.getvalue()) != pr:
        raise Violation('print_calc=%s, printed %r' % (c['pr'], buf.getvalue()[:80]))
    if isinstance(x_in, np.ndarray) and not np.array_equal(x_in, x):
        raise Violation('the point was modified: %r, %r' % (x_in.tolist(), x.tolist()))
    want = G(x)
    if gr.shape != want.shape or not np.array_equal(gr, want):
        raise Violation('gradient returned is %r, the function gave %r' % (gr.tolist(), want.tolist()))
    if fd.shape != want.shape:
        raise Violation('finite difference gradient has shape %s, gradient %s' % (fd.shape, want.shape))
    # every point asked differs from x by at most one step in one coordinate
    for z in asked:
        dz = np.abs(z - x)
        if np.count_nonzero(dz) > 1 or np.any(dz > eps * (1 + 1e-6) + 4e-16 * np.abs(x)):
            raise Violation('function evaluated at %r, the point is %r and the step %g' % (z.tolist(), x.tolist(), eps))
    # exact difference quotient of the cubic, direction by direction
    fd2, w2 = np.atleast_2d(fd), np.atleast_2d(want)
    m = np.abs(x).max() + eps
    size = c['fmag'] * (1 + np.abs(a).sum(1) * m + np.abs(B).sum((1, 2)) * m ** 2 + np.abs(C3).sum(1) * m ** 3)
    slope = c['fmag'] * (np.abs(a).sum(1) + 2 * np.abs(B).sum((1, 2)) * m + 3 * np.abs(C3).sum(1) * m ** 2)
    tol = (2e-15 * (d + 3) * size + 4e-16 * m * slope * 2) / eps
    for i in range(d):
        bii = B[:, i, i]
        ex = c['fmag'] * C3[:, i] * eps ** 2 if cent else c['fmag'] * (eps * (bii + 3 * C3[:, i] * x[i]) + C3[:, i] * eps ** 2)
        if not np.all(np.abs(fd2[:, i] - (w2[:, i] + ex)) <= tol):
            raise Violation('finite difference in direction %d is %r, exact quotient %r (step %g, central=%s)' % (i, fd2[:, i].tolist(), (w2[:, i] + ex).tolist(), eps, cent))
    sharp = bool(np.all(tol <= 1e-2 * np.abs(w2).max()))
    return bool(d > 1 and sharp), ['d=%d' % d, 'outputs=%d' % q, 'central=%s' % cent, 'eps=%g' % eps]


SUBS = [Sub('distances', dist_cases, o_dist, quick=600, thorough=12000),
        Sub('differences', fd_cases, o_fd, quick=600, thorough=12000)]
