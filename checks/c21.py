"""C21: figures of surrogates and acquisition functions show exactly the given values."""
import numpy as np
from hypothesis import strategies as st
from cases import jl, arr
from harness import Sub, Violation, Skip

PROP = 'C21'
RULE = ('(surr) 1-D models of 1-60 points with means, deviations, exact values and data of any sign and size, every combination of the parts to '
        'show. (acq) 1-5 acquisition functions, with and without scaling to [0, 1], constant ones and repeated minima included. Lines, filled '
        'bands and markers of the axes are compared with the values given. Non-trivial: at least three curves or markers drawn.')
ASSUMPTIONS = ['lines are recognised by their data and kind (line, marker), not by their order or colour']
LANE_KERNELS = ['SqExp']
JIT = False
PY_LANES = 6


@st.composite
def surr_cases(draw):
    n, m = draw(st.integers(1, 60)), draw(st.integers(1, 8))
    return dict(n=n, m=m, seed=draw(st.integers(0, 2 ** 32 - 1)), fs=10.0 ** draw(st.integers(-6, 6)), nsig=draw(st.sampled_from([1, 2, 3, 0.5, 1.96])),
                parts=[draw(st.booleans()) for _ in range(5)], loc=draw(st.sampled_from(['best', 'out', 'upper left'])),
                style=draw(st.sampled_from(['float', 'lattice', 'const'])))


@st.composite
def acq_cases(draw):
    k = draw(st.integers(1, 5))
    return dict(n=draw(st.integers(1, 50)), k=k, seed=draw(st.integers(0, 2 ** 32 - 1)), fs=10.0 ** draw(st.integers(-6, 6)),
                scl=draw(st.booleans()), minima=draw(st.booleans()), loc=draw(st.sampled_from(['upper right', 'out'])),
                style=draw(st.sampled_from(['float', 'lattice', 'const'])), default=draw(st.booleans()))


def values(rng, shape, style, fs):
    v = rng.normal(size=shape) * fs
    if style == 'lattice':
        v = np.round(v / fs * 2) / 2 * fs
    elif style == 'const':
        v = np.full(shape, fs * rng.normal())
    return v


def curves(ax):
    """Drawn lines and markers: list of (kind, x, y)."""
    out = []
    for l in ax.get_lines():
        x, y = np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()
        ls, mk = l.get_linestyle(), l.get_marker()
        line = ls not in ('None', 'none', '', ' ', None)
        mark = mk not in ('None', 'none', '', ' ', None)
        out.append(('line' if line else 'mark' if mark else 'hidden', x, y, str(l.get_label())))
    return out


def match(what, got, kind, x, y, label=None, tol=0.0, used=None):
    for i, (k, a, b, lb) in enumerate(got):
        if used is not None and i in used:
            continue
        if k == kind and a.shape == x.shape and np.array_equal(a, x) and b.shape == y.shape and np.all(np.abs(b - y) <= tol) and (
                label is None or label in lb):
            if used is not None:
                used.add(i)
            return
    raise Violation('%s is not shown with its values' % what)


def band(ax):
    """Vertices of the filled bands."""
    return [np.concatenate([p.vertices for p in c.get_paths()]) if c.get_paths() else np.zeros((0, 2)) for c in ax.collections]


def o_surr(c):
    import matplotlib.pyplot as plt
    from gpgradpy.plt.SurrPlt import SurrPlt
    rng = np.random.default_rng(c['seed'])
    n, m = c['n'], c['m']
    x = np.sort(rng.uniform(-3, 3, n))[:, None]
    mu, f = values(rng, n, c['style'], c['fs']), values(rng, n, c['style'], c['fs'])
    sig = np.abs(values(rng, n, c['style'], c['fs']))
    xe, fe = rng.uniform(-3, 3, (m, 1)), values(rng, m, 'float', c['fs'])
    fmin, exact, ev, smu, ssig = c['parts']
    args = [x, f, xe, fe, mu, sig]
    keep = [v.copy() for v in args]
    fig, ax = plt.subplots()
    try:
        SurrPlt().plot_surr(ax, x, f, xe, fe, mu, sig, c['nsig'], b_plt_fmin=fmin, b_plt_exact=exact, b_plt_eval=ev, b_plt_surr_mu=smu,
                            b_plt_surr_sig=ssig, legend_loc=c['loc'])
        for a, b in zip(keep, args):
            if not np.array_equal(a, b):
                raise Violation('values given were modified by plotting them')
        got = curves(ax)
        xx = x[:, 0]
        tol = 1e-12 * c['fs'] * 20
        used = set()
        cnt = 0
        if ssig:
            match('lower bound of the surrogate', got, 'line', xx, mu - c['nsig'] * sig, tol=tol, used=used)
            match('upper bound of the surrogate', got, 'line', xx, mu + c['nsig'] * sig, tol=tol, used=used)
            cnt += 2
            b = band(ax)
            lo, up = mu - c['nsig'] * sig, mu + c['nsig'] * sig
            if len(b) != 1:
                raise Violation('%d filled bands for the uncertainty' % len(b))
            if n > 1:
                V = b[0]
                for i in range(n):
                    at = V[V[:, 0] == xx[i]]
                    for w, nm in ((lo[i], 'lower'), (up[i], 'upper')):
                        if not np.any(np.abs(at[:, 1] - w) <= tol):
                            raise Violation('filled band does not reach the %s bound at point %d' % (nm, i))
                if V[:, 1].min() < lo.min() - tol or V[:, 1].max() > up.max() + tol:
                    raise Violation('filled band exceeds the bounds')
        elif ax.collections:
            raise Violation('uncertainty shown although not requested')
        if exact:
            match('exact function', got, 'line', xx, f, used=used)
        if smu:
            match('mean of the surrogate', got, 'line', xx, mu, used=used)
        if ev:
            match('evaluated data', got, 'mark', xe[:, 0], fe, used=used)
        if fmin:
            marks = [g for g in got if g[0] == 'mark' and g[1].size == 1 and g[2].size == 1 and (not ev or m > 1 or g[2][0] != fe[0] or g[1][0] != xe[0, 0])]
            if not marks:
                raise Violation('minimum is not shown')
            for k, a, b, lb in marks:
                i = np.nonzero(xx == a[0])[0]
                if not (len(i) and any(f[j] == b[0] == f.min() for j in i)):
                    raise Violation('marked minimum (%g, %g) is not a minimum of the function' % (a[0], b[0]))
        want = 2 * ssig + exact + smu
        if sum(g[0] == 'line' for g in got) != want:
            raise Violation('%d curves drawn, expected %d' % (sum(g[0] == 'line' for g in got), want))
        if sum(g[0] == 'mark' and g[1].size != 1 for g in got) != (1 if ev and m > 1 else 0):
            raise Violation('unexpected markers')
        if (exact or smu or ev or ssig) and ax.get_legend() is None:
            raise Violation('no legend')
        texts = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
        for on, s in ((exact, 'f(x)'), (smu, '\\mu_f'), (ssig, '\\sigma_f'), (ev, 'x_{')):
            if bool(on) != any(s in t and not t.startswith('min') for t in texts):
                raise Violation('legend %r does not match what is shown' % (texts,))
        if ssig:
            t = [t for t in texts if '\\sigma_f' in t][0]
            if str(c['nsig']) not in t:
                raise Violation('legend %r does not state the number of deviations %s' % (t, c['nsig']))
        return bool(want + ev + fmin >= 3), ['parts=%d' % (want + ev + fmin), 'loc=' + c['loc']]
    finally:
        plt.close(fig)


def o_acq(c):
    import matplotlib.pyplot as plt
    from gpgradpy.plt.SurrPlt import SurrPlt
    rng = np.random.default_rng(c['seed'])
    n, k = c['n'], c['k']
    x = np.sort(rng.uniform(-3, 3, n))[:, None]
    V = values(rng, (n, k), c['style'], c['fs'])
    if c['style'] == 'const':
        V = V + 0 * V
    names = ['acq%d_' % i for i in range(k)]
    keep = V.copy()
    cols = ['r', 'g', 'b', 'c', 'm'][:k]
    fig, ax = plt.subplots()
    try:
        kw = {} if (c['default'] and k <= 3) else dict(color_vec=cols)
        SurrPlt().plot_acq(ax, x, V, names, b_scl_data=c['scl'], b_plt_min_acq=c['minima'], legend_loc=c['loc'], **kw)
        if not np.array_equal(V, keep):
            raise Violation('values given were modified by plotting them')
        W = V.copy()
        if c['scl']:
            for i in range(k):
                r = V[:, i].max() - V[:, i].min()
                W[:, i] = (V[:, i] - V[:, i].min()) / max(r, 1e-8)
        got = curves(ax)
        tol = 1e-12 * (1.0 if c['scl'] else c['fs'])
        for i in range(k):
            match('acquisition function %d' % i, got, 'line', x[:, 0], W[:, i], label=names[i], tol=tol)
            mk = [g for g in got if g[0] == 'mark' and names[i] in g[3]]
            if c['minima']:
                if len(mk) != 1 or mk[0][1].size != 1:
                    raise Violation('minimum of acquisition function %d is not shown once' % i)
                j = np.nonzero(x[:, 0] == mk[0][1][0])[0]
                if not any(abs(W[q, i] - mk[0][2][0]) <= tol and V[q, i] <= V[:, i].min() + 1e-12 * c['fs'] for q in j):
                    raise Violation('marked minimum of acquisition function %d is not its minimum' % i)
            elif mk:
                raise Violation('minimum shown although not requested')
        if sum(g[0] == 'line' for g in got) != k:
            raise Violation('%d curves drawn for %d acquisition functions' % (sum(g[0] == 'line' for g in got), k))
        return bool(k * (1 + c['minima']) >= 3), ['k=%d' % k, 'scaled=%s' % c['scl']]
    finally:
        plt.close(fig)


SUBS = [Sub('surr', surr_cases, o_surr, quick=400, thorough=6000), Sub('acq', acq_cases, o_acq, quick=250, thorough=4000)]
