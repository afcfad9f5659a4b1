"""C16: post-processing of optimisation results returns the stored runs and the true best-so-far."""
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from harness import Sub, Violation, Skip

PROP = 'C16'
JIT = False
PY_LANES = 8
RULE = ('(load) 1-4 result files with different numbers of runs (1-20) and iterations (1-60, some 900-1000), interior and trailing missing values, '
        'noisy and noise-free sets, iteration limits none / smaller / larger; (best) value sequences with missing, infinite, repeated and '
        'negative values, minimum and maximum; (plot) the curves of 1-5 cases read back from the figure. Oracle: direct computation. '
        'Non-trivial: files of different size or a limit that truncates; sequences with at least one missing value and one improvement.')
ASSUMPTIONS = ['at most 20 runs per file and 1000 iterations (limits of the reader)']

VAL = st.one_of(st.none(), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.0, 1.0, 1e-28, 5.0, -3.0, float(1e300)]))


@st.composite
def load_cases(draw):
    files = []
    nf = draw(st.integers(1, 4))
    x0init = draw(st.sampled_from([20, 20, 7]))
    for i in range(nf):
        ni = draw(st.integers(1, 60)) if draw(st.integers(0, 19)) else draw(st.integers(900, 1000))
        files.append(dict(nx=draw(st.integers(1, x0init)), ni=ni, seed=draw(st.integers(0, 2 ** 31)), nanp=draw(st.sampled_from([0.0, 0.1, 0.6])),
                          tail=draw(st.booleans()), name=draw(st.sampled_from(['a', 'run_all', 'x y', 'b.c'])) + str(i) + '.npz'))
    return dict(files=files, lim=draw(st.one_of(st.none(), st.integers(1, 80), st.just(1000))), free=draw(st.booleans()), x0init=x0init,
                bad=draw(st.integers(0, 30)) == 0)


KEYS = ('merit', 'opt', 'fsb')


def make_file(f, folder):
    rng = np.random.default_rng(f['seed'])
    D = {}
    for k in KEYS:
        for suf in ('_all', '_wo_noise_all'):
            a = 10 ** rng.uniform(-12, 6, (f['nx'], f['ni'])) * rng.choice([-1, 1, 1, 0], (f['nx'], f['ni']))
            if f['tail']:
                for r in range(f['nx']):
                    a[r, rng.integers(1, f['ni'] + 1):] = np.nan
            a[rng.uniform(size=a.shape) < f['nanp']] = np.nan
            D[k + suf] = a
    np.savez(os.path.join(folder, f['name']), **D)
    return D


def o_load(c):
    from gpgradpy.results.PltOptzResults import PltOptzResults as P
    lim, nf = c['lim'], len(c['files'])
    with tempfile.TemporaryDirectory(prefix='vgp_c16_') as folder:
        D = [make_file(f, folder) for f in c['files']]
        names = [f['name'] for f in c['files']]
        if c['bad']:
            try:
                P.load_npz_data(folder, names + ['x.txt'], lim)
            except Exception:
                return False, ['bad-format']
            raise Violation('a file of an unknown format was accepted')
        kw = dict(n_iter_max=lim, load_noise_free_data=c['free'])
        if c['x0init'] != 20:
            kw['n_x0_init'] = c['x0init']
        out = P.load_npz_data(folder, names, **kw)
        again = P.load_npz_data(folder, names, **kw)
    if len(out) != 3:
        raise Violation('load_npz_data returned %d arrays' % len(out))
    nx = max(f['nx'] for f in c['files'])
    ni = max(f['ni'] for f in c['files']) if lim is None else lim
    for k, a, b in zip(KEYS, out, again):
        if a.shape != (nf, nx, ni):
            raise Violation('%s has shape %s, expected %s' % (k, a.shape, (nf, nx, ni)))
        want = np.full((nf, nx, ni), np.nan)
        for i, f in enumerate(c['files']):
            v = D[i][k + ('_wo_noise_all' if c['free'] else '_all')]
            m = min(ni, f['ni'])
            want[i, :f['nx'], :m] = v[:, :m]
        if not np.array_equal(a, want, equal_nan=True):
            i = np.argwhere(~((a == want) | (np.isnan(a) & np.isnan(want))))[0]
            raise Violation('%s[file %d, run %d, iteration %d] = %r, the file has %r' % (k, *i, a[tuple(i)], want[tuple(i)]))
        if not np.array_equal(a, b, equal_nan=True):
            raise Violation('%s differs when read again' % k)
    sizes = len(set((f['nx'], f['ni']) for f in c['files'])) > 1
    trunc = lim is not None and any(f['ni'] > lim for f in c['files'])
    return sizes or trunc, ['files=%d' % nf, 'limit=%s' % ('none' if lim is None else 'truncates' if trunc else 'pads'), 'noise-free=%s' % c['free']]


@st.composite
def best_cases(draw):
    v = draw(st.lists(VAL, min_size=1, max_size=50))
    for k in range(draw(st.integers(0, 2))):
        v = ([None] * draw(st.integers(0, 4)) + v) if draw(st.booleans()) else (v + [None] * draw(st.integers(0, 6)))
    if draw(st.integers(0, 15)) == 0:
        v = [None] * len(v)
    if draw(st.integers(0, 9)) == 0:
        v[draw(st.integers(0, len(v) - 1))] = 'inf'
    return dict(v=v, m=draw(st.sampled_from(['min', 'max', None])))


def vec(v):
    return np.array([np.nan if x is None else np.inf if x == 'inf' else x for x in v], float)


def best_ref(v, m):
    out = np.full(len(v), np.nan)
    known = [i for i in range(len(v)) if not np.isnan(v[i])]
    if not known:
        return out
    for i in range(known[0], known[-1] + 1):
        seen = [v[j] for j in known if j <= i]
        out[i] = min(seen) if m == 'min' else max(seen)
    return out


def o_best(c):
    from gpgradpy.results.PltOptzResults import PltOptzResults as P
    v = vec(c['v'])
    v0 = v.copy()
    m = c['m'] or 'min'
    got = P.best_at_all_iter(v) if c['m'] is None else P.best_at_all_iter(v, method=m)
    want = best_ref(v0, m)
    if not np.array_equal(v, v0, equal_nan=True):
        raise Violation('best_at_all_iter modified its input')
    if np.shape(got) != want.shape or not np.array_equal(got, want, equal_nan=True):
        raise Violation('best (%s) of %r = %r, expected %r' % (m, c['v'], np.asarray(got).tolist(), want.tolist()))
    for bad in (v0[None, :], v0):
        try:
            P.best_at_all_iter(bad, *(() if bad.ndim > 1 else ('best',)))
        except Exception:
            continue
        if bad.ndim > 1 or (bad.size > 1 and not np.all(np.isnan(bad))):
            raise Violation('best_at_all_iter accepted %s' % ('2D data' if bad.ndim > 1 else 'an unknown method'))
    k = want[~np.isnan(want)]
    nt = np.any(np.isnan(v0)) and len(set(k.tolist())) > 1
    return bool(nt), ['method=' + m, 'missing=%s' % bool(np.any(np.isnan(v0)))]


@st.composite
def plot_cases(draw):
    nc, nx, ni = draw(st.integers(1, 5)), draw(st.integers(1, 4)), draw(st.integers(1, 12))
    return dict(nc=nc, nx=nx, ni=ni, seed=draw(st.integers(0, 2 ** 31)), log=draw(st.booleans()), m=draw(st.sampled_from(['min', 'max'])),
                area=draw(st.booleans()), two=draw(st.booleans()), labels=draw(st.booleans()), nanp=draw(st.sampled_from([0.0, 0.2])),
                xlim=draw(st.booleans()), ylim=draw(st.booleans()), save=draw(st.integers(0, 4)) == 0)


def o_plot(c):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from gpgradpy.results.PltOptzResults import PltOptzResults as P
    rng = np.random.default_rng(c['seed'])
    nc = 1 if c['two'] else c['nc']
    D = 10 ** rng.uniform(-6, 3, (nc, c['nx'], c['ni']))
    D[rng.uniform(size=D.shape) < c['nanp']] = np.nan
    D0 = D.copy()
    lab = ['case %d' % i for i in range(nc)] if c['labels'] else None
    plt.close('all')
    tmp = tempfile.mkdtemp(prefix='vgp_c16_') if c.get('save') else None
    try:
        kw = {}
        if tmp:
            kw['fig_name2save'] = os.path.join(tmp, 'fig a.png')
        P.plt_conv_nx0(c['log'], 'objective', D[0] if c['two'] else D, lab, b_plt_area=c['area'], str_data_minmax=c['m'],
                       xlim=[0, 5] if c['xlim'] else None, ylim=[1e-3, 10.0] if c['ylim'] else None, **kw)
        if tmp:
            if os.listdir(tmp) != ['fig a.png']:
                raise Violation('files written: %r' % os.listdir(tmp))
            img = plt.imread(kw['fig_name2save'])
            if img.ndim != 3 or min(img.shape[:2]) < 100 or np.ptp(img) == 0:
                raise Violation('the saved figure is an empty image')
        if not np.array_equal(D, D0, equal_nan=True):
            raise Violation('plt_conv_nx0 modified its data')
        figs = plt.get_fignums()
        if len(figs) != 1:
            raise Violation('plt_conv_nx0 left %d figures' % len(figs))
        ax = plt.figure(figs[0]).axes[0]
        lines = ax.get_lines()
        if len(lines) != nc * c['nx']:
            raise Violation('%d curves for %d runs' % (len(lines), nc * c['nx']))
        cols = []
        for i in range(nc):
            for j in range(c['nx']):
                ln = lines[i * c['nx'] + j]
                want = best_ref(D0[i, j], c['m'])
                y = np.asarray(ln.get_ydata(), float)
                if y.shape != want.shape or not np.array_equal(y, want, equal_nan=True):
                    raise Violation('curve of case %d run %d = %r, expected %r' % (i, j, y.tolist(), want.tolist()))
                if not np.array_equal(np.asarray(ln.get_xdata(), float), np.arange(c['ni'])):
                    raise Violation('iterations of the curve: %r' % (ln.get_xdata(),))
                cols.append((i, ln.get_color()))
        if len(set(cols)) != nc or len(set(k for _, k in cols)) != nc:
            raise Violation('colours of the cases: %r' % (cols,))
        if lab is not None:
            txt = [t.get_text() for t in ax.get_legend().get_texts()]
            if sorted(set(txt)) != sorted(lab):
                raise Violation('legend %r for labels %r' % (txt, lab))
        if ax.get_yscale() != ('log' if c['log'] else 'linear'):
            raise Violation('scale of the axis is %s' % ax.get_yscale())
        if ax.get_xlabel() != 'Iteration':
            raise Violation('label of the axis is %r' % ax.get_xlabel())
        if ax.get_ylabel() != 'objective':
            raise Violation('label of the axis is %r' % ax.get_ylabel())
        if c['xlim'] and not np.allclose(ax.get_xlim(), [0, 5]) or c['ylim'] and not np.allclose(ax.get_ylim(), [1e-3, 10.0]):
            raise Violation('limits of the axes are %r %r' % (ax.get_xlim(), ax.get_ylim()))
        if c['area']:
            ok = [a for a in ax.collections]
            if len(ok) != nc:
                raise Violation('%d shaded areas for %d cases' % (len(ok), nc))
            if not c['nanp'] and c['ni'] > 1:
                for i in range(nc):
                    B = np.array([best_ref(D0[i, j], c['m']) for j in range(c['nx'])])
                    V = np.vstack([p.vertices for p in ok[i].get_paths()])
                    for k in range(c['ni']):
                        yk = V[V[:, 0] == k][:, 1]
                        if yk.size == 0 or abs(yk.min() - B[:, k].min()) > 1e-12 * B[:, k].min() or abs(yk.max() - B[:, k].max()) > 1e-12 * B[:, k].max():
                            raise Violation('shaded area of case %d at iteration %d spans %r, runs span [%g, %g]' % (i, k, yk.tolist(), B[:, k].min(), B[:, k].max()))
    finally:
        plt.close('all')
        if tmp:
            shutil.rmtree(tmp)
    return nc > 1 and c['nx'] > 1 and c['ni'] > 2, ['cases=%d' % nc, 'area=%s' % c['area']]


SUBS = [Sub('load', load_cases, o_load, quick=250, thorough=4000),
        Sub('best', best_cases, o_best, quick=1500, thorough=30000),
        Sub('plot', plot_cases, o_plot, quick=40, thorough=600, weight=2)]
