"""Generators (Hypothesis strategies) and builders shared by the checks.

Hypothesis draws the structure of a case (kernel, sizes, flags, scales, seed);
expand_* turns it into explicit numbers, so that a failing case is self-contained
and can be replayed and minimised without the generator.
"""
import os
import numpy as np
from hypothesis import strategies as st

import ref
from harness import Violation, Skip

ALL_KERN = ('SqExp', 'Ma5f2', 'RatQu')
ALL_WC = ('base', 'precon', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax')
RESCALE = ('rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax')


def kernels():
    k = os.environ.get('VERIF_LANE_KERNEL')
    return st.sampled_from((k,) if k else ALL_KERN)


def rnd(rng, shape, lo, hi, style):
    """Coordinates: generic floats, short decimals, or an integer lattice."""
    x = rng.uniform(lo, hi, shape)
    if style == 'decimal':
        w = max(hi - lo, 1e-300)
        q = 10.0 ** np.floor(np.log10(w) - 1)
        x = np.round(x / q) * q
    elif style == 'lattice':
        x = np.round((x - lo) / (hi - lo) * 3) / 3 * (hi - lo) + lo
    return x


@st.composite
def structure(draw, dmax=4, nmax=7, wcs=ALL_WC, use_grads=(True, True, False), noises=('none', 'known', 'unknown', 'mixed'),
              partial=True, dmin=1, nmin=1, cond_targets=(1e10, 1e10, 1e6, 1e3, 50.0), eta_mtds=('Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta'),
              eta_const=(True, True, True, False), scales=(-2, 2), lls=(0.15, 0.3, 0.5, 0.8, 1.2), big=None):
    s = dict(kernel=draw(kernels()), d=draw(st.integers(dmin, dmax)), n=draw(st.integers(nmin, nmax)),
             use_grad=draw(st.sampled_from(use_grads)), wc=draw(st.sampled_from(wcs)),
             noise=draw(st.sampled_from(noises)), seed=draw(st.integers(0, 2 ** 32 - 1)),
             style=draw(st.sampled_from(['float', 'float', 'decimal', 'lattice'])),
             cmax=draw(st.sampled_from(cond_targets)), eta_mtd=draw(st.sampled_from(eta_mtds)),
             eta_const=draw(st.sampled_from(eta_const)))
    # now and then many points or many dimensions
    if (dmax >= 4 and nmax >= 5) if big is None else big:
        size = draw(st.sampled_from([None] * 8 + ['n', 'd']))
        if size == 'n':
            s['n'] = draw(st.integers(nmax + 1, 24))
        elif size == 'd':
            s['d'] = draw(st.integers(dmax + 1, 10))
    s['xs'] = 10.0 ** draw(st.integers(*scales))
    s['fs'] = 10.0 ** draw(st.sampled_from([-3, -2, -1, 0, 0, 1, 2, 3, -6, 6]))
    s['ll'] = draw(st.sampled_from(lls))
    s['offset'] = draw(st.sampled_from([0.0, 0.0, 1.0, -30.0]))
    s['bstyle'] = draw(st.sampled_from(['none', 'random', 'random', 'all', 'zero'])) if (partial and s['use_grad']) else 'none'
    return s


def expand(s):
    """Structure -> explicit case (JSON-able)."""
    rng = np.random.default_rng(s['seed'])
    d, n = s['d'], s['n']
    c = dict(kernel=s['kernel'], d=d, n=n, use_grad=s['use_grad'], wc=s['wc'] if s['use_grad'] else 'base',
             cmax=s['cmax'], eta_mtd=s['eta_mtd'], eta_const=s['eta_const'])
    if not s['use_grad']:
        # the method asked for: without gradients every method is the base method
        c['wcname'] = s['wc']
        c['eta_const'] = s['eta_const'] and s['wc'] != 'rescale_eta_vary'
    xs, fs = s['xs'], s['fs']
    ext = 1.0 + 0.5 * rng.uniform(size=d)
    X = rnd(rng, (n, d), -1, 1, s['style']) * xs * ext + s['offset'] * xs
    # distinct points unless asked otherwise
    for _ in range(20):
        if n > 1 and min(np.linalg.norm(X[i] - X[j]) for i in range(n) for j in range(i)) < 1e-3 * xs:
            X = X + rng.uniform(-0.3, 0.3, X.shape) * xs
        else:
            break
    c['X'] = X
    c['f'] = fs * (rng.normal(size=n) + rng.choice([0.0, 3.0]))
    bvec = None
    if s['bstyle'] != 'none' and s['use_grad']:
        if s['bstyle'] == 'all':
            bvec = np.ones(n, bool)
        elif s['bstyle'] == 'zero':
            bvec = np.zeros(n, bool)
        else:
            bvec = rng.uniform(size=n) < 0.5
    c['bvec'] = None if bvec is None else [bool(b) for b in bvec]
    ng = 0 if not s['use_grad'] else (n if bvec is None else int(bvec.sum()))
    c['g'] = fs / xs * rng.normal(size=(ng, d)) if s['use_grad'] else None
    nz = s['noise']
    kf = nz in ('none', 'known') or (nz == 'mixed' and rng.uniform() < 0.5)
    kg = nz in ('none', 'known') or (nz == 'mixed' and not kf)
    if nz == 'mixed' and not s['use_grad']:
        kf = True
    pk = 0.85 if rng.uniform() < 0.7 else 0.25      # share of observations with noise
    c['sf'] = None if not kf else (np.zeros(n) if nz == 'none' else fs * rng.uniform(0.02, 0.4, n) * (rng.uniform(size=n) < pk))
    if not s['use_grad']:
        c['sg'] = None
    elif not kg:
        c['sg'] = None
    else:
        c['sg'] = np.zeros((ng, d)) if nz == 'none' else fs / xs * rng.uniform(0.02, 0.4, (ng, d)) * (rng.uniform(size=(ng, d)) < pk)
    if nz == 'mixed' and rng.uniform() < 0.3 and kf:
        c['sf'] = np.zeros(n)
    # hyperparameters in initial coordinates
    lens = s['ll'] * xs * 2 * rng.uniform(0.6, 1.6, d)
    c['theta'] = 0.5 / lens ** 2
    if s['kernel'] == 'RatQu':
        u = rng.uniform()
        c['alpha'] = float(0.3 + 12.9 * u) if u < 0.75 else float(10 ** (-2.5 + 6.8 * (u - 0.75)))     # allowed: 1e-3 to 10
    else:
        c['alpha'] = None
    c['varK'] = float(fs ** 2 * 10 ** rng.uniform(-1.5, 1.5))
    c['beta'] = float(fs * rng.normal() * 2)
    c['var_f'] = None if kf else float(fs ** 2 * 10 ** rng.uniform(-4, -0.5))
    c['var_g'] = None if (not s['use_grad'] or c['sg'] is not None) else float((fs / xs) ** 2 * 10 ** rng.uniform(-4, -0.5))
    return c


def jl(o):
    if isinstance(o, dict):
        return {k: jl(v) for k, v in o.items()}
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (list, tuple)):
        return [jl(v) for v in o]
    if isinstance(o, np.generic):
        return o.item()
    return o


def arr(v, dt=float):
    return None if v is None else np.array(v, dtype=dt)


def arrays(c):
    """numpy views of the data of a case (fresh arrays)."""
    d, n = c['d'], c['n']
    X = arr(c['X']).reshape(n, d)
    f = arr(c['f'])
    bvec = arr(c['bvec'], bool)
    ng = 0 if not c['use_grad'] else (n if bvec is None else int(bvec.sum()))
    g = None if c['g'] is None else arr(c['g']).reshape(ng, d)
    sf = arr(c['sf'])
    sg = None if c['sg'] is None else arr(c['sg']).reshape(ng, d)
    return X, f, sf, g, sg, bvec


def new_gp(c, **kw):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    gp = GaussianProcess(c['d'], c['use_grad'], c['kernel'], c.get('wcname', c['wc']), **kw)
    gp.cond_max_target = c.get('cmax', 1e10)
    gp.cond_max = max(gp.cond_max, gp.cond_max_target)
    gp.cond_eta_set_mtd = c.get('eta_mtd', 'Kbase_eta')
    if not c.get('eta_const', True) and c.get('wcname') != 'rescale_eta_vary':
        gp.cond_eta_is_const = False
    for k, v in (c.get('logs') or {}).items():
        setattr(gp, 'optz_log_hp_' + k, v)
    if 'cond_norm' in c:
        gp.cond_norm = c['cond_norm']
    return gp


def make_gp(c, **kw):
    gp = new_gp(c, **kw)
    X, f, sf, g, sg, bvec = arrays(c)
    gp.set_data(X, f, sf, g, sg, bvec)
    return gp


def scaling(c):
    """Reference of the documented data scaling: (shift_x, scale_x, shift_f, scale_f)."""
    X, f = arrays(c)[:2]
    n, d = X.shape
    if c['wc'] not in RESCALE:
        return np.zeros(d), 1.0, 0.0, 1.0
    if n == 1:
        return X[-1].copy(), 1.0, f[-1], 1.0
    D = np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(-1))
    iu = np.triu_indices(n, 1)
    dmin, dmax = D[iu].min(), D[iu].max()
    if c['wc'] == 'rescale_origin':
        s = vreq(n, d) / dmin
    elif c['wc'] == 'rescale_eta_vary':
        s = 1.0 / dmin
    elif c['wc'] == 'dflt_vmin':
        s = 1.0 / dmin
    else:
        s = 1.0 / dmax
    rg = f.max() - f.min()
    return X[-1].copy(), s, f[-1], 100.0 / max(rg, 1e-20)


def vreq(n, d):
    if n == 1:
        return 1.0
    v = 2 * np.sqrt(d)
    return min(v, (2 + np.sqrt(4 + 2 * np.e ** 2 * np.log((n - 1) * (1 + v) / 2))) / np.e)


def eta_ref(c, Kn=None, K=None):
    """Nugget of the documented methods.  Kn: kernel matrix with relative noise."""
    n, d, cm = c['n'], c['d'], c['cmax']
    if c['wc'] == 'rescale_eta_vary' or not c['eta_const']:
        if c['wc'] == 'precon':
            p = np.sqrt(np.diag(Kn))
            M = Kn / np.outer(p, p)
        else:
            M = K
        return np.abs(M).sum(1).max() / (cm - 1)
    if c['eta_mtd'] == 'dflt_eta':
        return 1e-8
    base = n / (cm - 1)
    if not c['use_grad'] or n == 1:
        return base
    if c['wc'] == 'precon':
        if c['kernel'] in ('SqExp', 'RatQu'):
            r = np.sqrt(1 + 4 * d)
            ub = 0.5 * (n - 1) * (1 + r) * np.exp(-(1 + 2 * d - r) / (4 * d))
        else:
            r = np.sqrt(3 * d)
            a = (r - 1 + np.sqrt(15 * d + 2 * r + 1)) / (2 * (3 * d + r))
            ub = (n - 1) * (1 + (d + r) * a + d * (1 + r) * a ** 2) * np.exp(-r * a)
        return (1 + ub) / (cm - 1)
    if 'rescale' in c['wc']:
        vf = 2 * np.sqrt(d) / vreq(n, d)
        return (1 + (n - 1) * vf * np.exp(1 / vf - 1)) / (cm - 1)
    if c['eta_mtd'] == 'Kbase_eta_w_dim':
        return base * (d + 1)
    return base


def scaled(c):
    """Data and hyperparameters in the coordinates the surrogate is built in."""
    X, f, sf, g, sg, bvec = arrays(c)
    sx, kx, sfv, kf = scaling(c)
    out = dict(X=(X - sx) * kx, f=(f - sfv) * kf, g=None if g is None else g * (kf / kx),
               sf=None if sf is None else sf * kf, sg=None if sg is None else sg * (kf / kx), bvec=bvec,
               sx=sx, kx=kx, sfv=sfv, kf=kf, th=arr(c['theta']) / kx ** 2, alpha=c['alpha'],
               varK=c['varK'] * kf ** 2, beta=(c['beta'] - sfv) * kf,
               var_f=None if c['var_f'] is None else c['var_f'] * kf ** 2,
               var_g=None if c['var_g'] is None else c['var_g'] * (kf / kx) ** 2)
    n = c['n']
    nd = 0 if g is None else out['g'].size
    noise = np.zeros(n + nd)
    noise[:n] = out['var_f'] if out['sf'] is None else out['sf'] ** 2
    if nd:
        noise[n:] = out['var_g'] if out['sg'] is None else (out['sg'] ** 2).T.ravel()
    out['noise'] = noise
    return out


def hp_of(gp, c, sc=None):
    sc = scaled(c) if sc is None else sc
    return gp.make_hp_class(np.array([sc['beta']]), sc['th'].copy(), sc['alpha'], sc['varK'], sc['var_f'], sc['var_g'])


def ref_gp(c, sc=None):
    sc = scaled(c) if sc is None else sc
    K = ref.kern(c['kernel'], sc['X'], sc['X'], sc['th'], sc['alpha'], sc['g'] is not None, sc['g'] is not None, sc['bvec'], sc['bvec'])
    Kn = K + np.diag(sc['noise'] / sc['varK'])
    eta = eta_ref(c, Kn, K)
    R = ref.RefGP(c['kernel'], sc['X'], sc['f'], sc['th'], sc['alpha'], sc['varK'], sc['beta'], eta, c['wc'] == 'precon',
                  sc['g'], sc['bvec'], sc['noise'])
    R.eta = eta
    R.Kn = Kn
    return R, sc


# ------------------------------------------------------------------ comparisons

def shape_of(name, a, shape):
    a = np.asarray(a)
    if a.shape != tuple(shape):
        raise Violation('%s has shape %s, expected %s' % (name, a.shape, tuple(shape)))
    if a.dtype.kind not in 'fiub':
        raise Violation('%s has dtype %s' % (name, a.dtype))
    return a


def close(name, got, want, tol, scale=None):
    """|got - want| <= tol * scale elementwise (scale defaults to max|want|)."""
    want = np.asarray(want, float)
    got = shape_of(name, got, want.shape)
    if scale is None:
        scale = np.max(np.abs(want)) if want.size else 1.0
    err = np.abs(got - want)
    bad = ~(err <= tol * np.asarray(scale))
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err / (np.asarray(scale) + 1e-300)) * bad), bad.shape) if want.ndim else ()
        sc = np.broadcast_to(np.asarray(scale), want.shape)[i]
        raise Violation('%s%s = %.17g, reference %.17g (error %.3g > %.1e * %.3g)' % (
            name, list(i) if i else '', got[i], want[i], err[i], tol, sc))


def tags_of(c):
    t = ['kernel=' + c['kernel'], 'wc=' + c['wc'], 'd=%d' % c['d'], 'grad=%s' % c['use_grad']]
    if c['bvec'] is not None:
        nb = sum(c['bvec'])
        t.append('bvec=' + ('none' if nb == 0 else 'all' if nb == c['n'] else 'partial'))
    t.append('noise_f=' + ('unknown' if c['sf'] is None else 'zero' if not np.any(c['sf']) else 'known'))
    return t
