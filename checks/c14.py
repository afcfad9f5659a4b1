"""C14: malformed input is rejected and leaves no usable half-set surrogate; every documented form of input is accepted."""
import os
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, new_gp, make_gp, scaled, hp_of, close, tags_of, kernels, RESCALE, ALL_WC
from post import eval_points
from lkd import is_noisy
from harness import Sub, Violation, Skip

PROP = 'C14'
RULE = ('(reject) a valid surrogate with data A, optionally set up; one mutation of the arguments of a call (constructor, data, hyperparameters, '
        'evaluation, rescaling): the call, or the first use of the data, must raise; afterwards evaluations must be refused or belong to data A, '
        'and a valid call must work again. (forms) valid data in other documented or harmless forms (no mask / all mask, nan = unknown noise, '
        'integer, Fortran-ordered, strided, read-only arrays, single points, default options, None method): same answers as the plain form. '
        'Non-trivial: every mutation of a surrogate with n > 1 (reject); a form different from the plain one (forms).')
ASSUMPTIONS = ['only shape, length, kind and name errors (and non-positive / nan hyperparameters) are malformed input; infinite or '
               'inconsistent values of the data are the responsibility of the user']


def mutations_data():
    """name -> (applicable(c), mutate(args) -> args)"""
    M = {}

    def add(name, ok, fn):
        M[name] = (ok, fn)
    yes = lambda c: True
    grad = lambda c: c['use_grad']
    ng = lambda c: 0 if not c['use_grad'] else (c['n'] if c['bvec'] is None else sum(c['bvec']))
    add('x-1d', yes, lambda c, a: dict(a, X=a['X'].ravel()))
    add('x-3d', yes, lambda c, a: dict(a, X=a['X'][None]))
    add('x-fewer-points', lambda c: c['n'] > 1, lambda c, a: dict(a, X=a['X'][:-1]))
    add('x-more-points', yes, lambda c, a: dict(a, X=np.vstack([a['X'], a['X'][-1:] + 1.3])))
    add('x-fewer-axes', lambda c: c['d'] > 1, lambda c, a: dict(a, X=a['X'][:, :-1].copy()))
    add('x-one-axis', lambda c: c['d'] > 1, lambda c, a: dict(a, X=a['X'][:, :1].copy()))
    add('x-more-axes', yes, lambda c, a: dict(a, X=np.hstack([a['X'], a['X'][:, :1] * 0.7 + 0.1])))
    add('x-transposed', lambda c: c['d'] != c['n'], lambda c, a: dict(a, X=a['X'].T.copy()))
    add('f-fewer', lambda c: c['n'] > 1, lambda c, a: dict(a, f=a['f'][:-1]))
    add('f-more', yes, lambda c, a: dict(a, f=np.append(a['f'], 1.0)))
    add('f-none', yes, lambda c, a: dict(a, f=None))
    add('f-list', yes, lambda c, a: dict(a, f=['a'] * c['n']))
    add('sf-fewer', lambda c: c['sf'] is not None and c['n'] > 1, lambda c, a: dict(a, sf=a['sf'][:-1]))
    add('sf-more', lambda c: c['sf'] is not None, lambda c, a: dict(a, sf=np.append(a['sf'], 0.1)))
    add('sf-one', lambda c: c['sf'] is not None and c['n'] > 1, lambda c, a: dict(a, sf=a['sf'][:1]))
    add('g-missing', grad, lambda c, a: dict(a, g=None))
    add('g-missing2', grad, lambda c, a: dict(a, g=None, sg=None))
    add('g-unwanted', lambda c: not c['use_grad'], lambda c, a: dict(a, g=np.ones((c['n'], c['d']))))
    add('g-1d', grad, lambda c, a: dict(a, g=a['g'].ravel()))
    add('g-fewer', lambda c: ng(c) > 1, lambda c, a: dict(a, g=a['g'][:-1]))
    add('g-fewer2', lambda c: ng(c) > 1, lambda c, a: dict(a, g=a['g'][:-1], sg=None if a['sg'] is None else a['sg'][:-1]))
    add('g-more', grad, lambda c, a: dict(a, g=np.vstack([a['g'], np.ones((1, c['d']))])))
    add('g-axes', lambda c: c['use_grad'] and c['d'] > 1, lambda c, a: dict(a, g=a['g'][:, :-1].copy()))
    add('g-one-axis', lambda c: c['use_grad'] and c['d'] > 1, lambda c, a: dict(a, g=a['g'][:, :1].copy(), sg=None if a['sg'] is None else a['sg'][:, :1].copy()))
    add('g-transposed', lambda c: c['use_grad'] and ng(c) != c['d'], lambda c, a: dict(a, g=a['g'].T.copy()))
    add('sg-1d', lambda c: c['sg'] is not None, lambda c, a: dict(a, sg=a['sg'].ravel()))
    add('sg-fewer', lambda c: c['sg'] is not None and ng(c) > 1, lambda c, a: dict(a, sg=a['sg'][:-1]))
    add('sg-one', lambda c: c['sg'] is not None and ng(c) > 1, lambda c, a: dict(a, sg=a['sg'][:1]))
    add('sg-axes', lambda c: c['sg'] is not None and c['d'] > 1, lambda c, a: dict(a, sg=a['sg'][:, :-1].copy()))
    add('sg-transposed', lambda c: c['sg'] is not None and ng(c) != c['d'], lambda c, a: dict(a, sg=a['sg'].T.copy()))
    add('mask-size', lambda c: c['use_grad'] and c['n'] > 1, lambda c, a: dict(a, bv=np.ones(c['n'] - 1, bool)))
    add('mask-more', grad, lambda c, a: dict(a, bv=np.append(np.ones(ng(c), bool), np.zeros(c['n'] + 1 - ng(c), bool))))
    add('mask-count', lambda c: c['use_grad'] and ng(c) > 0, lambda c, a: dict(a, bv=np.arange(c['n']) < ng(c) - 1))
    add('mask-unwanted', lambda c: not c['use_grad'], lambda c, a: dict(a, bv=np.zeros(c['n'], bool)))
    add('mask-unwanted2', lambda c: not c['use_grad'], lambda c, a: dict(a, bv=np.ones(c['n'], bool)))
    add('mask-int', grad, lambda c, a: dict(a, bv=np.ones(c['n'], int) if a['bv'] is None else a['bv'].astype(int)))
    add('mask-float', grad, lambda c, a: dict(a, bv=np.ones(c['n']) if a['bv'] is None else a['bv'].astype(float)))
    add('mask-index', lambda c: c['use_grad'] and ng(c) == c['n'], lambda c, a: dict(a, bv=np.arange(c['n'])))
    add('mask-missing', lambda c: c['use_grad'] and 0 < ng(c) < c['n'], lambda c, a: dict(a, bv=None))
    return M


MD = mutations_data()
CTOR = dict(dim_float=lambda c: ((2.0, True), {}), dim_none=lambda c: ((None, True), {}), dim_str=lambda c: (('2', True), {}),
            grad_int=lambda c: ((2, 1), {}), grad_none=lambda c: ((2, None), {}), grad_str=lambda c: ((2, 'True'), {}),
            kern_none=lambda c: ((2, True, None), {}), kern_int=lambda c: ((2, True, 0), {}), kern_case=lambda c: ((2, True, c['kernel'].lower()), {}),
            kern_unknown=lambda c: ((2, True, 'Ma3f2'), {}), kern_empty=lambda c: ((2, False, ''), {}), kern_prefix=lambda c: ((2, True, c['kernel'][:-1]), {}),
            wc_unknown=lambda c: ((2, True, c['kernel'], 'preconditioned'), {}), wc_case=lambda c: ((2, True, c['kernel'], 'Base'), {}),
            wc_part=lambda c: ((2, True, c['kernel'], 'rescale'), {}), wc_nograd=lambda c: ((2, False, c['kernel'], 'none'), {}),
            wc_empty=lambda c: ((2, True, c['kernel'], ''), {}), mean_unknown=lambda c: ((2, True), dict(mean_fun_type='poly_ord_7')),
            mean_none=lambda c: ((2, True), dict(mean_fun_type=None)))


def mut_hp():
    M = {}
    yes = lambda c: True
    M['theta-more'] = (yes, dict(theta=lambda c, t: np.append(t, t[-1])))
    M['theta-fewer'] = (lambda c: c['d'] > 1, dict(theta=lambda c, t: t[:-1].copy()))
    M['theta-one'] = (lambda c: c['d'] > 1, dict(theta=lambda c, t: t[:1].copy()))
    M['theta-nan'] = (yes, dict(theta=lambda c, t: t * np.where(np.arange(t.size) == 0, np.nan, 1)))
    M['theta-none'] = (yes, dict(theta=lambda c, t: None))
    M['beta-more'] = (yes, dict(beta=lambda c, t: np.append(t, 1.0)))
    M['beta-none'] = (yes, dict(beta=lambda c, t: None))
    M['beta-empty'] = (yes, dict(beta=lambda c, t: np.zeros(0)))
    M['varK-none'] = (yes, dict(varK=lambda c, t: None))
    M['varf-missing'] = (lambda c: c['var_f'] is not None, dict(var_fval=lambda c, t: None))
    M['varg-missing'] = (lambda c: c['var_g'] is not None and len(c['g']) > 0, dict(var_fgrad=lambda c, t: None))
    M['varf-unwanted'] = (lambda c: c['var_f'] is None, dict(var_fval=lambda c, t: 0.1))
    M['varg-unwanted'] = (lambda c: c['use_grad'] and c['var_g'] is None, dict(var_fgrad=lambda c, t: 0.1))
    return M


MH = mut_hp()
EV = dict(more=lambda c, x: np.hstack([x, x[:, :1]]), fewer=lambda c, x: x[:, :-1].copy(), one=lambda c, x: x[:, :1].copy(), d3=lambda c, x: x[None],
          flat=lambda c, x: np.append(x[0], 0.3), flat1=lambda c, x: x[0, :1].copy(), flat2=lambda c, x: x[:2].ravel(), zero=lambda c, x: np.array(0.5),
          empty=lambda c, x: x[:, :0].copy())
SETH = {'unknown': ('best', 0, {}), 'empty': ('', 0, {}), 'type': (None, 0, {}), 'number': (3, 0, {}), 'no-hp': ('set', 0, {}), 'current-0': ('current', 0, {}),
        'stored-neg': ('stored', -1, {}), 'stored-none': ('stored', 10 ** 6, {}), 'case': ('Set', 0, {})}


@st.composite
def rej_cases(draw):
    c = jl(expand(draw(structure(dmax=4, nmax=6, scales=(-1, 1)))))
    kind = draw(st.sampled_from(['data', 'data', 'data', 'data', 'ctor', 'hp', 'hp', 'eval', 'eval', 'sethp']))
    c['kind'] = kind
    if kind == 'data':
        names = sorted(k for k, v in MD.items() if v[0](c))
    elif kind == 'ctor':
        names = sorted(CTOR)
    elif kind == 'hp':
        names = sorted(k for k, v in MH.items() if v[0](c))
    elif kind == 'eval':
        names = sorted(k for k in EV if c['d'] > 1 or k not in ('one', 'flat1')) + ['squeeze', 'hess', 'unset', 'nodata', 'varhess']
    else:
        names = sorted(SETH) + ['none-current']
    c['mut'] = draw(st.sampled_from(names))
    c['first'] = draw(st.sampled_from(['none', 'data', 'ready', 'ready', 'other']))
    c['var'] = draw(st.booleans())
    c['opt'] = [draw(st.booleans()) for _ in range(3)]
    c['xt'] = jl(eval_points(c, np.random.default_rng(c['n'] * 7 + c['d']), 3))
    return c


def refused(call):
    try:
        r = call()
    except Exception:
        return True, None
    return False, r


def must_refuse(what, call):
    ok, r = refused(call)
    if not ok:
        raise Violation('%s was accepted' % what)


def args_of(c):
    X, f, sf, g, sg, bv = arrays(c)
    return dict(X=X, f=f, sf=sf, g=g, sg=sg, bv=bv)


def set_data(gp, a):
    gp.set_data(a['X'], a['f'], a['sf'], a['g'], a['sg'], a['bv'])


def preds(gp, x):
    return [np.array(v, float) for v in gp.eval_model(x, calc_grad=True)[:4]]


def same(what, a, b, tol=1e-9, varK=0.0):
    for nm, u, v in zip(('mean', 'standard deviation', 'gradient of the mean', 'gradient of the standard deviation'), a, b):
        if u.shape != v.shape:
            raise Violation('%s: %s has shape %s, expected %s' % (what, nm, u.shape, v.shape))
        if np.array_equal(u, v, equal_nan=True) or (nm.startswith('grad') and 'dev' in nm):
            continue
        if nm.startswith('stand'):
            u, v = u ** 2, v ** 2
        sc = np.abs(v).max() + 1e-300
        if nm.startswith('stand'):
            sc = max(sc, varK)
        if not np.all(np.abs(u - v) <= tol * sc):
            raise Violation('%s: %s is %r, expected %r' % (what, nm, u.tolist(), v.tolist()))


def other_data(c):
    """Another valid data set for the same surrogate (different number of points)."""
    rng = np.random.default_rng(5)
    o = dict(c, n=c['n'] + 1)
    o['X'] = np.vstack([arr(c['X']), arr(c['X'])[-1] + 0.31])
    o['f'] = np.append(arr(c['f']), rng.normal())
    if c['bvec'] is not None:
        o['bvec'] = c['bvec'] + [False]
        o['g'], o['sg'] = c['g'], c['sg']
    elif c['use_grad']:
        o['g'] = np.vstack([arr(c['g']).reshape(-1, c['d']), rng.normal(size=(1, c['d']))])
        o['sg'] = None if c['sg'] is None else np.vstack([arr(c['sg']).reshape(-1, c['d']), np.zeros((1, c['d']))])
    o['sf'] = None if c['sf'] is None else np.append(arr(c['sf']), 0.0)
    return jl(o)


def o_reject(c):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    kind, mut = c['kind'], c['mut']
    tags = tags_of(c) + ['%s:%s' % (kind, mut), 'first=' + c['first']]
    x = arr(c['xt'])
    if kind == 'ctor':
        a, k = CTOR[mut](c)
        must_refuse('GaussianProcess(*%r, **%r)' % (a, k), lambda: GaussianProcess(*a, **k))
        return True, tags
    gp = new_gp(c)
    gp.init_optz_surr(3)
    first = c['first']
    p0 = None
    prev = other_data(c) if first == 'other' else c
    if kind == 'eval' and mut == 'nodata':
        must_refuse('eval_model without data', lambda: gp.eval_model(x))
        must_refuse('eval_model_var without data', lambda: gp.eval_model_var(x))
        return True, tags
    if kind != 'data' or first != 'none':
        set_data(gp, args_of(prev if kind == 'data' else c))
        if (kind == 'data' and first != 'data') or (kind == 'eval' and mut != 'unset') or (kind in ('hp', 'sethp') and first == 'ready'):
            gp.set_hpara('set', 0, hp_vals=hp_of(gp, prev if kind == 'data' else c))
            p0 = preds(gp, x)
    if kind == 'eval':
        if mut == 'unset':
            must_refuse('eval_model before the hyperparameters are set', lambda: gp.eval_model(x))
            must_refuse('eval_model_var before the hyperparameters are set', lambda: gp.eval_model_var(x))
            return True, tags
        if mut == 'squeeze':
            must_refuse('squeeze_nx with several points', lambda: gp.eval_model(x, squeeze_nx=True))
        elif mut == 'hess':
            must_refuse('calc_hess without calc_grad', lambda: gp.eval_model(x[:1], calc_hess=True))
        elif mut == 'varhess':
            if gp.b_use_data_scl:
                must_refuse('eval_model_var with scaled data', lambda: gp.eval_model_var(x))
            else:
                must_refuse('calc_hess of eval_model_var', lambda: gp.eval_model_var(x[:1], calc_grad=True, calc_hess=True))
        else:
            bad = EV[mut](c, x)
            g, h, s = c['opt'][0], c['opt'][1] and c['opt'][0] and not c['var'], c['opt'][2]
            fn = gp.eval_model_var if (c['var'] and not gp.b_use_data_scl) else gp.eval_model
            must_refuse('evaluation at points of shape %s (dimension %d)' % (bad.shape, c['d']),
                        lambda: fn(bad, calc_grad=g, calc_hess=h, squeeze_nx=s and bad.ndim < 2))
        same('after a refused evaluation', preds(gp, x), p0, 0)
        return c['n'] > 1, tags
    if kind == 'sethp':
        if mut == 'none-current':
            if p0 is not None:
                return False, tags
            ok, r = refused(lambda: gp.set_hpara('current', 1))
            if not ok:
                raise Violation("set_hpara('current') without hyperparameters was accepted")
            return True, tags
        a, i, k = SETH[mut]
        if p0 is None:
            gp.hp_vals = None
        must_refuse('set_hpara(%r, %d)' % (a, i), lambda: gp.set_hpara(a, i, **k))
        if p0 is not None:
            ok, r = refused(lambda: preds(gp, x))
            if not ok:
                same('after a refused set_hpara', r, p0, 0)
        else:
            must_refuse('eval_model after a refused set_hpara', lambda: gp.eval_model(x))
        gp.set_hpara('set', 0, hp_vals=hp_of(gp, c))
        if p0 is not None:
            same('valid hyperparameters after a refused set_hpara', preds(gp, x), p0, 1e-12, c['varK'])
        return c['n'] > 1, tags
    if kind == 'hp':
        hp = hp_of(gp, c)
        for k, fn in MH[mut][1].items():
            setattr(hp, k, fn(c, getattr(hp, k)))

        def use():
            gp.set_hpara('set', 0, hp_vals=hp)
            gp.eval_model(x)
        must_refuse('hyperparameters with %s' % mut, use)
        ok, r = refused(lambda: preds(gp, x))
        if not ok:
            raise Violation('eval_model answered after hyperparameters with %s were refused' % mut)
        gp.set_hpara('set', 0, hp_vals=hp_of(gp, c))
        if p0 is not None:
            same('valid hyperparameters after refused ones', preds(gp, x), p0, 1e-12, c['varK'])
        return c['n'] > 1, tags
    # data
    a = MD[mut][1](c, args_of(c))
    ok, _ = refused(lambda: set_data(gp, a))
    hp_prev = hp_of(gp, prev)
    if not ok:
        raise Violation('set_data accepted data with %s' % mut)
    # no usable half-set surrogate: refused or the previous data
    ok, r = refused(lambda: preds(gp, x))
    if not ok:
        if p0 is None:
            raise Violation('eval_model answered after set_data refused data with %s' % mut)
        same('eval_model after set_data refused data with %s' % mut, r, p0, 1e-9, c['varK'])
    for how in ('current', 'set'):
        if how == 'current':
            if getattr(gp, 'hp_vals', None) is None:
                continue
            ok, _ = refused(lambda: gp.set_hpara('current', 1))
        else:
            ok, _ = refused(lambda: gp.set_hpara('set', 0, hp_vals=hp_prev))
        ok2, r = refused(lambda: preds(gp, x))
        if not ok2:
            if first == 'none':
                raise Violation('a surrogate without data could be set up and evaluated after set_data refused data with %s' % mut)
            if p0 is None:
                f = make_gp(prev)
                f.set_hpara('set', 0, hp_vals=hp_of(f, prev))
                p0 = preds(f, x)
            same("set_hpara('%s') after set_data refused data with %s" % (how, mut), r, p0, 1e-9, c['varK'])
    # a valid call works
    set_data(gp, args_of(c))
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c))
    f = make_gp(c)
    f.set_hpara('set', 0, hp_vals=hp_of(f, c))
    same('valid data after refused data', preds(gp, x), preds(f, x), 1e-9, c['varK'])
    return c['n'] > 1, tags


# ------------------------------------------------------------------ forms

FORMS = ['mask-none', 'mask-all', 'nan-noise', 'int', 'fortran', 'strided', 'readonly', 'point-1d', 'default-wc', 'none-wc', 'keywords', 'omit', 'column',
         'f-view', 'float32-free', 'squeeze']


@st.composite
def form_cases(draw):
    c = jl(expand(draw(structure(dmax=4, nmax=6, scales=(-1, 1)))))
    c['forms'] = sorted(set(draw(st.lists(st.sampled_from(FORMS), min_size=1, max_size=4))))
    c['xt'] = jl(eval_points(c, np.random.default_rng(c['n'] * 7 + c['d']), 3))
    if 'int' in c['forms']:
        X = np.round(arr(c['X']) / (np.abs(arr(c['X'])).max() + 1e-300) * 40)
        if c['n'] == 1 or len(np.unique(X, axis=0)) == c['n']:
            s = np.abs(X).max() + 1
            c['X'], c['theta'] = X.tolist(), (arr(c['theta']) * 0 + 0.02).tolist()
            c['f'] = np.round(arr(c['f']) / np.abs(arr(c['f'])).max() * 9 + 0.0).tolist()
            c['varK'] = 5.0
            if c['g'] is not None:
                c['g'] = np.round(arr(c['g']) / (np.abs(arr(c['g'])).max(initial=1e-300)) * 5).tolist()
            if c['sf'] is not None:
                c['sf'] = (arr(c['sf']) * 0).tolist()
            if c['sg'] is not None:
                c['sg'] = (arr(c['sg']) * 0).tolist()
            c['var_f'] = None if c['var_f'] is None else 0.2
            c['var_g'] = None if c['var_g'] is None else 0.2
        else:
            c['forms'] = [f for f in c['forms'] if f != 'int'] or ['fortran']
    return c


def strided(v):
    if v is None:
        return None
    b = np.zeros(tuple(2 * s for s in v.shape), v.dtype)
    w = b[tuple(slice(None, None, 2) for _ in v.shape)]
    w[...] = v
    return w


def o_forms(c):
    from gpgradpy.src.GaussianProcess import GaussianProcess
    x = arr(c['xt'])
    f0 = make_gp(c)
    f0.set_hpara('set', 0, hp_vals=hp_of(f0, c))
    p0 = preds(f0, x)
    F = c['forms']
    a = args_of(c)
    n, d = c['n'], c['d']
    wc = c['wc']
    if 'none-wc' in F and wc == 'base':
        gp = new_gp(dict(c, wc=None))
    elif 'default-wc' in F and wc == 'precon':
        gp = GaussianProcess(d, c['use_grad'], c['kernel'])
        for k in ('cond_max_target', 'cond_max', 'cond_eta_set_mtd', 'cond_eta_is_const', 'cond_norm'):
            setattr(gp, k, getattr(f0, k))
        gp.set_wellcond_mtd('precon')
    elif 'keywords' in F:
        gp = GaussianProcess(dim=d, use_grad=c['use_grad'], kernel_type=c['kernel'], wellcond_mtd=wc, mean_fun_type='poly_ord_0', path_data_surr='q', surr_name='w')
        for k in ('cond_max_target', 'cond_max', 'cond_eta_set_mtd', 'cond_eta_is_const', 'cond_norm'):
            setattr(gp, k, getattr(f0, k))
    else:
        gp = new_gp(c)
    if c['use_grad'] and c['bvec'] is not None and all(c['bvec']) and 'mask-none' in F:
        a['bv'] = None
    if c['use_grad'] and c['bvec'] is None and 'mask-all' in F:
        a['bv'] = np.ones(n, bool)
    if 'nan-noise' in F:
        if a['sf'] is None:
            a['sf'] = np.full(n, np.nan)
        if c['use_grad'] and a['sg'] is None and a['g'].size:
            a['sg'] = np.full(a['g'].shape, np.nan)
    xs = x
    tol = 1e-9
    if 'int' in F:
        for k in ('X', 'f', 'g', 'sf', 'sg'):
            if a[k] is not None and np.array_equal(a[k], np.round(a[k])) and not np.any(np.isnan(a[k])):
                a[k] = a[k].astype(np.int64)
    if 'fortran' in F:
        a = {k: None if v is None else np.asfortranarray(v) for k, v in a.items()}
        xs = np.asfortranarray(xs)
    if 'strided' in F:
        a = {k: strided(v) for k, v in a.items()}
        xs = strided(xs)
    if 'f-view' in F:
        a['f'] = np.column_stack([a['f'], a['f']])[:, 0]
    if 'column' in F:
        a['f'] = a['f'][:, None]
        if a['sf'] is not None:
            a['sf'] = a['sf'][:, None]
    if 'readonly' in F:
        for v in a.values():
            if v is not None:
                v.setflags(write=False)
        xs.setflags(write=False)
    if 'omit' in F and not c['use_grad']:
        gp.set_data(a['X'], a['f'], a['sf'])
    elif 'omit' in F and a['bv'] is None:
        gp.set_data(a['X'], a['f'], a['sf'], a['g'], *([] if a['sg'] is None else [a['sg']]))
    elif 'keywords' in F:
        gp.set_data(x_eval=a['X'], fval=a['f'], std_fval=a['sf'], grad=a['g'], std_grad=a['sg'], bvec_use_grad=a['bv'])
    else:
        set_data(gp, a)
    gp.set_hpara('set', 0, hp_vals=hp_of(gp, c))
    K = gp.KernEta
    q = np.sqrt(np.diag(K))
    w = np.linalg.eigvalsh(K / np.outer(q, q))
    tol = 1e-11 * max(1.0, w[-1] / max(w[0], 1e-300) / 1e3)
    same('forms %s' % '+'.join(F), preds(gp, xs), p0, tol, c['varK'])
    if 'point-1d' in F:
        p1 = preds(gp, x[0].copy())
        same('single point as a 1D array', p1, [v[:1] for v in p0], tol, c['varK'])
    if 'squeeze' in F:
        r = gp.eval_model(x[:1].copy(), calc_grad=True, squeeze_nx=True)
        r = [np.asarray(v, float)[None] for v in r[:4]]
        same('squeezed', r, [v[:1] for v in p0], tol, c['varK'])
    # likelihood with the same forms
    hp = hp_of(gp, c)
    b = f0.calc_lkd_all(hp_of(f0, c), calc_grad=True)
    t = gp.calc_lkd_all(hp, calc_grad=True)
    for nm in ('ln_lkd', 'ln_lkd_grad'):
        u, v = np.asarray(getattr(t[0], nm), float), np.asarray(getattr(b[0], nm), float)
        if u.shape != v.shape or not np.all(np.abs(u - v) <= tol * 100 * (np.abs(v).max(initial=0) + n * (d + 1))):
            raise Violation('forms %s: likelihood %s is %r, expected %r' % ('+'.join(F), nm, u, v))
    return F != ['keywords'], tags_of(c) + ['form=' + f for f in F]


# ------------------------------------------------------------------ rescaling

@st.composite
def scl_cases(draw):
    return dict(d=draw(st.integers(1, 4)), n=draw(st.integers(1, 6)), seed=draw(st.integers(0, 2 ** 31)), nlc=draw(st.integers(1, 3)),
                mut=draw(st.sampled_from(sorted(SCL))))


def _R(c, rng):
    from gpgradpy.src.base.Rescaling import Rescaling
    return Rescaling, rng.normal(size=(c['n'], c['d'])), rng.normal(size=c['n'])


SCL = {
    'x-1d': lambda R, X, f, c: R(X.ravel(), x_scl_method='set_vmin'),
    'x-method': lambda R, X, f, c: R(X, x_scl_method='vmin'),
    'obj-size': lambda R, X, f, c: R(X, x_scl_method=None).set_obj_data(np.append(f, 1.0), None, None, None),
    'obj-method': lambda R, X, f, c: R(X, x_scl_method=None).set_obj_data(f, None, None, None, obj_scl_method='max'),
    'nlc-size': lambda R, X, f, c: R(X, x_scl_method=None).set_nlc_data(np.ones((c['n'] + 1, c['nlc'])), None, None, None),
    'nlc-method': lambda R, X, f, c: R(X, x_scl_method=None).set_nlc_data(np.ones((c['n'], c['nlc'])), None, None, None, nlc_scl_method='max'),
    'get-obj': lambda R, X, f, c: R(X, x_scl_method=None).get_scl_obj_data(),
    'get-obj-init': lambda R, X, f, c: R(X, x_scl_method=None).get_init_obj_data(),
    'get-nlc': lambda R, X, f, c: R(X, x_scl_method=None).get_scl_nlc_data(),
    'get-nlc-init': lambda R, X, f, c: R(X, x_scl_method=None).get_init_nlc_data(),
    'get-box': lambda R, X, f, c: R(X, x_scl_method=None).get_scl_boxcon(),
    'get-lin': lambda R, X, f, c: R(X, x_scl_method=None).get_scl_lincon(),
    'x-3d': lambda R, X, f, c: R(X, x_scl_method=None).x_init_2_scl(X[None]),
    'x-3d-back': lambda R, X, f, c: R(X, x_scl_method=None).x_scl_2_init(X[None]),
    'shift-size': lambda R, X, f, c: R(X, x_scl_method='set_vmin').set_xscale_data(x_shift_in=np.ones(c['d'] + 1)),
    'scale-size': lambda R, X, f, c: R(X, x_scl_method='set_vmin').set_xscale_data(xvec_scale_in=np.ones(c['d'] + 1)),
    'scale-negative': lambda R, X, f, c: R(X, x_scl_method='set_vmin').set_xscale_data(xvec_scale_in=-np.ones(c['d'])),
    'scale-zero': lambda R, X, f, c: R(X, x_scl_method='set_vmin').set_xscale_data(xvec_scale_in=np.zeros(c['d'])),
}


def o_scl(c):
    R, X, f = _R(c, np.random.default_rng(c['seed']))
    must_refuse('rescaling: %s' % c['mut'], lambda: SCL[c['mut']](R, X, f, c))
    # the plain forms are accepted
    r = R(X, x_scl_method='set_vmin' if c['n'] > 1 else None)
    r.set_obj_data(f, None, None, None)
    r.set_xscale_data(x_shift_in=np.zeros(c['d']), xvec_scale_in=np.ones(c['d']))
    if r.get_scl_obj_data()[0].shape != (c['n'],):
        raise Violation('scaled objective has shape %s' % (r.get_scl_obj_data()[0].shape,))
    return True, ['scl:' + c['mut']]


SUBS = [Sub('reject', rej_cases, o_reject, quick=500, thorough=8000, weight=2),
        Sub('forms', form_cases, o_forms, quick=250, thorough=4000, weight=2),
        Sub('rescaling', scl_cases, o_scl, quick=150, thorough=1500, weight=0.3)]
