"""C19: user data are not modified and results are independent copies (differential histories: hostile against well-behaved user)."""
import os
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, new_gp, scaled, hp_of, tags_of, RESCALE
from post import eval_points
from lkd import is_noisy
from harness import Sub, Violation, Skip
import c15

PROP = 'C19'
RULE = ('Random sequences of 5-25 public calls (data, hyperparameters, evaluation, likelihood, optimiser callbacks, kernel and covariance '
        'matrices, preconditioner, distances, scaling maps, history export/import, an optimisation) run on two surrogates: one user overwrites '
        'every argument after and every result array of a call, the other does not. Arguments must be unchanged by each call, results kept '
        'from earlier calls must stay unchanged, repeated calls and the answers of both surrogates must agree. Non-trivial: at least '
        'three calls whose arrays were overwritten, followed by a call with an equal answer.')
ASSUMPTIONS = ['hyperparameter objects given with "set" or "store" are shared on purpose (their later change is detected, C15) and are not '
               'overwritten; getters of internal data and results that are the argument itself (maps without scaling) are not overwritten']

OPS = ['data', 'hp', 'eval', 'eval', 'eval', 'var', 'lkd', 'lkd', 'optz_val', 'cond_val', 'allK', 'kern', 'kern', 'precon', 'rten', 'xmap', 'omap',
       'mean', 'vec2hp', 'store', 'stored', 'export', 'import', 'setup', 'best', 'wc']


@st.composite
def cases(draw):
    s = draw(structure(dmax=3, nmax=5, scales=(-1, 1), cond_targets=(1e10, 1e6, 1e3)))
    a = jl(expand(s))
    b = dict(s, seed=(s['seed'] + 7919) % 2 ** 32)
    if draw(st.booleans()):
        b['n'] = draw(st.integers(1, 5))
    b = jl(expand(b))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 15)), min_size=5, max_size=22))
    if draw(st.integers(0, 11)) == 0:
        ops.insert(draw(st.integers(0, len(ops))), ('optz', 0))
    rng = np.random.default_rng(len(ops))
    return dict(S=[a, b], ops=[('data', draw(st.integers(0, 1))), ('hp', draw(st.integers(0, 15)))] + ops, xt=jl(eval_points(a, rng, 4)))


# --------------------------------------------------------------------------- arrays inside values

def fl(o, path='', out=None, depth=0):
    """All arrays inside a value as (path, array)."""
    out = [] if out is None else out
    if isinstance(o, np.ndarray):
        out.append((path, o))
    elif isinstance(o, dict):
        for k in o:
            fl(o[k], '%s[%s]' % (path, k), out, depth + 1)
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            fl(v, '%s[%d]' % (path, i), out, depth + 1)
    elif hasattr(o, '__dataclass_fields__'):
        for k in o.__dataclass_fields__:
            fl(getattr(o, k), '%s.%s' % (path, k), out, depth + 1)
    return out


def image(o):
    """Value of an argument or result, detached from it."""
    if isinstance(o, np.ndarray):
        return ('a', o.shape, o.dtype.str, o.tobytes())
    if isinstance(o, dict):
        return tuple((k, image(v)) for k, v in sorted(o.items()))
    if isinstance(o, (list, tuple)):
        return tuple(image(v) for v in o)
    if hasattr(o, '__dataclass_fields__'):
        return tuple((k, image(getattr(o, k))) for k in o.__dataclass_fields__)
    if isinstance(o, (float, int, np.generic)) and not isinstance(o, bool):
        return ('s', np.float64(o).tobytes())
    return repr(o)


def scribble(o, keep=()):
    """Overwrite the arrays of a value that do not share memory with the arrays to keep."""
    k = 0
    for _, a in fl(o):
        if a.size == 0 or not a.flags.writeable or any(np.may_share_memory(a, b) for b in keep):
            continue
        if a.dtype == bool:
            a[...] = ~a
        elif a.dtype.kind in 'fc':
            a[...] = -3.21e5 - np.arange(a.size).reshape(a.shape) * 1e3
        elif a.dtype.kind in 'iu':
            a[...] = 7
        else:
            continue
        k += 1
    return k


def agree(what, a, b, cond, skip=()):
    """Same structure and same numbers up to a small tolerance."""
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        raise Violation('%s: %r, expected %r' % (what, type(a).__name__, type(b).__name__))
    if isinstance(a, dict):
        if sorted(a) != sorted(b):
            raise Violation('%s: names %r, expected %r' % (what, sorted(a), sorted(b)))
        for k in a:
            if not any(s in k for s in skip):
                agree('%s[%s]' % (what, k), a[k], b[k], cond, skip)
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            raise Violation('%s: length %d, expected %d' % (what, len(a), len(b)))
        for i, (u, v) in enumerate(zip(a, b)):
            agree('%s[%d]' % (what, i), u, v, cond, skip)
    elif hasattr(a, '__dataclass_fields__'):
        for k in a.__dataclass_fields__:
            agree('%s.%s' % (what, k), getattr(a, k), getattr(b, k), cond, skip)
    elif a is None or isinstance(a, (str, bool, np.bool_)):
        if a != b:
            raise Violation('%s: %r, expected %r' % (what, a, b))
    else:
        u, v = np.asarray(a), np.asarray(b)
        if u.shape != v.shape:
            raise Violation('%s: shape %s, expected %s' % (what, u.shape, v.shape))
        if np.array_equal(u, v, equal_nan=u.dtype.kind == 'f'):
            return
        s = np.nanmax(np.abs(v.astype(float))) if v.size else 0.0
        with np.errstate(all='ignore'):
            ok = (np.abs(u.astype(float) - v.astype(float)) <= 1e-9 * max(1.0, cond / 1e6) * s) | (np.isnan(u) & np.isnan(v))
        if not np.all(ok):
            raise Violation('%s: %r, expected %r' % (what, u.tolist(), v.tolist()))


# --------------------------------------------------------------------------- the calls

class U:
    """A surrogate and what its user knows about it."""

    def __init__(self, c):
        self.gp = new_gp(c['S'][0])
        self.gp.optz_n_x0 = 2
        self.gp.lkd_optz_start_mtd = 'lhs'
        self.gp.optz_iter_max = 8
        self.gp.init_optz_surr(16)
        self.c = c
        self.j = None
        self.ready = False
        self.hp_j = None
        self.stored = {}

    @property
    def s(self):
        return self.c['S'][self.j]


def make_call(u, op, p):
    """(name, function of the arguments, arguments, results may be overwritten, arguments may be overwritten) or None."""
    gp, c = u.gp, u.c
    xt = arr(c['xt'])
    if op == 'data':
        j = p % 2
        X, f, sf, g, sg, bv = arrays(c['S'][j])
        return 'set_data', lambda *a: gp.set_data(*a), [X, f, sf, g, sg, bv], True, True
    s = u.s
    if op in ('hp', 'store'):
        hp = c15.hp_for(gp, s, p % 3)
        if op == 'hp':
            return 'set_hpara(set)', lambda h: gp.set_hpara('set', 0, hp_vals=h, calc_cond=bool(p & 4)), [hp], True, False
        return 'store_new_para_surr', lambda h: gp.store_new_para_surr(p % 8, h), [hp], True, False
    if op in ('eval', 'var'):
        if not u.ready or (op == 'var' and gp.b_use_data_scl):
            return None
        gr, he, sq = bool(p & 1), bool(p & 2) and bool(p & 1) and op == 'eval', bool(p & 4)
        x = xt[:1] if (he or sq) else xt
        if p & 8 and len(x) == 1:
            x = x[0]
        if op == 'var':
            return 'eval_model_var', lambda a: gp.eval_model_var(a, calc_grad=gr, squeeze_nx=sq), [x.copy()], True, True
        return 'eval_model', lambda a: gp.eval_model(a, calc_grad=gr, calc_hess=he, squeeze_nx=sq), [x.copy()], True, True
    if op == 'lkd':
        hp = c15.hp_for(gp, s, p % 3)
        hp.beta = None
        if not is_noisy(s):
            hp.varK = None
        return 'calc_lkd_all', lambda h: gp.calc_lkd_all(h, calc_cond=bool(p & 1), calc_grad=bool(p & 2), lkd_use_adj_mtd=bool(p & 4)), [hp], True, True
    if op in ('optz_val', 'cond_val', 'vec2hp'):
        hp = c15.hp_for(gp, s, p % 3)
        v = np.array([np.log10(x) for x in c15.c_vec(s, hp)])
        if op == 'vec2hp':
            return 'hp_vec2dataclass', lambda a: gp.hp_vec2dataclass(gp.hp_info_optz_lkd, a), [v], True, True
        if op == 'cond_val':
            if not gp.b_use_cond_cstr:
                return None
            nm = ['return_cond_val', 'return_cond_grad'][p % 2]
        else:
            nm = ['return_optz_val', 'return_optz_grad'][p % 2]
        return nm, lambda a: getattr(gp, nm)(a), [v], True, True
    hp = c15.hp_for(gp, s, p % 3)
    if op == 'allK':
        R = np.array(gp.get_scl_x_w_dist()[1])
        return 'calc_all_K_w_chofac', lambda a, h: gp.calc_all_K_w_chofac(a, h, calc_cond=bool(p & 4), b_normlz_w_varK=bool(p & 8)), [R, hp], True, True
    th = np.array(hp.theta, float)
    al = hp.kernel
    X = np.array(gp.get_scl_x_w_dist()[0])
    if op == 'rten':
        return 'calc_Rtensor', lambda a, b: gp.calc_Rtensor(a, b, 1 + p % 2), [X, X.copy()], True, True
    if op == 'kern':
        R = np.array(gp.get_scl_x_w_dist()[1])
        bv = arr(s['bvec'], bool)
        q = p % 6
        if q == 0:
            return 'calc_KernBase', lambda r, t: gp.calc_KernBase(r, t, al), [R, th], True, True
        if q == 1:
            return 'calc_KernGrad', lambda r, t, b: gp.calc_KernGrad(r, t, al, bvec_use_grad1=b, bvec_use_grad2=b), [R, th, bv], True, True
        if q in (2, 3):
            f = gp.calc_Kern_grad_theta if q == 2 or s['kernel'] != 'RatQu' else gp.calc_Kern_grad_alpha
            if s['use_grad']:
                return 'calc_Kern_grad', lambda r, t, b: f(r, t, al, b), [R, th, bv], True, True
            return 'calc_Kern_grad', lambda r, t: f(r, t, al), [R, th], True, True
        if q == 4:
            return 'calc_KernBase_hess_x', lambda r, t: gp.calc_KernBase_hess_x(r, t, al), [R[:, :1, :].copy(), th], True, True
        return 'calc_Kern', lambda r, t: gp.calc_KernGrad(r, t, al), [R[:, :, :1].copy(), th], True, True
    if op == 'precon':
        n, ng = s['n'], (0 if s['g'] is None else len(s['g']))
        q = p % 3
        if q == 0:
            return 'calc_Kern_precon', lambda t: gp.calc_Kern_precon(n, ng, t, bool(p & 4), bool(p & 8)), [th], True, True
        f = gp.theta2gamma if q == 1 else gp.gamma2theta
        return 'parameter map of the preconditioner', lambda t: f(t), [th], True, True
    if op == 'xmap':
        f = gp.x_init_2_scl if p % 2 else gp.x_scl_2_init
        return 'x_init_2_scl' if p % 2 else 'x_scl_2_init', lambda a: f(a), [xt.copy() if p & 2 else xt[0].copy()], True, True
    if op == 'omap':
        f = gp.data_init_2_scl if p % 2 else gp.data_scl_2_init
        d = s['d']
        a = [np.arange(3.0), np.ones(3) * 2, np.ones((3, d)), np.ones((3, d)) * 3, np.ones((1, d, d)), np.ones((1, d, d)) * 2]
        return 'data_init_2_scl' if p % 2 else 'data_scl_2_init', lambda *v: f(*v), a, True, True
    if op == 'mean':
        if not u.ready or s['bvec'] is not None or gp.KernEta_chofac is None:
            return None
        cf = (np.array(gp.KernEta_chofac[0]), bool(gp.KernEta_chofac[1]))
        X0, f0, _, g0, _, _ = arrays(s)
        return 'calc_model_mean_w_data_init', lambda x, k, b, xe, fe, ge, t: gp.calc_model_mean_w_data_init(x, k, b, xe, fe, ge, t, bool(p & 1)), [
            xt.copy(), cf, np.array(gp.hp_vals.beta), X0, f0, g0, np.array(gp.hp_vals.theta)], True, True
    if op == 'stored':
        ok = [k for k, v in u.stored.items() if v == u.j]
        if not ok:
            return None
        k = ok[p % len(ok)]
        return 'set_hpara(stored)', lambda: gp.set_hpara('stored', k), [], True, True
    if op == 'export':
        return 'export_data_surr', lambda: gp.export_data_surr(save2file=False), [], True, True
    if op == 'import':
        d = {k: np.array(v) for k, v in gp.export_data_surr(save2file=False).items()}
        return 'load_data_surr', lambda a: gp.load_data_surr(a), [d], True, True
    if op == 'setup':
        if not u.ready:
            return None
        return 'setup_eval_model', lambda: gp.setup_eval_model(bool(p & 1)), [], True, True
    if op == 'best':
        from gpgradpy.results.PltOptzResults import PltOptzResults
        v = np.random.default_rng(p).normal(size=(6, 2))
        v[:p % 3, 0] = np.nan
        return 'best_at_all_iter', lambda a: PltOptzResults.best_at_all_iter(a, ['min', 'max'][p % 2]), [v[:, 0].copy()], True, True
    if op == 'wc':
        return 'calc_nugget', lambda: (gp.calc_nugget(s['n']), gp.calc_mtd_rescale_origin_vreq(s['n'], s['d'])), [], True, True
    if op == 'optz':
        if u.stored.get(0) != u.j:
            gp.store_new_para_surr(0, c15.hp_for(gp, s, 0))
            u.stored[0] = u.j
        return 'set_hpara(optz)', lambda: gp.set_hpara('optz', 1), [], True, True
    raise AssertionError(op)


def after(u, op, p):
    if op == 'data':
        u.j, u.ready = p % 2, False
    elif op == 'hp':
        u.ready, u.hp_j = True, u.j
    elif op == 'store':
        u.stored[p % 8] = u.j
        u.ready = False
    elif op in ('stored', 'setup', 'optz'):
        u.ready = True
        if op == 'optz':
            u.stored[1] = u.j


def o_history(c):
    A, B = U(c), U(c)
    kept = []
    n_scr, nt = 0, False
    tags = []
    conds = 1e8
    for op, p in c['ops']:
        ca, cb = make_call(A, op, p), make_call(B, op, p)
        if (ca is None) != (cb is None):
            raise Violation('state of the surrogates differs')
        if ca is None:
            continue
        name, fa, aa, over_r, over_a = ca
        _, fb, ab, _, _ = cb
        im = [image(v) for v in aa]
        ra = fa(*aa)
        for k, v in enumerate(aa):
            if image(v) != im[k]:
                raise Violation('%s modified its argument %d' % (name, k))
        # a second call with equal arguments, by the user that overwrites arrays
        ia = image(ra)
        argsa = [a for v in aa for _, a in fl(v)]
        if op not in ('optz', 'wc', 'best'):
            cc = make_call(A, op, p)
            if cc is not None:
                r2 = cc[1](*cc[2])
                agree('%s called twice' % name, r2, ra, conds, ('time',))
                if image(ra) != ia:
                    raise Violation('%s called again altered the result of the first call' % name)
                im2 = [image(v) for v in aa]
                if over_r:
                    scribble(r2, [a for v in cc[2] for _, a in fl(v)])
                if over_a:
                    scribble(cc[2])
                if over_r and over_a and op != 'import' and (image(ra) != ia or [image(v) for v in aa] != im2):
                    raise Violation('%s: arrays of two calls share memory' % name)
        rb = fb(*ab)
        agree(name, ra, rb, conds, ('time',))
        nt |= n_scr >= 3 and op in ('eval', 'var', 'lkd', 'optz_val', 'mean')
        for nm, im0, o in kept:
            if image(o) != im0:
                raise Violation('%s altered a result kept from an earlier call of %s' % (name, nm))
        # the well-behaved user keeps results, the other one overwrites them
        kept.append((name, image(rb), rb))
        kept = kept[-12:]
        n_scr += scribble(ra, argsa) if over_r else 0
        if over_a:
            n_scr += scribble(aa)
        tags.append('op=' + op)
        after(A, op, p)
        after(B, op, p)
    return bool(nt), sorted(set(tags)) + tags_of(c['S'][0])


SUBS = [Sub('history', cases, o_history, quick=300, thorough=8000)]
