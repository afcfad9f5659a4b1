"""C15: evaluations reflect the current data and hyperparameters, never stale ones (model-based histories, one or two surrogates)."""
import copy
import os
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, new_gp, make_gp, scaled, hp_of, tags_of, RESCALE
from post import eval_points
from lkd import is_noisy, hp_names
from harness import Sub, Violation, Skip
import c06
import c11

PROP = 'C15'
RULE = ('Random sequences of 6-25 calls on one or two surrogates: set data (2 data sets each, some with the same shape), set hyperparameters '
        '(set / current / stored), modify them in place or replace the object, set the evaluation up again, evaluate (all flags), likelihood, '
        'optimiser callbacks through a reused buffer, history export, an optimisation. Every answer is compared with a fresh surrogate given '
        'the current state, and evaluations in a stale state must raise. Non-trivial: at least one successful comparison '
        'after a change of data or hyperparameters following an earlier evaluation.')
ASSUMPTIONS = ['a fresh surrogate is correct (C01-C09); results must agree to 1e-9 of their scale (times condition number over 1e6)']

OPS = ['data', 'hp', 'hp', 'eval', 'eval', 'eval', 'var', 'mutate', 'swap', 'current', 'setup', 'lkd', 'optz_val', 'optz_val', 'store', 'stored',
       'bad', 'settings', 'option', 'report', 'optz_same']


PARTS = ['f', 'f1', 'g', 'X1', 'Xlast', 'sf', 'sg', 'mask', 'order']


def one_change(a, part, seed):
    """The data of a with one part changed (as far as a has it): what was computed from that part is out of date."""
    rng = np.random.default_rng(seed)
    b = {k: (list(v) if isinstance(v, list) else v) for k, v in a.items()}
    n = a['n']
    if part in ('f', 'f1'):
        k = range(n) if part == 'f' else [int(rng.integers(n))]
        for i in k:
            b['f'][i] = a['f'][i] + float((0.1 + rng.uniform()) * (np.std(a['f']) + abs(a['f'][0])))
    elif part == 'g' and a['g']:
        b['g'] = (np.array(a['g']) * (1 + rng.uniform(0.1, 1, np.shape(a['g'])))).tolist()
    elif part in ('X1', 'Xlast'):
        i = n - 1 if part == 'Xlast' else int(rng.integers(n))
        b['X'][i] = (np.array(a['X'][i]) + rng.uniform(0.1, 0.4, a['d']) / np.sqrt(np.array(a['theta']))).tolist()
    elif part == 'sf' and a['sf'] is not None:
        b['sf'] = (np.array(a['sf']) * 1.7 + (np.std(a['f']) + abs(a['f'][0])) * 0.1 * rng.uniform(size=n)).tolist()
    elif part == 'sg' and a['sg']:
        b['sg'] = (np.array(a['sg']) * 1.7 + np.abs(a['g']).max() * 0.1 * rng.uniform(size=np.shape(a['g']))).tolist()
    elif part == 'mask' and a['bvec'] is not None:
        b['bvec'] = [bool(v) for v in rng.permutation(a['bvec'])]
    elif part == 'order' and a['bvec'] is None:
        p = rng.permutation(n)
        if seed % 2:
            p = np.concatenate((p[p == 0], p[p != 0]))
        for k in ('X', 'f', 'sf', 'g', 'sg'):
            if a[k] is not None:
                b[k] = [a[k][i] for i in p]
    return b


@st.composite
def cases(draw, optz=False):
    S = []
    two = draw(st.booleans())
    d = None
    for g in range(2 if two else 1):
        kw = dict(dmax=3, nmax=5, scales=(-1, 1), cond_targets=(1e10, 1e6, 1e3))
        s = draw(structure(**kw))
        if d is None:
            d = s['d']
        s['d'] = d
        if g == 1 and os.environ.get('NUMBA_DISABLE_JIT'):
            s['kernel'] = draw(st.sampled_from(['SqExp', 'Ma5f2', 'RatQu']))
        a = jl(expand(s))
        b = dict(s, seed=(s['seed'] + 7919) % 2 ** 32)
        k = draw(st.sampled_from(['same', 'size', 'noise', 'noise', 'mask']))
        if k == 'size':
            b['n'] = draw(st.integers(1, 5))
        elif k == 'noise':
            b['noise'] = draw(st.sampled_from(['none', 'known', 'unknown']))
        elif k == 'mask' and s['use_grad']:
            b['bstyle'] = draw(st.sampled_from(['none', 'random', 'zero']))
        b = jl(expand(b))
        if draw(st.booleans()):
            # same points, other values
            if b['n'] == a['n']:
                b['X'] = a['X']
        S.append([a, b, one_change(a, draw(st.sampled_from(PARTS)), draw(st.integers(0, 2 ** 31))),
                  one_change(a, draw(st.sampled_from(PARTS)), draw(st.integers(0, 2 ** 31)))])
    ops = draw(st.lists(st.tuples(st.integers(0, len(S) - 1), st.sampled_from(OPS + ['optz'] * 2 * optz), st.integers(0, 7)), min_size=6, max_size=25))
    pre = [(g, o, draw(st.integers(0, 7))) for g in range(len(S)) for o in ('data', 'hp', 'eval')]
    seq = draw(st.lists(st.tuples(st.integers(0, len(S) - 1), st.sampled_from([
        ('data', 'eval', 'hp', 'eval'), ('mutate', 'eval', 'current', 'eval'), ('hp', 'eval'), ('data', 'hp', 'var'), ('swap', 'eval', 'setup', 'eval'),
        ('optz_val', 'data', 'optz_val'), ('optz_val', 'data', 'optz_same'), ('optz_val', 'data', 'optz_same'), ('lkd', 'data', 'lkd'), ('lkd', 'option', 'lkd'), ('hp', 'eval', 'option', 'hp', 'eval'), ('optz_val', 'option', 'optz_same'), ('store', 'hp', 'stored', 'eval'), ('store', 'data', 'stored', 'hp', 'eval', 'var'), ('data', 'setup', 'eval'),
        ('data', 'current', 'var')] + (3 * [('optz_val', 'data', 'store', 'optz', 'eval'), ('optz', 'data', 'optz'), ('store', 'optz', 'hp', 'eval')] if optz else [])), st.integers(0, 7), st.integers(0, 7)), max_size=4))
    for g, q, a, b in seq:
        ops += [(g, o, a if i % 2 else b) for i, o in enumerate(q)]
    if draw(st.booleans()):
        ops = pre + ops
    else:
        ops = ops[:2] + pre + ops[2:]
    rng = np.random.default_rng(len(ops))
    return dict(S=S, ops=ops, xt=jl([eval_points(S[0][j % 2], rng, 1)[0] for j in range(4)]))


def hp_for(gp, c, v):
    sc = scaled(c)
    hp = hp_of(gp, c, sc)
    if v >= 3:
        # one hyperparameter only
        k = ('theta', 'beta', 'varK', 'kernel', 'var_fval', 'var_fgrad')[v - 3]
        x = getattr(hp, k)
        if k == 'beta':
            hp.beta = hp.beta + 0.3 * np.sqrt(hp.varK)
        elif k == 'theta':
            hp.theta = np.append(hp.theta[:-1], hp.theta[-1] * 1.6)
        elif x is not None:
            setattr(hp, k, x * 1.4)
    elif v:
        hp.theta = hp.theta * np.linspace(0.6, 1.5, c['d'] + 1)[:c['d']] * (1 + 0.3 * v)
        hp.beta = hp.beta + 0.2 * v * np.sqrt(hp.varK)
        hp.varK = hp.varK * (1 + 0.4 * v)
        if hp.kernel is not None:
            hp.kernel = hp.kernel * (1 + 0.1 * v)
    return hp


def clone(gp, hp):
    f = lambda v: None if v is None else (np.array(v, float) if np.ndim(v) else float(v))
    return gp.make_hp_class(f(hp.beta), f(hp.theta), f(hp.kernel), f(hp.varK), f(hp.var_fval), f(hp.var_fgrad))


def hp_same(a, b):
    fa, fb = c11.fields(a), c11.fields(b)
    return all(fa[k].shape == fb[k].shape and np.array_equal(fa[k], fb[k], equal_nan=True) for k in fa)


class G:
    """One surrogate and its model."""

    def __init__(self, S):
        self.S = S
        self.gp = new_gp(S[0])
        self.gp.init_optz_surr(8)
        self.j = None          # current data
        self.ready = None      # (data index, hyperparameters) of the last set-up
        self.stored = {}
        self.evals = 0
        self.buf = None
        self.opts = {}
        self.args = None       # the arrays of the last set_data
        self.x = None

    def given(self, A, reuse):
        """The data, in the arrays given last time if the user reuses them."""
        sh = [None if a is None else a.shape for a in A]
        if reuse and self.args is not None and sh == [None if a is None else a.shape for a in self.args]:
            for a, b in zip(self.args, A):
                if a is not None:
                    a[...] = b
        else:
            self.args = A
        return self.args

    def points(self, x):
        if self.x is None or self.x.shape != x.shape:
            self.x = x.copy()
        self.x[...] = x
        return self.x

    def c(self):
        return self.S[self.j]

    def plain(self):
        """A new surrogate with the current options and data."""
        g = new_gp(self.c())
        for k, v in self.opts.items():
            setattr(g, k, v)
        g.set_data(*arrays(self.c()))
        return g

    def fresh(self, hp=None):
        g = self.plain()
        if hp is not None:
            g.set_hpara('set', 0, hp_vals=clone(g, hp))
        return g

    def valid(self):
        return (self.j is not None and self.ready is not None and self.ready[0] == self.j and
                hp_same(self.ready[1], self.gp.hp_vals) and
                all((getattr(self.ready[1], k) is None) == (getattr(self.gp.hp_vals, k) is None) for k in ('beta', 'kernel', 'varK', 'var_fval', 'var_fgrad')))


def cmp(what, got, want, cond=1.0):
    if (got is None) != (want is None):
        raise Violation('%s: %r, fresh surrogate gives %r' % (what, got, want))
    if got is None:
        return
    a, b = np.asarray(got, float), np.asarray(want, float)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, fresh surrogate gives %s' % (what, a.shape, b.shape))
    if np.array_equal(a, b, equal_nan=True):
        return
    s = np.nanmax(np.abs(b)) if b.size else 0.0
    if not np.all((np.abs(a - b) <= 1e-9 * max(1.0, cond / 1e6) * s) | (np.isnan(a) & np.isnan(b))):
        raise Violation('%s: %r, fresh surrogate gives %r' % (what, a.tolist(), b.tolist()))


def check_eval(g, p, xt, var=False):
    gp = g.gp
    grad, hess, sq = bool(p & 1), bool(p & 2) and bool(p & 1) and not var, bool(p & 4)
    x = np.roll(xt, g.evals, 0)
    x = x[:1] if (hess or sq) else x
    call = (lambda q, x: q.eval_model_var(x, calc_grad=grad, squeeze_nx=sq)) if var else (
        lambda q, x: q.eval_model(x, calc_grad=grad, calc_hess=hess, squeeze_nx=sq))
    what = 'eval_model_var' if var else 'eval_model'
    ok = g.valid()
    if ok and var and gp.b_use_data_scl:
        return False
    try:
        r = call(gp, g.points(x))
    except Exception as e:
        if ok:
            raise
        return False
    if not ok:
        raise Violation('%s answered although the %s changed since the set-up' % (
            what, 'data' if g.ready is None or g.ready[0] != g.j else 'hyperparameters'))
    f = g.fresh(gp.hp_vals)
    w = call(f, x.copy())
    cond = c11.cond_of(f)
    names = ('variance', 'gradient of the variance', 'Hessian of the variance') if var else (
        'mean', 'standard deviation', 'gradient of the mean', 'gradient of the standard deviation', 'Hessian of the mean',
        'Hessian of the standard deviation')
    for nm, a, b in zip(names, r, w):
        if a is not None and b is not None and 'deviation' in nm and not np.array_equal(a, b, equal_nan=True):
            if nm != 'standard deviation':
                continue
            a, b = np.asarray(a) ** 2, np.asarray(b) ** 2
            if np.abs(a - b).max() <= 1e-12 * float(np.squeeze(gp.hp_vals.varK)) * max(1.0, cond / 1e6):
                continue
        cmp('%s: %s' % (what, nm), a, b, cond)
    return True


def refused(what, call):
    try:
        call()
    except Exception:
        return
    raise Violation('%s was accepted' % what)


def o_history(c):
    xt = arr(c['xt'])
    gs = [G(S) for S in c['S']]
    changed, nt = False, False
    tags = []
    for gi, op, p in c['ops']:
        g = gs[gi]
        gp = g.gp
        tags.append('op=' + op)
        if op == 'data':
            g.j = p % 4
            gp.set_data(*g.given(arrays(g.c()), p >= 4))
            g.ready = None
            changed |= g.evals > 0
            continue
        if op == 'option':
            # options of this instance, followed by its data
            if g.j is None:
                continue
            o = OPTIONS[p % len(OPTIONS)]
            if s_const(g.S[0]) or 'cond_eta_is_const' not in o:
                g.opts.update(o)
            for k, v in g.opts.items():
                setattr(gp, k, v)
            if any(k.startswith('lkd') for k in o):
                continue                     # takes effect at once
            gp.set_data(*g.given(arrays(g.c()), False))
            g.ready = None
            changed |= g.evals > 0
            continue
        if op == 'settings':
            # settings of another instance must not matter
            o = gs[1 - gi] if len(gs) > 1 else G(g.S)
            if o is not g and p % 2:
                from gpgradpy.src.GaussianProcess import GaussianProcess
                GaussianProcess(3, True, ['SqExp', 'Ma5f2', 'RatQu'][p % 3], 'rescale_eta_vary')
            continue
        if op == 'eval':
            if check_eval(g, p, xt):
                nt |= changed
                g.evals += 1
            continue
        if op == 'var':
            if check_eval(g, p, xt, True):
                nt |= changed
                g.evals += 1
            continue
        if g.j is None:
            continue
        s = g.c()
        if op == 'hp':
            hp = hp_for(gp, s, p + 1)
            gp.set_hpara('set', 0, hp_vals=hp, calc_cond=bool(p & 4))
            g.ready = (g.j, clone(gp, gp.hp_vals))
            changed |= g.evals > 0
        elif op == 'mutate':
            if getattr(gp, 'hp_vals', None) is None:
                continue
            hp = gp.hp_vals
            if p == 0:
                hp.theta[-1] *= 1.7
            elif p == 1:
                hp.beta[0] += 0.5
            elif p == 2:
                hp.varK = hp.varK * 2
            elif p == 3 and hp.kernel is not None:
                hp.kernel = hp.kernel * 1.2
            elif p == 4 and hp.var_fval is not None:
                hp.var_fval = hp.var_fval * 1.5
            elif p == 5 and hp.var_fgrad is not None:
                hp.var_fgrad = hp.var_fgrad * 1.5
            elif p == 6 and g.ready is not None:
                # back to what was set up: valid again
                gp.hp_vals = clone(gp, g.ready[1])
            else:
                hp.theta[0] *= 1 + 1e-6
            changed |= g.evals > 0
        elif op == 'swap':
            gp.hp_vals = hp_for(gp, s, p)
        elif op == 'current':
            if getattr(gp, 'hp_vals', None) is None or not compatible(s, gp.hp_vals):
                continue
            gp.set_hpara('current', 1)
            g.ready = (g.j, clone(gp, gp.hp_vals))
        elif op == 'setup':
            if getattr(gp, 'hp_vals', None) is None or not compatible(s, gp.hp_vals):
                continue
            gp.setup_eval_model(calc_cond=bool(p & 1))
            g.ready = (g.j, clone(gp, gp.hp_vals))
        elif op in ('lkd', 'optz_val', 'optz_same'):
            hp = hp_for(gp, s, p)
            hp.beta = None
            if not is_noisy(s):
                hp.varK = None
            f = g.plain()
            if op == 'lkd':
                a = gp.calc_lkd_all(clone(gp, hp), calc_cond=bool(p & 1), calc_grad=bool(p & 2), lkd_use_adj_mtd=bool(p & 4))
                b = f.calc_lkd_all(clone(f, hp), calc_cond=bool(p & 1), calc_grad=bool(p & 2), lkd_use_adj_mtd=bool(p & 4))
                if bool(a[1]) != bool(b[1]):
                    raise Violation('factorisation flag of the likelihood differs from a fresh surrogate')
                if a[1]:
                    for nm in ('ln_lkd', 'ln_lkd_grad', 'cond', 'cond_grad', 'hp_beta', 'hp_varK'):
                        cmp('likelihood: ' + nm, getattr(a[0], nm), getattr(b[0], nm), 1e12)
            else:
                v = np.array([np.log10(x) for x in c_vec(s, hp)])
                if g.buf is None or g.buf.size != v.size:
                    g.buf = np.zeros(v.size)
                    g.buf[:] = v
                if op == 'optz_same':
                    v = g.buf.copy()        # the variables of the previous call, whatever happened to the data since
                g.buf[:] = v
                order = [('return_optz_val', 'return_optz_grad'), ('return_optz_grad', 'return_optz_val'), ('return_optz_val',),
                         ('return_optz_grad',)][p % 4]
                for nm in order:
                    cmp('optimiser callback ' + nm, getattr(gp, nm)(g.buf), getattr(f, nm)(v.copy()), 1e12)
                if gp.b_use_cond_cstr and p >= 4:
                    for nm in ('return_cond_val', 'return_cond_grad'):
                        cmp('optimiser callback ' + nm, getattr(gp, nm)(g.buf), getattr(f, nm)(v.copy()), 1e12)
                nt |= changed
        elif op == 'optz':
            # an optimisation: its result is that of a fresh surrogate with the same history
            ok = [k for k, v in g.stored.items() if k < 7 and compatible(s, v[1])]
            if not ok:
                continue
            k = ok[p % len(ok)]
            f = optimiser(g.plain())
            f.init_optz_surr(8)
            f.load_data_surr(gp.export_data_surr(save2file=False))
            optimiser(gp).set_data(*g.given(arrays(s), False))
            r = []
            for q in (gp, f):
                try:
                    q.set_hpara('optz', k + 1)
                    r.append(True)
                except Exception:
                    r.append(False)
            if r[0] != r[1]:
                raise Violation('the optimisation %s, with a fresh surrogate it %s' % tuple('succeeds' if b else 'raises' for b in r))
            if r[0]:
                a, b = c11.fields(gp.hp_vals), c11.fields(f.hp_vals)
                if not all(np.allclose(a[q], b[q], rtol=1e-6, atol=0, equal_nan=True) for q in ('theta', 'kernel', 'var_fval', 'var_fgrad')):
                    la, lb = (f.calc_lkd_all(clone(f, h.hp_vals))[0].ln_lkd for h in (gp, f))
                    if not abs(la - lb) <= 1e-5 * (abs(lb) + s['n']):
                        raise Violation('optimised hyperparameters %r, with a fresh surrogate %r (likelihood %r, %r)' % (gp.hp_vals, f.hp_vals, la, lb))
                else:
                    cmp('optimised mean', a['beta'], b['beta'], 1e12)
                    cmp('optimised variance', a['varK'], b['varK'], 1e12)
                tags.append('optimised')
                nt |= changed
                g.stored.pop(k + 1, None)
                if s.get('wcname', s['wc']) not in RESCALE:
                    g.stored[k + 1] = (g.j, clone(gp, gp.hp_vals))
            if r[0] and s.get('wcname', s['wc']) not in RESCALE:
                g.ready = (g.j, clone(gp, gp.hp_vals))
            else:
                gp.set_data(*g.given(arrays(s), False))
                g.ready = None
            changed |= g.evals > 0
        elif op == 'store':
            hp = hp_for(gp, s, p)
            gp.store_new_para_surr(p, hp)
            g.stored[p] = (g.j, clone(gp, hp))
        elif op == 'stored':
            other = [k for k, v in g.stored.items() if not compatible(s, v[1])] if s.get('wcname', s['wc']) not in RESCALE else []
            if other:
                # hyperparameters saved with data of another kind of noise: as accepted (or refused) as when they are given
                k = other[p % len(other)]
                r, f = [], g.plain()
                for q, call in ((gp, lambda: gp.set_hpara('stored', k)), (f, lambda: f.set_hpara('set', 0, hp_vals=clone(f, g.stored[k][1])))):
                    try:
                        call()
                        r.append(True)
                    except Exception:
                        r.append(False)
                g.ready = (g.j, clone(gp, gp.hp_vals)) if r[0] else None
                if r[0] != r[1]:
                    raise Violation('stored hyperparameters saved with data of another noise kind are %s, given to a fresh surrogate they are %s' % tuple(
                        'accepted' if b else 'refused' for b in r))
                tags.append('stored of another noise kind')
                changed |= g.evals > 0
                continue
            ok = [k for k, v in g.stored.items() if v[0] == g.j]
            if not ok:
                continue
            k = ok[p % len(ok)]
            gp.set_hpara('stored', k)
            g.ready = (g.j, clone(gp, g.stored[k][1]))
            changed |= g.evals > 0
            ok = hp_same(g.ready[1], gp.hp_vals)
            g.ready = (g.j, clone(gp, gp.hp_vals))
            if not ok:
                raise Violation('stored hyperparameters of iteration %d are %r, expected %r' % (k, gp.hp_vals, g.stored[k][1]))
        elif op == 'bad':
            # a refused set_data must not leave an answer based on a mixture
            X, f, sf, gr, sg, bv = arrays(s)
            if p % 2:
                refused('data with a wrong number of noise values', lambda: gp.set_data(X, f, np.ones(s['n'] + 1), gr, sg, bv))
            else:
                refused('points with the wrong number of axes', lambda: gp.set_data(X[0], f, sf, gr, sg, bv))
            try:
                r = gp.eval_model(xt)
            except Exception:
                gp.set_data(X, f, sf, gr, sg, bv)
                g.ready = None
                continue
            if not g.valid():
                raise Violation('eval_model answered after set_data was refused, in a stale state')
            w = g.fresh(gp.hp_vals).eval_model(xt)
            cmp('mean after a refused set_data', r[0], w[0], 1e9)
        elif op == 'report':
            gp.get_txt_info_surr(False, False)
            gp.export_data_surr(save2file=False)
            gp.get_init_eval_data()
            gp.get_scl_eval_data()
    return bool(nt), sorted(set(tags)) + ['two=%s' % (len(gs) > 1)] + tags_of(c['S'][0][0])


def optimiser(gp):
    gp.optz_n_x0, gp.optz_iter_max, gp.hp_median_n_idx, gp.lkd_optz_start_mtd = 2, 8, 1, 'lhs'
    return gp


OPTIONS = [dict(cond_max_target=1e4), dict(cond_max_target=1e10), dict(cond_eta_is_const=False), dict(cond_eta_is_const=True),
           dict(cond_eta_set_mtd='Kbase_eta_w_dim'), dict(cond_eta_set_mtd='dflt_eta'), dict(lkd_varK_pnlt_use=True, lkd_varK_pnlt_c1=1.0, lkd_varK_pnlt_c2=0.05),
           dict(lkd_varK_pnlt_use=False)]


def s_const(c):
    return c.get('wcname', c['wc']) != 'rescale_eta_vary'


def compatible(s, hp):
    if (hp.var_fval is None) != (s['sf'] is not None):
        return False
    need = s['use_grad'] and s['sg'] is None
    return (hp.var_fgrad is not None) == bool(need)


def c_vec(s, hp):
    o = list(np.ravel(hp.theta))
    if s['kernel'] == 'RatQu':
        o.append(hp.kernel)
    if is_noisy(s):
        o.append(hp.varK)
    if s['sf'] is None:
        o.append(hp.var_fval)
    if s['use_grad'] and s['sg'] is None:
        o.append(hp.var_fgrad)
    return [float(np.squeeze(v)) for v in o]


BUDGET = {'quick': 55}
SUBS = [Sub('history', cases, o_history, quick=400, thorough=8000, weight=2.0),
        Sub('history_optz', lambda: cases(True), o_history, quick=80, thorough=1600)]
