"""C11: the hyperparameter history and saved surrogates restore exactly (model-based histories)."""
import contextlib
import gc
import io
import itertools
import os
import resource
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, new_gp, scaled, tags_of, RESCALE, vreq
from post import eval_points
from harness import Sub, Violation, Skip
import c10

PROP = 'C11'
RULE = ('Histories of 2-4 iterations with growing data; at each one the hyperparameters are either set and stored or optimised. They are '
        'followed by random operations: select a stored iteration, modify the hyperparameters or results in use, export/import, save/load '
        'files (several times, shared file for two surrogates), truncate, store further iterations. Non-trivial: at least one operation '
        'restored an iteration that was not the current one and changed the predictions.')
ASSUMPTIONS = ['predictions after restoring must equal those at the time of storing to 1e-9 of their scale times the condition number over '
               '1e6 (the set-up is recomputed)']
JIT_SHARE = 0.4
NAMES = ('hp_beta_all', 'hp_varK_all', 'hp_var_fval_all', 'hp_var_fgrad_all', 'hp_theta_all', 'hp_kernel_all', 'min_nugget_all',
         'Kcov_cond_all', 'Kcov_cond_at_max_all', 'eta_Kbase_all', 'eta_Kgrad_all', 'vmin_init_all', 'vmin_req_grad_all',
         'xvec_rescaling_all', 'hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail_all',
         'optz_n_cond2big_all', 'optz_max_init_cond_all', 'time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all', 'var_fval',
         'varK_var_fval')
_cnt = itertools.count()


@st.composite
def cases(draw, optz=True):
    c = jl(expand(draw(structure(dmax=3, nmin=2, nmax=6, scales=(-1, 1), big=not optz))))
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4]) if optz else st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7]))
    c['stages'] = sorted(draw(st.lists(st.integers(1, c['n']), min_size=k, max_size=k)))
    modes = ['set', 'set', 'optz'] if optz else ['set']
    c['modes'] = [draw(st.sampled_from(modes)) for _ in range(k)]
    if optz:
        c['modes'][-1] = 'optz'
    if c['stages'][0] > 1:
        c['modes'][0] = 'set'
    c['cond_norm'], c['pnlt'], c['data'], c['start'], c['optk'], c['cmx'] = 2, None, 'plain', 'lhs', draw(st.booleans()), draw(st.sampled_from([1.0, 1.0, 30.0]))
    c['cv'] = [draw(st.sampled_from([None, 0.98, 0.995, 1.02])) for _ in range(7)]
    c['spare'] = draw(st.integers(0, 3))
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(['select', 'select', 'mutate', 'dict', 'file', 'finish', 'more', 'again', 'shared', 'fault']),
                                       st.integers(0, 7)), min_size=3, max_size=8))
    rng = np.random.default_rng(c['n'] * 100 + len(c['ops']))
    c['xt'] = jl(eval_points(c, rng, 4))
    return c


def make(c, path, name, nmax):
    gp = new_gp(c, path_data_surr=path, surr_name=name)
    gp.cond_max = min(gp.cond_max_abs, c['cmax'] * c.get('cmx', 1.0))
    gp.optz_n_x0 = 2
    gp.lkd_optz_start_mtd = 'lhs'
    gp.b_optz_hp_kernel = c['optk']
    gp.optz_iter_max = 15
    gp.init_optz_surr(nmax)
    return gp


def fields(hp):
    o = {}
    for k in ('beta', 'theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
        v = getattr(hp, k)
        o[k] = np.array([np.nan]) if v is None else np.array(v, float).ravel().copy()
    return o


def same_hp(what, a, b):
    for k in a:
        if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k], equal_nan=True):
            raise Violation('%s: %s = %r, was %r' % (what, k, b[k], a[k]))


def preds(gp, c):
    o = gp.eval_model(arr(c['xt']), calc_grad=True)[:4]
    return [np.array(v, float) for v in o]


def cond_of(gp):
    K = gp.KernEta
    w = np.linalg.eigvalsh(K / np.sqrt(np.outer(np.diag(K), np.diag(K))))
    return w[-1] / max(w[0], 1e-300)


def same_pred(what, a, b, cond):
    for nm, u, v in zip(('mean', 'standard deviation', 'gradient of the mean', 'gradient of the standard deviation'), a, b):
        if u.shape != v.shape:
            raise Violation('%s: shape of the %s' % (what, nm))
        if nm.startswith('grad') and 'dev' in nm:
            continue
        s = np.abs(u).max() + 1e-300
        if np.array_equal(u, v):
            continue
        if nm.startswith('standard'):
            u, v, s = u ** 2, v ** 2, s ** 2 + 1e-300
        if not np.all(np.abs(u - v) <= 1e-9 * max(1.0, cond / 1e6) * s):
            raise Violation('%s: %s is %r, was %r' % (what, nm, v.tolist(), u.tolist()))


def snapshot(gp):
    return {k: np.array(getattr(gp, k)).copy() for k in NAMES}


def same_hist(what, a, gp, k):
    for nm in NAMES:
        v = np.asarray(getattr(gp, nm))
        if not np.array_equal(a[nm][:k], v[:k], equal_nan=a[nm].dtype.kind == 'f'):
            raise Violation('%s: history %s is %r, was %r' % (what, nm, v[:k].tolist(), a[nm][:k].tolist()))


def new_hp(gp, s, i):
    from cases import hp_of
    sc = scaled(s)
    hp = hp_of(gp, s, sc)
    hp.theta = hp.theta * np.exp(0.3 * np.cos(1 + i + np.arange(s['d'])))
    hp.beta = hp.beta + 0.1 * (i + 1) * np.sqrt(hp.varK)
    hp.varK = hp.varK * (1 + 0.2 * i)
    if hp.kernel is not None:
        hp.kernel = hp.kernel * (1 + 0.1 * i)
    return hp


class M:
    """Model: what each iteration must restore to."""

    def __init__(self):
        self.it = []
        self.hist = None


def stage(gp, c, m, i, k, mode, again=False):
    s = c10.sub_case(c, k)
    c10.give(gp, s)
    before = snapshot(gp)
    if mode == 'set':
        hp = new_hp(gp, s, i + 3 * again)
        cv = (c.get('cv') or [None] * 7)[i % 7]
        cv = 12.5 + i if cv is None else cv * gp.cond_max
        gp.store_new_para_surr(i, hp, cond_val=cv, time_hp_optz=0.25 * i, time_chofac=1.0 + i, time_pick_hp0=0.5)
        gp.set_hpara('set', i, hp_vals=hp)
        recorded(gp, s, i, cv)
    else:
        gp.set_hpara('optz', i)
    if gp.KernEta_chofac is None:
        raise Skip()
    sv = np.array(gp.DataScl.xvec_scale, float) if s['wc'] in RESCALE else None
    it = dict(k=k, hp=fields(gp.hp_vals), pred=preds(gp, c), cond=cond_of(gp), sv=sv)
    m.it[i:i + 1] = [it]
    m.hist = snapshot(gp)
    for nm, a in before.items():
        b = m.hist[nm]
        if len(a) != len(b) or not np.array_equal(np.delete(a, i, 0), np.delete(b, i, 0), equal_nan=a.dtype.kind == 'f'):
            raise Violation('storing iteration %d changed other entries of %s: %r, was %r' % (i, nm, b.tolist(), a.tolist()))


def recorded(gp, s, i, cv):
    """What was given and what describes the data is what is recorded."""
    X = arr(s['X']).reshape(s['n'], s['d'])
    want = dict(Kcov_cond_all=cv, Kcov_cond_at_max_all=cv >= 0.99 * gp.cond_max, time_hp_optz_all=0.25 * i, time_chofac_all=1.0 + i, time_pick_hp0_all=0.5,
                var_fval=np.var(arr(s['f'])))
    if s['n'] > 1:
        want['vmin_init_all'] = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))[np.triu_indices(s['n'], 1)].min()
    if s['eta_const'] and s['wc'] != 'rescale_eta_vary' and gp.KernEta_chofac is not None:
        want['min_nugget_all'] = gp.etaK_eval
        want['eta_Kgrad_all' if s['use_grad'] else 'eta_Kbase_all'] = gp.etaK_eval
    if want['var_fval'] > 0:
        want['varK_var_fval'] = gp.hp_varK_all[i] / want['var_fval']
    if s['wc'] == 'rescale_origin':
        want['vmin_req_grad_all'] = vreq(s['n'], s['d'])
    for nm, v in want.items():
        a = getattr(gp, nm)[i]
        if a != v and not abs(a - v) <= 1e-11 * abs(v):
            raise Violation('recorded %s is %r, expected %r' % (nm, a, v))
    if s['wc'] in RESCALE and not np.array_equal(gp.xvec_rescaling_all[i], np.asarray(gp.DataScl.xvec_scale)):
        raise Violation('recorded scales of the coordinates %r, in use %r' % (gp.xvec_rescaling_all[i].tolist(), np.asarray(gp.DataScl.xvec_scale).tolist()))


def select(gp, c, m, i, what):
    it = m.it[i]
    c10.give(gp, c10.sub_case(c, it['k']))
    gp.set_hpara('stored', i)
    same_hp('%s (iteration %d)' % (what, i), it['hp'], fields(gp.hp_vals))
    if it['sv'] is not None and not np.allclose(np.asarray(gp.DataScl.xvec_scale, float), it['sv'], rtol=1e-12, atol=0):
        raise Violation('%s (iteration %d): scales of the coordinates %r, were %r' % (what, i, gp.DataScl.xvec_scale, it['sv']))
    same_pred('%s (iteration %d)' % (what, i), it['pred'], preds(gp, c), it['cond'])


def loaded_equal(what, d, m, name, k):
    for nm in NAMES:
        v = np.asarray(d[name + nm])
        a = m.hist[nm]
        if v.shape[0] < k or not np.array_equal(v[:k], a[:k], equal_nan=a.dtype.kind == 'f'):
            raise Violation('%s: %s%s is %r, expected %r' % (what, name, nm, v.tolist(), a[:k].tolist()))


def read(path):
    with np.load(path) as z:
        return {k: z[k] for k in z.files}


@contextlib.contextmanager
def full_disk(size):
    """Inside, writing to a file beyond the given number of bytes fails with OSError (EFBIG)."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
        try:
            yield
        finally:
            gc.collect()
            resource.setrlimit(resource.RLIMIT_FSIZE, old)


def save_faults(gp, c, m, base, p):
    """Saves that fail after some bytes: the last history that was completely saved can still be loaded, and a later save succeeds."""
    f, fo = base + '_f.npz', base + '_fo.npz'
    n_it = len(m.it)
    if p % 3 or not os.path.isfile(f):
        gp.export_data_surr(file2save=f, file2save_old=fo)
    have = read(f)
    size = os.path.getsize(f)
    gp.hp_varK_all[0] += 1.0                                     # the next saves differ from the complete one
    for i in range(1 + p % 3):
        lim = [0, 1, 100, size // 3, size // 2, (9 * size) // 10, size - 40][(p + 3 * i) % 7]
        failed = False
        try:
            with full_disk(lim):
                gp.export_data_surr(file2save=f, file2save_old=fo)
        except OSError:
            failed = True
        if not failed:
            have = read(f)                                           # the history now needs less room than the file had
        for q in (f, fo):
            try:
                d = read(q)
            except Exception:
                continue
            if set(d) == set(have) and all(np.array_equal(d[k], have[k], equal_nan=have[k].dtype.kind == 'f') for k in have):
                break
        else:
            raise Violation('after %d failed saves neither the file nor its backup has the history that was saved before' % (i + 1))
    gp.hp_varK_all[0] = m.hist['hp_varK_all'][0]
    gp.export_data_surr(file2save=f, file2save_old=fo)
    loaded_equal('file saved after failed saves', read(f), m, 'obj_', n_it)


def o_history(c):
    base = os.path.join(os.getcwd(), 'h%d_%d' % (os.getpid(), next(_cnt)))
    try:
        return _history(c, base)
    finally:
        for f in os.listdir(os.getcwd()):
            if f.startswith(os.path.basename(base)):
                os.remove(os.path.join(os.getcwd(), f))


def _history(c, base):
    K = len(c['stages'])
    gp = make(c, base + '_a', 'obj_', K + c['spare'])
    m = M()
    moved = False
    snaps = []
    for i, (k, mode) in enumerate(zip(c['stages'], c['modes'])):
        stage(gp, c, m, i, k, mode)
        if i == 0:
            d = gp.export_data_surr(save2file=False)
            snaps.append((d, {q: np.array(v).copy() for q, v in d.items()}))
    cur = K - 1
    saved = None
    for op, p in c['ops']:
        n_it = len(m.it)
        if op == 'select':
            i = p % n_it
            select(gp, c, m, i, 'selecting stored hyperparameters')
            moved |= i != cur
            cur = i
        elif op == 'mutate':
            hp = gp.hp_vals
            if p % 2 == 0:
                hp.theta[...] = hp.theta * 3
                hp.beta[...] = hp.beta + 1.0
            hp.varK = hp.varK * 2
            if gp.b_use_data_scl:
                gp.DataScl.set_xscale_data(xvec_scale_in=np.full(c['d'], 0.37))
            same_hist('after modifying the hyperparameters in use', m.hist, gp, n_it)
        elif op == 'dict':
            d = gp.export_data_surr(save2file=False)
            loaded_equal('exported history', d, m, 'obj_', n_it)
            g2 = make(c, base + '_b', 'obj_', len(gp.hp_varK_all) + p % 3)
            g2.load_data_surr(d)
            same_hist('after importing', m.hist, g2, n_it)
            for i in range(n_it):
                select(g2, c, m, i, 'imported history')
            moved = True
            snaps.append((d, {q: np.array(v).copy() for q, v in d.items()}))
            gp = g2
            cur = n_it - 1
            saved = None
        elif op == 'file':
            if p % 2:
                f, fo = None, None
                path, old = gp.path_surr_npz, gp.path_surr_old_npz
            else:
                f, fo = base + '_x.npz', base + '_xo.npz'
                path, old = f, fo
            before = read(path) if os.path.isfile(path) else None
            gp.export_data_surr(file2save=f, file2save_old=fo)
            if before is not None:
                kept = read(old)
                if set(kept) != set(before) or not all(np.array_equal(kept[q], before[q], equal_nan=before[q].dtype.kind == 'f') for q in before):
                    raise Violation('the previous file was not kept as %s' % os.path.basename(old))
            loaded_equal('saved file', read(path), m, 'obj_', n_it)
            g2 = make(c, gp.path_data_surr, 'obj_', len(gp.hp_varK_all))
            g2.load_data_surr(None if f is None else np.load(f))
            same_hist('after loading from a file', m.hist, g2, n_it)
            for i in range(n_it):
                select(g2, c, m, i, 'history loaded from a file')
            moved = True
        elif op == 'finish':
            gp.finish_optz_surr(n_it)
            for nm in NAMES:
                if len(getattr(gp, nm)) != n_it:
                    raise Violation('%s has %d entries after finishing with %d' % (nm, len(getattr(gp, nm)), n_it))
            same_hist('after finishing', m.hist, gp, n_it)
        elif op == 'fault':
            save_faults(gp, c, m, base, p)
        elif op == 'more':
            if n_it < len(gp.hp_varK_all) and n_it < 7:
                old = m.hist
                stage(gp, c, m, n_it, m.it[-1]['k'], 'set')
                same_hist('after a further iteration', old, gp, n_it)
                cur = n_it
        elif op == 'again':
            # an iteration is done again with other data: its entries are those of the new one
            i = p % n_it
            stage(gp, c, m, i, m.it[(p * 3 + 1) % n_it]['k'], 'set', True)
            cur = i
        else:
            # second surrogate stored in the same file under another name
            g2 = make(c, base + '_c', 'con_', 2)
            m2 = M()
            stage(g2, c, m2, 0, c['stages'][0], 'set')
            d = gp.export_data_surr(save2file=False)
            d2 = g2.export_data_surr(save2file=False)
            if set(d) & set(d2):
                raise Violation('two surrogates share the names %s' % sorted(set(d) & set(d2)))
            path = base + '_s.npz'
            gp.save_npz_data(dict(d, **d2), path, base + '_so.npz')
            ga, gb = make(c, base + '_s', 'obj_', len(gp.hp_varK_all)), make(c, base + '_s', 'con_', 2)
            ga.load_data_surr()
            gb.load_data_surr()
            same_hist('after loading from a shared file', m.hist, ga, n_it)
            same_hist('after loading from a shared file', m2.hist, gb, 1)
            select(gb, c, m2, 0, 'second surrogate of a shared file')
            select(ga, c, m, p % n_it, 'first surrogate of a shared file')
    for d, v in snaps:
        for q in v:
            if not np.array_equal(d[q], v[q], equal_nan=v[q].dtype.kind == 'f'):
                raise Violation('exported %s was changed by later calls: %r, was %r' % (q, d[q].tolist(), v[q].tolist()))
    same_hist('at the end', m.hist, gp, len(m.it))
    return bool(moved), tags_of(c) + ['op=' + o for o, _ in c['ops']] + ['optz=%s' % ('optz' in c['modes'])]


SUBS = [Sub('history', lambda: cases(False), o_history, quick=120, thorough=3000, weight=1.0),
        Sub('history_optz', cases, o_history, quick=50, thorough=1200, weight=2.0)]
