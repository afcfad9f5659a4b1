"""C17: text reports and files state the current settings and values; hyperparameter vectors map to the named values."""
import contextlib
import io
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from cases import structure, expand, jl, arr, arrays, new_gp, make_gp, scaled, hp_of, close, tags_of, kernels
from lkd import is_noisy
from harness import Sub, Violation, Skip

PROP = 'C17'
RULE = ('(report) surrogates of all configurations with random option values, histories of 0-5 stored iterations with gaps, optional '
        'optimisation data; full and partial reports, printed / returned / saved with backup, before and after data; every table cell and '
        'option line parsed and compared with a model of what was stored. (vector) all combinations of optimised hyperparameters and log '
        'options, vectors mapped to named values and values used by the likelihood. Non-trivial: at least two stored iterations with '
        'different values (report) / at least two kinds of hyperparameters (vector).')
ASSUMPTIONS = ['values printed with 5 significant digits', 'reports are asked for once the history was initialised']


@st.composite
def rep_cases(draw):
    c = jl(expand(draw(structure(dmax=5, nmax=6))))
    c['nmax'] = draw(st.integers(1, 7))
    I = st.integers(0, c['nmax'] - 1)
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(['store', 'store', 'store', 'report', 'save', 'data', 'option', 'finish']), I, st.integers(0, 9)),
                             min_size=2, max_size=12))
    c['name'] = draw(st.sampled_from(['obj_', 'nlc0_', 's']))
    c['first'] = draw(st.sampled_from(['data', 'data', 'report']))
    c['optk'] = draw(st.booleans())
    return c


OPTS = dict(optz_n_x0=[1, 5, 12], optz_iter_max=[250, 10], optz_tol_obj=[1e-12, 1e-6], optz_tol_x=[1e-12, 1e-8], optz_log_hp_theta=[True, False],
            optz_log_hp_var=[True, False], optz_log_hp_kernel=[True, False], lkd_optz_start_mtd=['hp_best', 'lhs'], lkd_hp_best_n_eval=[40, 7],
            lkd_varK_pnlt_use=[False, True], lkd_varK_pnlt_lb_var=[0.1, 3.5], lkd_varK_pnlt_c1=[1.0, 2.5], lkd_varK_pnlt_c2=[10.0, 0.5],
            hp_const_n_eval=[1, 4], hp_lhs_bound_factor=[1e3, 10.0], hp_box_bound_factor=[1e5, 1e4], hp_median_n_idx=[5, 2],
            hp_theta_init=[1e-2, 3.0], hp_varK_init=[1.0, 0.25], hp_var_fval_init=[0.0, 1e-3], hp_var_fgrad_init=[0.0, 2e-3],
            hp_theta_range=[[1e-18, 1e24], [1e-5, 1e6]], hp_varK_range=[[1e-24, 1e14], [1e-3, 1e3]], hp_var_fval_range=[[1e-8, 1e8], [1e-6, 1e2]],
            hp_var_fgrad_range=[[1e-8, 1e8], [1e-7, 1e3]], cond_eta_dflt=[1e-8, 1e-5], cond_dist_min_dflt=[1, 2.5], cond_dist_max_dflt=[1, 0.5],
            cond_vreq_max_iter=[3, 1], cond_vreq_iter_tol=[1e-1, 1e-3], cond_max_abs=[1e16, 1e14], cond_norm=[2, 'fro'])
SHOWN = ['dim', 'use_grad', 'wellcond_mtd', 'kernel_type', 'mean_fun_type', 'surr_name', 'b_has_noisy_data', 'b_optz_var_fval', 'b_optz_var_fgrad',
         'optz_mtd', 'cond_eta_set_mtd', 'cond_eta_is_const', 'cond_max_target', 'cond_max', 'hp_kernel_range', 'hp_kernel_init'] + sorted(OPTS)


def parse_options(txt):
    o = {}
    for ln in txt.splitlines():
        k, s, v = ln.partition('=')
        if s and k.strip().isidentifier():
            if k.strip() in o:
                raise Violation('option %s is stated twice' % k.strip())
            o[k.strip()] = v.strip()
    return o


def fnum(s):
    try:
        return float(s)
    except ValueError:
        return None


def same_val(shown, v):
    if isinstance(v, (list, tuple, np.ndarray)):
        p = shown.split(' - ')
        return len(p) == len(v) and all(same_val(a, b) for a, b in zip(p, v))
    if v is None or isinstance(v, (bool, str, np.bool_)):
        return shown == str(v)
    a = fnum(shown)
    if a is None:
        return False
    if np.isnan(v):
        return np.isnan(a)
    return abs(a - v) <= 0.051 * abs(v)


def check_options(gp, c, txt, has_data):
    o = parse_options(txt)
    for k in SHOWN:
        if k not in o:
            raise Violation('option %s is not in the report' % k)
        if not same_val(o[k], getattr(gp, k)):
            raise Violation('the report states %s = %s, it is %r' % (k, o[k], getattr(gp, k)))
    want = dict(dim=str(c['d']), use_grad=str(c['use_grad']), kernel_type=c['kernel'], wellcond_mtd=c['wc'], surr_name=c['name'])
    if has_data:
        want.update(b_has_noisy_data=str(bool(is_noisy(c))), b_optz_var_fval=str(c['sf'] is None),
                    b_optz_var_fgrad=str(bool(c['use_grad'] and c['sg'] is None)))
    for k, v in want.items():
        if o[k] != v:
            raise Violation('the report states %s = %s, expected %s' % (k, o[k], v))


def parse_table(txt, title):
    lines = txt.splitlines()
    idx = [i for i, l in enumerate(lines) if l.strip() == title]
    if len(idx) != 1:
        raise Violation('%d tables "%s" in the report' % (len(idx), title))
    rows = []
    for l in lines[idx[0] + 1:]:
        if not l.startswith('|'):
            break
        if l.startswith('|-'):
            continue
        rows.append([x.strip() for x in l.strip().strip('|').split('|')])
    if not rows:
        raise Violation('table "%s" is empty' % title)
    head, body = rows[0], rows[1:]
    return head, body


def check_table(txt, title, cols, n, need=()):
    head, body = parse_table(txt, title)
    if len(set(head)) != len(head):
        raise Violation('table "%s" has repeated headers %r' % (title, head))
    if len(body) != n:
        raise Violation('table "%s" has %d rows for %d iterations' % (title, len(body), n))
    if set(head) != set(cols):
        raise Violation('table "%s" has columns %r, expected %r' % (title, head, sorted(cols)))
    for j, h in enumerate(head):
        for i in range(n):
            v = cols[h][i]
            s = fnum(body[i][j])
            if s is None or not ((np.isnan(s) and np.isnan(v)) or abs(s - v) <= 6e-5 * abs(v)):
                raise Violation('table "%s", iteration %d, column "%s": %s, the value is %r' % (title, i, h, body[i][j], v))


def cols_of(rec, n, key):
    return [float(rec[i][key]) if i in rec and rec[i][key] is not None else np.nan for i in range(n)]


def check_report(gp, c, txt, rec, n, has_data):
    d = c['d']
    ix = list(range(n))
    th = [[rec[i]['theta'][k] if i in rec else np.nan for i in range(n)] for k in range(d)]
    S = {'': ix, 'Kernel': cols_of(rec, n, 'kernel'), 'Mu': cols_of(rec, n, 'beta'), 'varK': cols_of(rec, n, 'varK'),
         'varK / var_f': cols_of(rec, n, 'ratio')}
    if has_data and c['sf'] is None:
        S['hp var fun'] = cols_of(rec, n, 'var_f')
    if has_data and c['use_grad'] and c['sg'] is None:
        S['hp var grad'] = cols_of(rec, n, 'var_g')
    if d <= 3:
        for k in range(d):
            S['theta %d' % k] = th[k]
    else:
        T = np.array(th)
        S['theta min'], S['theta max'], S['theta median'] = T.min(0), T.max(0), np.median(T, axis=0)
    check_table(txt, 'Surrogate hyperparameters', S, n)
    check_table(txt, 'Surrogate hyperparameter theta', {'': ix, **{'th%d' % k: th[k] for k in range(d)}}, n)
    O = {'': ix, 'Time': cols_of(rec, n, 'time'), 'Success (%)': cols_of(rec, n, 'succ'), 'Mean i': cols_of(rec, n, 'imean'),
         'Max i': cols_of(rec, n, 'imax'), 'Con good %': cols_of(rec, n, 'good'), 'Cond': cols_of(rec, n, 'cond'),
         'At cond max?': [float(rec[i]['atmax']) if i in rec else 0.0 for i in range(n)]}
    check_table(txt, 'Surrogate optimization', O, n)


def o_report(c):
    with tempfile.TemporaryDirectory(prefix='vgp_c17_') as folder:
        path = os.path.join(folder, 'surr')
        gp = new_gp(c, path_data_surr=path, surr_name=c['name'])
        gp.b_optz_hp_kernel = c.get('optk', True)       # the value in use is reported whether or not it is optimised
        gp.init_optz_surr(c['nmax'])
        n, rec, data, nrep, saved, hist_fixed = c['nmax'], {}, False, 0, None, False
        X, f, sf, g, sg, bv = arrays(c)
        ops = [tuple(o) for o in c['ops']]
        ops = ([('data', 0, 0)] if c['first'] == 'data' else [('report', 0, 3), ('data', 0, 0)]) + ops + [('report', 0, 0)]
        for op, i, p in ops:
            if op == 'data':
                gp.set_data(X, f, sf, g, sg, bv)
                data = True
            elif op == 'option':
                k = sorted(OPTS)[(i * 10 + p) % len(OPTS)]
                setattr(gp, k, OPTS[k][1])
            elif op == 'finish':
                if not rec or p < 5:
                    continue
                n = max(rec) + 1
                gp.finish_optz_surr(n)
            elif op == 'store':
                if not data or i >= n:
                    continue
                hp = hp_of(gp, c)
                hp.theta = hp.theta * (1 + 0.37 * i + 0.11 * p)
                hp.beta = hp.beta * (1 - 0.2 * p) + p
                hp.varK = hp.varK * (1 + p)
                info = None
                r = rec.setdefault(i, dict(succ=None, imean=None, imax=None, good=None))
                if p % 2 and p != 7:
                    v = [0.5 + 0.05 * p, 3.0 + p, 10 + p, 1.0 / (1 + p)]
                    info = dict(optz_n_cho_fail=0, optz_n_cond2big=p, optz_max_init_cond=10.0 * p)
                    if p % 3:
                        info.update(hp_optz_success=v[0], hp_optz_iter_mean=v[1], hp_optz_iter_max=v[2], hp_optz_con_good=v[3])
                        r.update(succ=100 * v[0], imean=v[1], imax=v[2], good=100 * v[3])
                cond = [1.0, 12.5, gp.cond_max, 0.98 * gp.cond_max, 0.995 * gp.cond_max, 1e20, np.nan, 1e3, 3.3e7, 2.0][p]
                t = 0.25 * p
                if p == 7:
                    gp.store_new_para_surr(i, hp)
                    cond, t = np.nan, np.nan
                else:
                    gp.store_new_para_surr(i, hp, info, cond, t, t / 2, t / 4)
                vf = np.var(f)
                r.update(theta=np.ravel(hp.theta).copy(), beta=float(np.squeeze(hp.beta)), varK=float(np.squeeze(hp.varK)),
                         kernel=hp.kernel, var_f=hp.var_fval, var_g=hp.var_fgrad, cond=cond, time=t, atmax=bool(cond >= 0.99 * gp.cond_max))
                if vf > 0:
                    r['ratio'] = r['varK'] / vf
                else:
                    r.setdefault('ratio', None)
            elif op in ('report', 'save'):
                before = {q: np.array(getattr(gp, q)).copy() for q in ('hp_theta_all', 'hp_varK_all', 'hp_beta_all', 'Kcov_cond_all')}
                out = io.StringIO()
                prn, sav = bool(p & 1), op == 'save'
                if p >= 6:
                    gp.print_txt_data, gp.save_data_txt = prn, sav
                    args = () if p % 2 else (None, None)
                else:
                    args = (prn, sav)
                with contextlib.redirect_stdout(out):
                    txt = gp.get_txt_info_surr(*args)
                nrep += 1
                if bool(out.getvalue().strip()) != prn or (prn and out.getvalue().rstrip('\n') != txt.rstrip('\n')):
                    raise Violation('printed report (print2screen = %s) differs from the returned one' % prn)
                fs = sorted(os.listdir(folder))
                if sav:
                    with open(path + '.txt') as h:
                        if h.read() != txt:
                            raise Violation('the report saved in the file differs from the returned one')
                    if saved is not None:
                        with open(path + '_old.txt') as h:
                            if h.read() != saved:
                                raise Violation('the backup of the report is not the previous report')
                    saved = txt
                elif saved is None and fs:
                    raise Violation('files %r were written without saving' % fs)
                elif saved is not None and open(path + '.txt').read() != saved:
                    raise Violation('the file changed although the report is not saved')
                check_options(gp, c, txt, data)
                check_report(gp, c, txt, rec, n, data)
                for nm, t2 in (('options', gp.info_surr_options(False)), ('summary', gp.info_surr_summary(False)), ('theta', gp.info_surr_theta(False)),
                               ('optz', gp.info_surr_optz(False))):
                    if t2 not in txt:
                        raise Violation('info_surr_%s is not part of the report' % nm)
                for nm in ('options', 'summary', 'theta', 'optz', 'all_data'):
                    out2 = io.StringIO()
                    with contextlib.redirect_stdout(out2):
                        t3 = getattr(gp, 'info_surr_' + nm)()
                    if out2.getvalue().rstrip('\n') != t3.rstrip('\n') or t3 not in txt:
                        raise Violation('info_surr_%s prints something else than it returns' % nm)
                for q in before:
                    if not np.array_equal(before[q], getattr(gp, q), equal_nan=True):
                        raise Violation('the report modified %s' % q)
    return len(rec) > 1 and nrep > 0, tags_of(c) + ['stored=%d' % len(rec)]


# ------------------------------------------------------------------ vectors

@st.composite
def vec_cases(draw):
    c = jl(expand(draw(structure(dmax=5, nmax=5))))
    c['log'] = [draw(st.booleans()) for _ in range(3)]
    c['has'] = [draw(st.booleans()) for _ in range(5)]
    c['optk'] = draw(st.booleans())
    c['v'] = draw(st.lists(st.floats(-6, 3, allow_nan=False), min_size=14, max_size=14))
    return c


def o_vec(c):
    gp = new_gp(c)
    gp.optz_log_hp_theta, gp.optz_log_hp_var, gp.optz_log_hp_kernel = c['log']
    gp.b_optz_hp_kernel = c['optk']
    X, f, sf, g, sg, bv = arrays(c)
    gp.set_data(X, f, sf, g, sg, bv)
    d = c['d']
    noisy = bool(is_noisy(c))
    poss = dict(theta=True, kernel=c['kernel'] == 'RatQu', varK=noisy, var_fval=sf is None, var_fgrad=bool(c['use_grad'] and sg is None))
    # the layout used for the optimisation
    I = gp.hp_info_optz_lkd
    std = dict(poss, kernel=poss['kernel'] and c['optk'])
    for info, flags, what in ((I, std, 'optimised hyperparameters'), (None, dict(zip(poss, [a and b for a, b in zip(poss.values(), c['has'])])), 'chosen hyperparameters')):
        if info is None:
            info = gp.set_hp_optz_info(flags['theta'], flags['kernel'], flags['varK'], flags['var_fval'], flags['var_fgrad'])
        size = dict(theta=d, kernel=1, varK=1, var_fval=1, var_fgrad=1)
        lg = dict(theta=c['log'][0], varK=c['log'][1], var_fval=c['log'][1], var_fgrad=c['log'][1], kernel=c['log'][2])
        pos, want_idx, blog = 0, {}, []
        for k in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad'):
            if bool(getattr(info, 'has_' + k)) != bool(flags[k]):
                raise Violation('%s: has_%s = %r, expected %r' % (what, k, getattr(info, 'has_' + k), flags[k]))
            if flags[k]:
                want_idx[k] = list(range(pos, pos + size[k]))
                pos += size[k]
                blog += [lg[k]] * size[k]
            else:
                want_idx[k] = []
            if np.ravel(getattr(info, 'idx_' + k)).tolist() != want_idx[k]:
                raise Violation('%s: idx_%s = %r, expected %r' % (what, k, getattr(info, 'idx_' + k), want_idx[k]))
        if info.n_hp != pos:
            raise Violation('%s: n_hp = %r, expected %d' % (what, info.n_hp, pos))
        if np.ravel(info.bvec_log_optz).astype(bool).tolist() != blog:
            raise Violation('%s: bvec_log_optz = %r, expected %r' % (what, info.bvec_log_optz, blog))
        v = np.array(c['v'][:pos], float)
        v0 = v.copy()
        hp = gp.hp_vec2dataclass(info, v)
        if not np.array_equal(v, v0):
            raise Violation('hp_vec2dataclass modified its input')
        val = np.array([10 ** x if b else x for x, b in zip(v0, blog)])
        for k in want_idx:
            got = getattr(hp, k)
            if flags[k]:
                close('%s: %s' % (what, k), np.ravel(got), val[want_idx[k]], 1e-13, scale=np.abs(val[want_idx[k]]))
            elif k == 'kernel':
                dk = gp.hp_kernel_default
                if not (got is None and dk is None) and not (got is not None and dk is not None and float(got) == float(dk)):
                    raise Violation('%s: kernel = %r, expected the default %r' % (what, got, dk))
            elif got is not None:
                raise Violation('%s: %s = %r although it is not in the vector' % (what, k, got))
        if hp.beta is not None:
            raise Violation('%s: beta = %r' % (what, hp.beta))
        # the values do not depend on the vector afterwards
        snap = np.concatenate([np.ravel(np.array(getattr(hp, k), float)) for k in want_idx if flags[k]]) if pos else np.zeros(0)
        v += 1.0
        snap2 = np.concatenate([np.ravel(np.array(getattr(hp, k), float)) for k in want_idx if flags[k]]) if pos else np.zeros(0)
        if not np.array_equal(snap, snap2):
            raise Violation('%s: the named values changed with the vector' % what)
    kinds = sum(bool(x) for x in std.values())
    return kinds > 1, tags_of(c) + ['kinds=%d' % kinds]


SUBS = [Sub('report', rep_cases, o_report, quick=250, thorough=4000, weight=2),
        Sub('vector', vec_cases, o_vec, quick=500, thorough=10000)]
JIT = False
PY_LANES = 8
