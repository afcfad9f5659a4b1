"""Self-test of the reference model (setup_cmd): the chain-rule formulas of lib/ref.py are compared with complex-step
differentiation of the scalar kernel definition, and RefGP with plain dense algebra."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import ref


def k0(kernel, x, y, th, al):
    s = np.sum(th * (x - y) ** 2)
    if kernel == 'SqExp':
        return np.exp(-s)
    if kernel == 'RatQu':
        return (1 + s / al) ** (-al)
    r = np.sqrt(5 * s)
    return (1 + r + r * r / 3) * np.exp(-r)


def main():
    rng = np.random.default_rng(0)
    h = 1e-30
    for kernel in ref.KERNELS:
        for d in (1, 2, 3):
            th = 10 ** rng.uniform(-1, 1, d)
            al = 1.7
            X, Y = rng.normal(size=(3, d)), rng.normal(size=(4, d))
            K = ref.kern(kernel, X, Y, th, al, True, True)
            n1, n2 = 3, 4
            for i in range(n1):
                for j in range(n2):
                    assert abs(K[i, j] - k0(kernel, X[i], Y[j], th, al)) < 1e-14
                    for a in range(d):
                        e = np.zeros(d, complex)
                        e[a] = 1j * h
                        g = k0(kernel, X[i] + e, Y[j], th, al).imag / h
                        assert abs(K[n1 + a * n1 + i, j] - g) < 1e-13, kernel
                        g = k0(kernel, X[i], Y[j] + e, th, al).imag / h
                        assert abs(K[i, n2 + a * n2 + j] - g) < 1e-13
                        for b in range(d):
                            # complex step in x of dk/dy_b
                            Xc = X[i:i + 1].astype(complex)
                            Xc[0, a] += 1j * h
                            kk = ref.kern(kernel, Xc, Y[j:j + 1], th, al, False, True)[0, 1 + b]
                            assert abs(K[n1 + a * n1 + i, n2 + b * n2 + j] - kk.imag / h) < 1e-12
            # masks select rows and columns
            b1, b2 = np.array([True, False, True]), np.array([False, True, False, True])
            Km = ref.kern(kernel, X, Y, th, al, True, True, b1, b2)
            r = list(range(n1)) + [n1 + a * n1 + i for a in range(d) for i in (0, 2)]
            c = list(range(n2)) + [n2 + a * n2 + i for a in range(d) for i in (1, 3)]
            assert np.array_equal(Km, K[np.ix_(r, c)])
            # Hessian
            H = ref.kern_hess(kernel, X[0], Y, th, al, True)
            for a in range(d):
                Xc = X[:1].astype(complex)
                Xc[0, a] += 1j * h
                G = ref.kern(kernel, Xc, Y, th, al, True, True).imag / h
                for b in range(d):
                    assert np.allclose(H[a, b], G[1 + b], rtol=1e-12, atol=1e-12), (kernel, a, b)
            # posterior against plain algebra
            g = rng.normal(size=(3, d))
            f = rng.normal(size=3)
            R = ref.RefGP(kernel, X, f, th, al, 2.0, 0.3, 1e-6, False, g)
            x = rng.normal(size=d)
            k = ref.kern(kernel, X, x[None], th, al, True, False)[:, 0]
            S = R.K + 1e-6 * np.eye(3 + 3 * d)
            assert abs(R.mean(x) - (0.3 + k @ np.linalg.solve(S, R.y - 0.3 * R.M))) < 1e-8
            assert abs(R.var_unit(x) - (1 - k @ np.linalg.solve(S, k))) < 1e-8
            F = R.full(x, True)
            e = 1e-5
            for a in range(d):
                u = np.eye(d)[a] * e
                p, m = R.full(x + u), R.full(x - u)
                assert abs((p['mu'] - m['mu']) / 2 / e - F['dmu'][a]) < 1e-6 * (1 + abs(F['dmu'][a]))
                assert abs((p['v'] - m['v']) / 2 / e - F['dv'][a]) < 1e-6 * (1 + abs(F['dv'][a]))
                assert np.allclose((p['dmu'] - m['dmu']) / 2 / e, F['d2mu'][a], rtol=1e-5, atol=1e-5)
                assert np.allclose((p['dv'] - m['dv']) / 2 / e, F['d2v'][a], rtol=1e-5, atol=1e-5)


def lkd_selftest():
    """Reference likelihood gradients against central differences of the reference likelihood."""
    import cases
    import lkd
    from harness import Skip
    rng = np.random.default_rng(5)
    cnt = 0
    for t in range(400):
        s = dict(kernel=cases.ALL_KERN[t % 3], d=int(rng.integers(1, 4)), n=int(rng.integers(2, 6)), use_grad=bool(rng.uniform() < 0.7),
                 wc=cases.ALL_WC[rng.integers(6)], noise=['none', 'known', 'unknown', 'mixed'][rng.integers(4)], seed=int(rng.integers(2 ** 31)),
                 style='float', cmax=[1e4, 1e6][rng.integers(2)], eta_mtd='Kbase_eta', eta_const=bool(rng.uniform() < 0.5), xs=1.0, fs=1.0, ll=0.5,
                 offset=0.0, bstyle=['none', 'random'][rng.integers(2)])
        c = cases.jl(cases.expand(s))
        pn = [None, dict(c1=1.0, c2=0.1, lb=0.1)][rng.integers(2)]
        try:
            L = lkd.Lkd(c, pnlt=pn)
            if L.cond > 1e6 or L.eta_rows()[1] < 1e-3:
                continue
        except Skip:
            continue
        for nm in lkd.hp_names(c):
            g = L.grad(nm)
            h = 1e-5
            vals = []
            for q in (-2, -1, 1, 2):
                sc = cases.scaled(c)
                fct = 1 + q * h
                if nm.startswith('theta'):
                    sc['th'] = sc['th'].copy()
                    sc['th'][int(nm[5:])] *= fct
                else:
                    sc[nm] = sc[nm] * fct
                    if nm == 'var_f':
                        sc['noise'][:c['n']] = sc[nm]
                    if nm == 'var_g':
                        sc['noise'][c['n']:] = sc[nm]
                try:
                    V = lkd.Lkd(c, sc, pn)
                except Skip:
                    break
                vals.append((V.lkd, V.logdet, V.beta, V.varK or 0.0))
            if len(vals) < 4:
                continue
            v = np.array(vals)
            fd = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
            for a, b, m in ((g['g'], fd[0], v[:, 0]), (g['dlogdet'], fd[1], v[:, 1]), (g['dbeta'], fd[2], v[:, 2]),
                            (g['dvarK'] or 0.0, fd[3], v[:, 3])):
                assert abs(a - b) < 1e-4 * (1 + abs(b)) + 1e-15 * L.cond / h * np.abs(m).max() + 1e-9 * L.cond, (nm, s, a, b)
            cnt += 1
    assert cnt > 200, cnt


if __name__ == '__main__':
    import harness
    harness.setup_path()
    main()
    lkd_selftest()
    print('reference model self-test passed')
