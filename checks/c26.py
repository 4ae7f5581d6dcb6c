"""C26: the scan is the weighted least-squares optimum at every redshift."""
import itertools, types
from fractions import Fraction
import numpy as np, scipy.sparse
from common import main, quiet, guarded

MODEL = ('CONSTANTS\n TV = {%s}\n FV = {%s}\n WV = {0,1,2}\n NonNeg = %s\n Normal = %s\n Clip = %s\n Unweighted = %s\n'
         'SPECIFICATION Spec\nINVARIANTS Optimal Masked Terminates\nCHECK_DEADLOCK FALSE\n')
HUGE = 9999999.0


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    return sum((-1)**j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def spectra(rng, nb, nz, dup=False, zerocol=False, shared=False):
    """one target: spectra with template values per redshift"""
    out = []
    for s in range(rng.randint(1, 3)):
        n = rng.randint(2, 4)
        R = [[0] * n for _ in range(n)]
        for i in range(n):
            R[i][i] = 1
        if rng.random() < 0.4:
            for i in range(n):
                for j in range(max(0, i - 1), min(n, i + 2)):
                    R[i][j] = rng.randint(0, 1) if i != j else 1
        T = [[[rng.choice([0, 0, 1, 1, 2]) for _ in range(nb)] for _ in range(n)] for _ in range(nz)]
        for z in range(nz):
            for row in T[z]:
                if dup and nb > 1:
                    row[1] = row[0]
                if zerocol:
                    row[-1] = 0
        w = [rng.choice([0, 1, 1, 2]) for _ in range(n)]; f = [rng.randint(-3, 5) for _ in range(n)]
        out.append(dict(R=R, T=T, w=w, f=f))
    if shared and len(out) > 1:
        # a second exposure of the first spectrum: same grid, same templates
        a = out[0]; n = len(a['f'])
        out[1] = dict(R=[list(r) for r in a['R']], T=a['T'], w=[rng.choice([0, 1, 2]) for _ in range(n)], f=[rng.randint(-3, 5) for _ in range(n)])
    return out


def matvec(A, x):
    return [sum(a * b for a, b in zip(r, x)) for r in A]


def inverse(U):
    """of a unit upper triangular integer matrix"""
    n = len(U); X = [[int(i == j) for j in range(n)] for i in range(n)]
    for j in range(n):
        for i in range(n - 1, -1, -1):
            X[i][j] = int(i == j) - sum(U[i][k] * X[k][j] for k in range(i + 1, n))
    return X


def many(rng, bounded):
    """four to six basis vectors with whole coefficients: T is unimodular, so every system has integers as its solution"""
    nb = rng.randint(4, 6)
    U = [[1 if i == j else rng.choice([-1, 0, 0, 1]) if j > i else 0 for j in range(nb)] for i in range(nb)]
    Ui = inverse(U); t = lambda A: [list(r) for r in zip(*A)]
    c = [rng.randint(0, 4) if b in bounded and rng.random() < 0.6 else 0 if b in bounded else rng.randint(-4, 4) for b in range(1, nb + 1)]
    # normal equations M c = y + r, where M r = h is positive for the coefficients at their bound: these c are the answer
    h = [rng.randint(0, 2) if b in bounded and c[b - 1] == 0 else 0 for b in range(1, nb + 1)]
    inv = lambda v: matvec(Ui, matvec(t(Ui), v))
    if rng.random() < 0.5 and bounded:                  # also the lowest chi-squared
        g = [0] * nb; r = g
    else:
        r = inv(h)
    f = [a - b for a, b in zip(matvec(U, c), matvec(t(Ui), r))]
    order = list(range(nb)); rng.shuffle(order)
    T = [U[i] for i in order] + [[rng.randint(0, 2) for _ in range(nb)]]
    w = [1] * nb + [0]; f = [f[i] for i in order] + [rng.randint(-3, 5)]
    k = rng.randint(2, nb - 1); out = []
    for a, b in ((0, k), (k, nb + 1)):
        n = b - a
        out.append(dict(R=[[int(i == j) for j in range(n)] for i in range(n)], T=[T[a:b]], w=w[a:b], f=f[a:b]))
    return out, nb


def at(sp, z):
    return [dict(R=s['R'], T=s['T'][z], w=s['w'], f=[f if w else 0 for f, w in zip(s['f'], s['w'])]) for s in sp]


def system(d, P):
    nb = len(d[0]['T'][0]); M = [list(r) for r in P]; y = [0] * nb
    for s in d:
        n = len(s['w'])
        A = [[sum(s['R'][i][j] * s['T'][j][b] for j in range(n)) for b in range(nb)] for i in range(n)]
        for i in range(n):
            for a in range(nb):
                y[a] += s['w'][i] * A[i][a] * s['f'][i]
                for b in range(nb):
                    M[a][b] += s['w'][i] * A[i][a] * A[i][b]
    return M, y


def obvious(M):
    return any(not any(r) for r in M) or any(M[a] == M[b] for a in range(len(M)) for b in range(a))


def tame(d, P, bounded):
    """are the rational numbers of this system small enough to be recognised?"""
    M, y = system(d, P); nb = len(y)
    if max(max(r) for r in M) > 60:
        return False
    for k in range(1, nb + 1):
        for S in itertools.combinations(range(nb), k):
            if not bounded and k < nb:
                continue
            if abs(det([[M[a][b] for b in S] for a in S])) > 2000:
                return False
            if bounded and abs(det([[sum(M[c][a] * M[c][b] for c in range(nb)) for b in S] for a in S])) > 2000:
                return False
    if det(M) == 0 and not obvious(M) and any(map(any, M)):
        return False        # rounding decides whether such a system is noticed
    if det(M) == 0 and nb == 3:
        return bounded is None or sum(1 for r in M if any(r)) <= 2       # a singular system with a simple solution
    return True


def rational(c, limit=2000):
    fr = [Fraction(float(x)).limit_denominator(limit) if np.isfinite(x) and abs(x) < 1e6 else Fraction(0) for x in c]
    N = 1
    for f in fr:
        N = N * f.denominator // np.gcd(N, f.denominator)
        N = int(N)
    cn = [int(f * N) for f in fr]
    near = bool(all(np.isfinite(x) and abs(x - a / N) < 1e-7 * max(1, abs(x)) for x, a in zip(c, cn))) and N <= 4 * limit
    if not near:
        N, cn = 1, [0] * len(fr)
    return cn, N, near


def event(d, P, method, bounded, chi2, c, whole=True, chi=True, oii=(), pen=0.0):
    cn, N, near = rational(c)
    e = dict(kind='fit', done=True, d=d, P=P, method=method, bounded=list(bounded), cn=cn, N=N, near=near, whole=whole, chi=chi, huge=bool(chi and chi2 == HUGE), zero=bool(np.all(np.asarray(c) == 0)),
             x1=0, x2=0, xnear=True, oii=list(oii), pen=0)
    if chi and not e['huge']:
        if np.isfinite(chi2) and abs(chi2) * N * N < 1e9:
            e['x1'] = int(round(chi2 * N)); e['x2'] = int(round(chi2 * N * N))
            x = chi2 * N * N if N <= 300 else chi2 * N
            e['xnear'] = bool(abs(x - round(x)) < 1e-3)
        else:
            e['xnear'] = False
    if oii:
        e['pen'] = int(round(pen * N)) if abs(pen * N - round(pen * N)) < 1e-3 else -1
    return e


def units(M, rng):
    """powers of two as units of weights and flux: the numbers are as exact as without"""
    if M == 'BVLS' or rng.random() < 0.5:
        return 1., 1.
    return 2.**(rng.choice([-40, -24, 20]) if M == 'PCA' else rng.choice([-24, 10])), 2.**rng.choice([-8, 0, 12])


def plain(chi2, u):
    return chi2 if chi2 == HUGE else chi2 / (u[0] * u[1]**2)


def real_spectra(sp, rng, shared=False, csr=False, u=(1., 1.)):
    from redrock.targets import Spectrum
    out = []
    for k, s in enumerate(sp):
        n = len(s['w']); lo = 4000. + (0 if shared and k == 1 else 500 * k)
        f = np.array([float(x) * u[1] if w else rng.choice([0., 1e3, -1e5, 1e30, -3e38]) for x, w in zip(s['f'], s['w'])])
        R = scipy.sparse.dia_matrix(np.array(s['R'], dtype=float)) if not csr else scipy.sparse.csr_matrix(np.array(s['R'], dtype=float))
        out.append(Spectrum(np.linspace(lo, lo + 10 * n, n), f, np.array(s['w'], dtype=float) * u[0], R))
    return out


def check(ck):
    from redrock.zscan import calc_zchi2_batch, calc_zchi2_one, spectral_data, solve_matrices, calc_zchi2
    from redrock.templates import Template, DistTemplate
    from redrock.targets import Target
    rng = ck.rng
    f = 'FALSE'
    small = ('0,1,2', '0,1,3') if ck.thorough else ('0,1,2', '0,3')
    ck.model('LeastSq', MODEL % (*small, 'TRUE', f, f, f))
    ck.model('LeastSq', MODEL % (*small, f, f, f, f))
    ck.expect_violation('LeastSq', MODEL % ('0,1,2', '0,3', 'TRUE', 'TRUE', f, f), 'Optimal is violated')
    ck.expect_violation('LeastSq', MODEL % ('0,1,2', '0,3', 'TRUE', f, 'TRUE', f), 'Optimal is violated')
    ck.expect_violation('LeastSq', MODEL % ('0,1,2', '0,3', f, f, f, 'TRUE'), 'is violated')
    ev = []; kinds = {}
    target = 4000 if ck.thorough else 900
    while len(ev) < target:
        nb = rng.choice([1, 2, 2, 2, 3]); nz = rng.choice([1, 2, 4]); shared = rng.random() < 0.3
        method = rng.choice(['PCA', 'PCA', 'NMF', 'NNLS', 'BVLS', 'pca', 'nmf'])
        more = rng.random() < 0.12
        if more:
            method = rng.choice(['PCA', 'NMF', 'NMF', 'NNLS']); nz = 1; shared = False
            sp, nb = many(rng, range(1, 7) if method != 'PCA' else ())
        else:
          sp = spectra(rng, nb, nz, dup=rng.random() < 0.08, zerocol=rng.random() < 0.08, shared=shared)
        if rng.random() < 0.06 and not more:
            for s in sp:
                s['w'] = [0] * len(s['w'])
        P = [[0] * nb for _ in range(nb)]
        form = rng.choice(['batch', 'batch', 'one', 'solve', 'scan'])
        if rng.random() < 0.3 and form == 'batch' and not more:
            for b in range(nb):
                P[b][b] = rng.randint(0, 3)
        M = method.upper()
        bounded = list(range(1, nb + 1)) if M in ('NMF', 'NNLS') else []
        args = None
        if M == 'BVLS' and form in ('batch', 'solve') and rng.random() < 0.6:
            k = rng.randint(1, nb); bounded = list(range(1, k + 1))
            bd = np.zeros((2, nb)); bd[0] = [0.] * k + [-np.inf] * (nb - k); bd[1] = np.inf
            args = dict(bounds=bd)
        if form == 'scan':
            if M not in ('PCA', 'NMF') or method != M:
                continue
        if more and form == 'scan':
            form = 'batch'
        if not more and not all(tame(at(sp, z), P, bounded if M != 'PCA' else None) for z in range(nz)):
            continue
        if M == 'BVLS' and any(det(system(at(sp, z), P)[0]) == 0 for z in range(nz)):
            continue
        kinds[form + ':' + M] = kinds.get(form + ':' + M, 0) + 1
        csr = rng.random() < 0.3
        u = units(M, rng) if not any(map(any, P)) and form != 'solve' else (1., 1.)
        S = real_spectra(sp, rng, shared, csr, u)
        if u != (1., 1.):
            kinds['units'] = kinds.get('units', 0) + 1
        w, fl, wf = spectral_data(S)
        tdata = {}
        order = list(range(len(S)))
        if rng.random() < 0.5:
            rng.shuffle(order)
        for k in order:
            tdata[S[k].wavehash] = np.array(sp[k]['T'], dtype=float)
        if rng.random() < 0.3:
            tdata[12345] = np.ones((nz, 3, nb))          # a grid of other targets
        if form == 'batch':
            with quiet():
                k, r = guarded(calc_zchi2_batch, S, tdata, w, fl, wf, nz, nb, solve_matrices_algorithm=method, **({'solver_args': args} if args else {}), **({'prior': np.array(P, dtype=float)} if any(map(any, P)) else {}))
            for z in range(nz):
                ev.append(event(at(sp, z), P, M, bounded, plain(float(r[0][z]), u), np.array(r[1][z]) / u[1]) if k == 'ok' else dict(kind='fit', done=False, form=form, error=repr(r)[:300]))
        elif form == 'one':
            z = rng.randrange(nz)
            with quiet():
                k, r = guarded(calc_zchi2_one, S, w, fl, wf, {h: t[z] for h, t in tdata.items()}, method)
            e = event(at(sp, z), P, M, bounded, plain(float(r[0]), u), np.array(r[1]) / u[1], whole=M == 'PCA') if k == 'ok' else dict(kind='fit', done=False, form=form, error=repr(r)[:300])
            ev.append(e)
        elif form == 'solve':
            z = rng.randrange(nz); m, y = system(at(sp, z), P)
            if det(m) == 0 and M != 'PCA':
                continue
            with quiet():
                k, r = guarded(solve_matrices, np.array(m, dtype=float), np.array(y, dtype=float), solve_algorithm=method, solver_args=args)
            if det(m) == 0:
                ck.ok(k == 'error' and isinstance(r, np.linalg.LinAlgError), 'a singular system is reported by the solver', dict(M=m))
                continue
            ev.append(event(at(sp, z), P, M, bounded, 0.0, np.array(r), chi=False) if k == 'ok' else dict(kind='fit', done=False, form=form, error=repr(r)[:300]))
        else:
            # a whole scan of one or two targets with a template object
            oii = [rng.randint(-3, 3) for _ in range(nb)]
            wave = np.arange(900., 9000., 10.); flux = np.zeros((nb, len(wave)))
            i = np.where((wave >= 3724) & (wave <= 3733))[0]
            flux[:, i[0]] = oii; flux[:, i[0] - 2] = 50; flux[:, i[0] + 3] = -70
            kind = rng.choice(['GALAXY', 'QSO'])
            with quiet():
                t = Template(spectype=kind, subtype='', redshifts=np.linspace(0, 0.1, nz), wave=wave, flux=flux, igm_model='None', method=M, version='t')
                dt = DistTemplate(t, {s.wavehash: s.wave for s in S})
                for s, a in zip(S, sp):
                    dt.local.data[s.wavehash][...] = np.array(a['T'], dtype=float)
                other = [Target(8, real_spectra([dict(a, f=[x + 1 for x in a['f']]) for a in sp], rng, shared, csr, u))] if rng.random() < 0.5 else []
                pos = rng.randrange(2) if other else 0
                tg = other[:pos] + [Target(9, S)] + other[pos:]
                k, r = guarded(calc_zchi2, [x.id for x in tg], tg, dt)
            asked = kind == 'GALAXY' and M == 'PCA'
            for z in range(nz):
                if k == 'ok':
                    e = event(at(sp, z), P, M, bounded, plain(float(r[0][pos][z]), u), np.array(r[1][pos][z]) / u[1], oii=oii if asked else (), pen=float(r[2][pos][z]) / u[1])
                    if not asked:
                        ck.ok(float(r[2][pos][z]) == 0, 'no penalty for other templates', dict(kind=kind, method=M))
                else:
                    e = dict(kind='fit', done=False, form=form, error=repr(r)[:300])
                ev.append(e)
    for m in ('XYZ', '', 'QR'):
        k, r = guarded(solve_matrices, np.eye(2), np.ones(2), solve_algorithm=m)
        ev.append(dict(kind='unknown', refused=k == 'error' and isinstance(r, NotImplementedError)))
        with quiet():
            k, r = guarded(Template, spectype='STAR', subtype='', redshifts=np.array([0., 0.1]), wave=np.arange(10.), flux=np.ones((2, 10)), igm_model='None', method=m, version='t')
        ev.append(dict(kind='unknown', refused=k == 'error' and isinstance(r, ValueError)))
    ck.extra['calls'] = kinds
    ck.sample(lambda: ev[0])
    ck.validate('T_LeastSq', ev)
    ck.assumptions += ['CPU code only', 'small integer systems with rational solutions', 'pixels without weight hold any single precision value']


if __name__ == '__main__':
    main(check, 'C26', 'model_checking')
