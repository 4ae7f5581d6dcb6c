"""Ranking experiments (C09, C10, C11): candidates per target -> table of redrock.zfind."""
import os
import numpy as np
import fixtures
from common import quiet, guarded

LIGHT = 299792.458
BADBITS = 8 | 16 | 32 | 64 | 1024
CUNIT = 4            # chi2 in units of 1/4
GENERIC = ['zerr', 'coeff', 'zz', 'zzchi2', 'fitmethod', 'npixels', 'ncoeff', 'chi2', 'z']


def near_tie(ks, lims, U, rel=2e-4):
    """is any pair of redshifts so close to the velocity limit that rounding decides?"""
    for i in range(len(ks)):
        for j in range(len(ks)):
            if i != j:
                dv = LIGHT * abs(ks[j] - ks[i]) / (U + ks[i]); lim = 100 * min(lims[i], lims[j])
                if abs(dv - lim) < rel * lim + LIGHT * 1.01 / (U + ks[i]) * (0 if float(ks[i]).is_integer() and float(ks[j]).is_integer() else 1):
                    return True
    return False


def random_cands(rng, n, types, U=10000, ties=False):
    """candidate lists with clustered redshifts and close chi2"""
    out = []
    base = [rng.randrange(50, 25000) for _ in range(3)]
    for i in range(n):
        k = rng.choice(base) + rng.choice([0, 1, 2, 3, 5, 10, 20, 30, 33, 34, 35, 40, 60, 100, 400, -3, -10, -33, -35, -50])
        k = max(k, 0)
        chi = rng.choice([rng.randrange(0, 80), rng.randrange(0, 80), rng.randrange(0, 400), 100, 136, 135, 137])
        zw = rng.choice([0, 0, 0, 0, 0, 32, 1024, 1056, 8, 16, 64, 2048])
        out.append(dict(k=k, chi=chi, zw=zw, type=rng.choice(types)))
    return out


class Lab:
    """run zfind with prepared candidate lists per target and template (the fits are replaced by the prepared ones)"""

    def __init__(self, types):
        # types: list of (spectype, subtype)
        import redrock.zfind as zf
        self.zf = zf
        self.can_patch = hasattr(zf, 'fitz')
        self.types = types
        self.tmpl = [fixtures.template(s, u, 0.0, 0.3 + 0.05 * i, nz=4, nbasis={1: 13, 2: 11}.get(i, 1 + i % 3), seed=i) for i, (s, u) in enumerate(types)]
        for t in self.tmpl:
            assert t.template_type

    def run(self, cands, nmin, npix=None, mp_procs=1, meta=None):
        """cands: {targetid: {full_type: [cand]}}; each cand has k, chi, zw, U; returns the table, and per target the candidate list"""
        zf = self.zf
        fx = {}
        called = [0]

        def fake(zchi2, redshifts, target, template, nminima=3, *a, **kw):
            called[0] += 1
            cs = cands[target.id][template.full_type]
            n = len(cs)
            if n == 0:
                xfloat = np.zeros((0, 1), dtype=float); xint = np.zeros((0, 1), dtype=int); xstr = np.zeros((0, 1), dtype=str)
                return dict(z=xfloat, zerr=xfloat, zwarn=xint, chi2=xfloat, zz=xfloat, zzchi2=xfloat, coeff=xfloat, fitmethod=xstr, npixels=xint)
            nb = template.nbasis
            col = lambda f: np.array([[f(c)] for c in cs])
            return dict(z=col(lambda c: c['z']), zerr=col(lambda c: c['zerr']), zwarn=col(lambda c: c['zw']).astype(int),
                        chi2=col(lambda c: c['chi2']), zz=np.array([np.arange(5) + c['uid'] for c in cs], dtype=float),
                        zzchi2=np.array([np.arange(5) * 2.0 + c['uid'] for c in cs]),
                        coeff=np.array([np.arange(nb) + 10.0 * c['uid'] for c in cs], dtype=float),
                        fitmethod=col(lambda c: template.method), npixels=col(lambda c: c['npix']).astype(int))
        tg = []
        for tid in cands:
            t = fixtures.target(tid, self.tmpl[0], 0.1, nspec=1, seed=tid % 97, bands=('b',), coeff=[1.0] * self.tmpl[0].nbasis,
                                meta=dict(META=tid) if meta is None else meta)
            tg.append(t)
        from redrock.targets import DistTargetsCopy
        old = zf.fitz
        zf.fitz = fake
        try:
            with quiet():
                d = DistTargetsCopy(tg)
                dt = fixtures.disttemplates(self.tmpl, d)
                st, out = guarded(zf.zfind, d, dt, mp_procs=mp_procs, nminima=nmin)
        finally:
            zf.fitz = old
        return st, out, called[0]


def build(rng, lab, ids, nmin_choices=(1, 2, 3, 5), per=(0, 1, 2, 3, 5), U=10000, real_npix=None, ties=False):
    """random candidates for the targets; returns {tid: {ft: [cand]}}"""
    uid = 0
    res = {}
    for tid in ids:
        res[tid] = {}
        tot = 0
        used = set()
        base = [rng.randrange(50, 25000) for _ in range(3)]
        chi0 = rng.choice([0, 0, 0, 1 << 16, 1 << 26])      # spectra with very many pixels have a large chi2
        npix = rng.choice([0, 5, 9, 10, 11, 19, 20, 21, 29, 30, 31, 100, 100, 100])
        for t in lab.tmpl:
            n = rng.choice(per)
            if t is lab.tmpl[-1] and tot == 0:
                n = max(n, 1)
            cs = []
            for _ in range(n):
                uid += 1
                for _try in range(50):
                    k = max(0, rng.choice(base) + rng.choice([0, 1, 2, 3, 5, 10, 20, 30, 33, 34, 35, 40, 60, 100, 400, -3, -10, -33, -35, -50]))
                    chi = chi0 + rng.choice([rng.randrange(40, 120), rng.randrange(40, 400), 200, 236, 235, 237])
                    if ties or chi not in used:
                        break
                used.add(chi)
                zw = rng.choice([0, 0, 0, 0, 0, 32, 1024, 1056, 8, 16, 64, 2048])
                cs.append(dict(uid=uid, k=k, chi=chi, zw=zw, z=k / U, chi2=chi / CUNIT, zerr=uid * 1e-4, npix=npix, nco=t.nbasis,
                               type=t.template_type, sub=t.sub_type, lim=1 if t.template_type == 'STAR' else 10))
            # as fitz returns them: sorted by chi2
            cs.sort(key=lambda c: c['chi'])
            res[tid][t.full_type] = cs
            tot += n
    return res


def cols_of_cand(c, tmpl, maxn):
    nb = tmpl.nbasis
    coeff = list(np.arange(nb) + 10.0 * c['uid'])
    return [round(c['zerr'] * 1e4), round(c['z'] * 1e4), round(c['chi2'] * CUNIT), [int(x) for x in coeff],
            [int(x) for x in np.arange(5) + c['uid']], [int(x) for x in np.arange(5) * 2 + c['uid']], str(tmpl.method), c['npix'], c['nco']]


def num(x):
    try:
        f = float(x)
        return int(round(f)) if abs(f - round(f)) < 1e-6 * max(1, abs(f)) else str(f)
    except Exception:
        return str(x)


def cols_of_row(r):
    co = [num(x) for x in np.atleast_1d(r['coeff'])]
    while co and co[-1] == 0:
        co.pop()           # columns are padded to a common width
    return [num(r['zerr'] * 1e4), num(r['z'] * 1e4), num(r['chi2'] * CUNIT), co,
            [num(x) for x in r['zz']], [num(x) for x in r['zzchi2']], str(r['fitmethod']), int(r['npixels']), int(r['ncoeff'])]


def table_event(tid, cands, table, lab, nmin, maxn, U=10000):
    """one 'table' event for T_Rank, with prepared candidates"""
    byft = cands[tid]
    cl = []
    for t in lab.tmpl:
        for c in byft[t.full_type]:
            cl.append((c, t))
    uid2 = {c['uid']: i + 1 for i, (c, t) in enumerate(cl)}
    rows = []
    for r in table[table['targetid'] == tid]:
        u = int(round(float(r['zerr']) * 1e4))
        rows.append(dict(id=uid2.get(u, 0), cols=cols_of_row(r), type=str(r['spectype']), sub=str(r['subtype']), znum=int(r['znum']),
                         d=num(r['deltachi2'] * CUNIT), zw=int(r['zwarn'])))
    ev = dict(kind='table', outcome='ok', nmin=nmin, U=U, thr=9 * CUNIT, tol=0,
              cands=[dict(type=c['type'], sub=c['sub'], chi=c['chi'], k=c['k'], lim=c['lim'], zw=c['zw'], npix=c['npix'], nco=c['nco'],
                          cols=cols_of_cand(c, t, maxn)) for c, t in cl], rows=rows)
    return ev
