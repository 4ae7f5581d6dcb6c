"""C09: ranking of the candidates of a target."""
import numpy as np
from common import main, quiet
import ranklab

MODEL = '''SPECIFICATION Spec
CONSTANTS Types = {%s} Chis = {%s} NMin = %d MaxCand = %d Warns = {%s}
INVARIANTS Ordered Distinct BestKept FirstIsBest GapSound
PROPERTY AllRanked
CHECK_DEADLOCK FALSE
'''


def models(ck):
    if ck.thorough:
        ck.model('Rank', MODEL % ('"G","S"', '1,5,20', 1, 4, '0,32'))
        ck.model('Rank', MODEL % ('"G","S"', '1,5,20', 2, 4, '0,1024'))
    else:
        ck.model('Rank', MODEL % ('"G","S"', '1,5,20', 1, 3, '0,32'))
        ck.model('Rank', MODEL % ('"G","S"', '1,5', 2, 3, '0,1024'))


TYPESETS = [[('GALAXY', ''), ('QSO', 'LOZ'), ('QSO', 'HIZ'), ('STAR', 'F'), ('STAR', 'K')],
            [('STAR', 'M'), ('STAR', 'CV'), ('STAR', 'WDDA')],
            [('GALAXY', '')],
            [('QSO', 'HIZ'), ('GALAXY', '')]]


def prepared(ck, nrounds, ties, mp=(1,)):
    """zfind with prepared candidates"""
    ev = []
    rng = ck.rng
    for ts in TYPESETS:
        lab = ranklab.Lab(ts)
        if not lab.can_patch:
            return ev
        maxn = max(t.nbasis for t in lab.tmpl)
        for rnd in range(nrounds):
            many = rnd % 3 == 2            # more candidates than usual are asked for
            ids = rng.sample(range(1, 10**6), 15 if many else 40)
            cands = ranklab.build(rng, lab, ids, ties=ties and rnd % 2 == 1, per=(0, 2, 5, 8, 11) if many else (0, 1, 2, 3, 5))
            nmin = rng.choice([6, 9, 14] if many else [1, 2, 3, 5])
            st, out, called = lab.run(cands, nmin, mp_procs=mp[rnd % len(mp)])
            if st != 'ok':
                ck.bad(f'zfind failed: {type(out).__name__}: {out}', {'types': ts, 'nminima': nmin})
                continue
            if called == 0 and mp[rnd % len(mp)] == 1:
                return []        # the fits are not reached through this name any more; the real runs judge
            table = out[1]
            for tid in ids:
                cs = [c for v in cands[tid].values() for c in v]
                if ranklab.near_tie([c['k'] for c in cs], [c['lim'] for c in cs], 10000):
                    continue
                ev.append(ranklab.table_event(tid, cands, table, lab, nmin, maxn))
    return ev


def check(ck):
    models(ck)
    ev = prepared(ck, 9 if ck.thorough else 3, ties=True, mp=(1, 1, 2))
    import realrank
    ev += realrank.events(ck, 6 if ck.thorough else 2)
    ck.sample(lambda: ev[0])
    ck.validate('T_Rank', ev)
    ck.assumptions += ['two candidates whose velocity distance equals the limit to within 2e-4 are not judged',
                       'prepared candidates replace the fits where redrock.zfind reaches them by name; the real runs replace nothing']


if __name__ == '__main__':
    main(check, 'C09')
