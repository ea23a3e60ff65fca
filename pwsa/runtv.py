"""Runs a fragment family through tv.TV on all cores."""
import multiprocessing as mp, os, time
from .gen import *
from .tv import TV, Finding
from .absint import Broken, Interp

LIMIT = 30         # seconds for a fragment
_end = 0
_T = None
_F = None


def _work(a):
    i, n = a
    out = []
    T = _T
    T.stats = {k: 0 for k in T.stats}; T.unk = {}
    T.h.used = {}
    outcomes = {}
    broken = []
    for j, (e, code, shape) in enumerate(_F):
        if j % n != i: continue
        now = time.monotonic()
        if now > _end: broken.append((shape, 'time limit of the check')); continue
        Interp.deadline = now + LIMIT
        try:
            fs, o = T.check(e, code, shape)
        except Broken as x:
            broken.append((shape, str(x))); continue
        for f in fs: out.append((f, o))
        outcomes[j] = o
    return out, T.stats, T.unk, dict(T.h.used), outcomes, broken


def run(prog, frs, maxvisit=2, procs=None, cls=TV, limit=540):
    """-> dict(findings, stats, unk, helpers, outcomes, broken)"""
    global _T, _F, _end
    _end = time.monotonic() + limit
    _F = list(frs)
    _T = cls(Gen(prog), maxvisit)
    procs = procs or min(8, os.cpu_count() or 1)
    n = procs * 6
    res = dict(findings=[], stats={k: 0 for k in _T.stats}, unk={}, helpers={}, outcomes={}, broken=[], nfrag=len(_F))
    if procs == 1:
        it = map(_work, [(i, n) for i in range(n)])
        pool = None
    else:
        pool = mp.get_context('fork').Pool(procs)
        it = pool.imap_unordered(_work, [(i, n) for i in range(n)])
    for out, st, unk, used, oc, br in it:
        for f, o in out:
            res['findings'].append(f)
        for k, v in st.items(): res['stats'][k] += v
        for k, v in unk.items(): res['unk'][str(k)] = res['unk'].get(str(k), 0) + v
        for k, v in used.items(): res['helpers'][str(k)] = res['helpers'].get(str(k), 0) + v
        res['outcomes'].update(oc)
        res['broken'] += br
    if pool: pool.close(); pool.join()
    res['shapes'] = [f[2] for f in _F]
    return res
