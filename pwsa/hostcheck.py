"""Checks decided by abstract interpretation of the host-side API (modrun.py, loadprops.py)."""
import multiprocessing, os, time
from .report import Report, AnalysisBroken
from .gen import Prog
from .ir import IRError
from .absint import Broken, Interp
from .modrun import ModRun
from .loadprops import Checker

TRUST = ["clang's -O0 + mem2reg IR represents the source of /repo/pwart",
         "sljit's entry points used at load time do what sljitLir.h says (create, generate, free); the code they produce is the subject of P01-P10",
         "64-bit target; C library functions do what ISO C says; allocation may fail only where stated"]

_w = {}


def _one(k):
    R, pid, cases = _w['x']
    name, f = cases[k]
    C = Checker(R, pid)
    C.shape = name
    br = None
    now = time.monotonic()
    if now > _w['end']: return [], 0, 0, 0, '%s: time limit of the check' % name
    Interp.deadline = now + 60
    try: f(R, C)
    except Broken as e: br = '%s: %s' % (name, e)
    except RecursionError as e: br = '%s: recursion' % name
    return C.problems, C.ob, C.und, C.states, br


def analyse(r, R, pid, cases, limit=540):
    """runs the cases on all cores and reports what they find -> (results, cases not analysed)"""
    _w['x'] = (R, pid, cases)
    _w['end'] = time.monotonic() + limit
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_one, range(len(cases)), chunksize=max(1, len(cases) // 64))
    seen = {}
    broken = [x[4] for x in res if x[4]]
    for pr, *_ in res:
        for key, where, msg, shape in pr: seen.setdefault((key, where), []).append((shape, msg))
    for (key, where), l in sorted(seen.items()):
        l.sort(key=lambda x: len(x[0]))
        r.add(key, where, '%s; case "%s"%s' % (l[0][1][:600], l[0][0], ' and %d more' % (len(l) - 1) if len(l) > 1 else ''), detail=[x[0] for x in l[:200]])
    return res, broken


def run(pid, tier, families, floor, rule, notes=(), make=None):
    r = Report(pid, tier, 'other', 'abstract interpretation')
    r.assume = TRUST + list(notes)
    try:
        R = make() if make else ModRun(Prog())
        p = R.p
    except IRError as e:
        raise AnalysisBroken("cannot load /repo: %s" % e)
    cases = []
    for f in families: cases += list(f(tier))
    res, broken = analyse(r, R, pid, cases)
    ob = sum(x[1] for x in res)
    r.cov.update(cases=len(cases), obligations=ob, undecided=sum(x[2] for x in res), states=sum(x[3] for x in res),
                 not_analysed=len(broken), not_analysed_samples=broken[:5], functions=len(p.m.funcs),
                 samples=[cases[i][0] for i in sorted({0, len(cases) // 3, len(cases) // 2, len(cases) - 1})], rule=rule,
                 explanation='Abstract interpretation of the IR of /repo/pwart from the public entry points, with abstract module contents, host objects and heap; '
                             'every obligation compares an observable with the reference semantics of the description; a value that cannot be decided is counted and never reported.')
    if ob < floor and not r.items:
        r.finish()
        raise AnalysisBroken("only %d obligations could be decided (floor %d): %s" % (ob, floor, broken[:3]))
    return r.finish()
