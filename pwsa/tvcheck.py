"""Checks decided by validating the translation of fragment families (tv.py)."""
from .report import Report, AnalysisBroken
from . import frags, runtv
from .gen import Prog
from .tv import opname, TV
from .ir import IRError
import os

TRUST = ["clang's -O0 + mem2reg IR represents the source of /repo/pwart",
         "the meaning given to the sljit LIR operations (pwsa/lir.py) is that of /repo/sljit/sljit_src/sljitLir.h; sljit's machine code is not analysed here",
         "64-bit target; libm functions compute what ISO C says",
         "the WebAssembly semantics in pwsa/spec.py"]


def run(pid, tier, families, floor, note, cls=TV, rule=None, extra=None):
    r = Report(pid, tier, 'translation_validation', 'abstract interpretation of the translator, value-numbering comparison')
    r.assume = TRUST + note
    try:
        p = Prog()
    except IRError as e:
        raise AnalysisBroken("cannot load /repo/pwart: %s" % e)
    fr = []
    for f in families: fr += list(f(tier))
    res = runtv.run(p, fr, cls=cls, limit=480 if tier == 'quick' else 20000)
    seen = {}
    for f in res['findings']:
        fam = f.shape.split('/')[0]
        key = (f.cat, opname(f.op), f.site[0] if f.site else None)
        seen.setdefault(key, []).append(f)
    for k, fs in sorted(seen.items(), key=str):
        fs.sort(key=lambda f: (len(f.shape), f.shape))
        f = fs[0]
        w = '%s:%s (%s)' % (f.site[0], f.site[1], ' > '.join(f.site[2])) if f.site else 'pwart (translator)'
        shapes = sorted({x.shape for x in fs})
        r.add('%s|%s|%s' % (k[0], k[1], f.shape.split('/')[0]), w, '%s of %s: %s; fragment "%s"%s' % (k[0], k[1], f.msg[:600], f.shape, ' and %d more' % (len(shapes) - 1) if len(shapes) > 1 else ''),
              detail=dict(shapes=shapes[:200], site=f.site, opcode=opname(f.op)))
    ok = sum(1 for o in res['outcomes'].values() if o == 'ok')
    s = res['stats']
    r.cov.update(programs=len(fr), disagreements_checked=s['equal'] + s['folded'] + s['undecided'],
                 samples=[fr[i][2] for i in sorted({0, len(fr) // 3, len(fr) // 2, len(fr) - 1})],
                 emitted_paths=s['paths'], comparison_points=s['points'], equal_by_normal_form=s['equal'], needed_folding=s['folded'], undecided=s['undecided'],
                 not_modelled=sum(res['unk'].values()), not_modelled_where=res['unk'], translator_broken=len(res['broken']), translator_broken_samples=res['broken'][:3],
                 translator_functions=len(p.m.funcs), helper_functions_analysed=res['helpers'],
                 rule=rule or "every path of the code emitted for a fragment (opcodes concrete; immediates, operands, memory, globals symbolic) computes the WebAssembly result, effects, control transfer and operand/local state")
    if extra: floor += extra(r, p)
    if s['equal'] < floor and not r.items:
        r.finish()
        raise AnalysisBroken("only %d comparison points could be decided (floor %d): %s %s" % (s['equal'], floor, list(res['unk'].items())[:3], res['broken'][:3]))
    return r.finish()
