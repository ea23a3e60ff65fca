"""Common reporting: findings, known findings, evidence, exit status."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class AnalysisBroken(Exception):
    """the source could not be analysed: neither held nor violated"""


class Item:
    def __init__(self, key, where, msg, detail=''):
        self.key = key          # stable identification of the construct
        self.where = where      # file:line (function)
        self.msg = msg
        self.detail = detail


def known(pid):
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                # known: property=Pxx key=<key> :: text
                r = l.split(' ', 2)[2]
                k, _, t = r.partition(' :: ')
                out.append((k[len('key='):], t))
    except OSError:
        pass
    return out


class Report:
    def __init__(self, pid, tier, level, technique):
        self.pid = pid; self.tier = tier; self.level = level; self.technique = technique
        self.items = []
        self.cov = {}
        self.assume = []
        self.t0 = time.time()

    def add(self, key, where, msg, detail=''):
        for i in self.items:
            if i.key == key and i.where == where and i.msg == msg: return
        self.items.append(Item(key, where, msg, detail))

    def finish(self, write=True):
        kn = known(self.pid)
        new = []
        shown = set()
        for i in self.items:
            for k, t in kn:
                if i.key == k:
                    if k not in shown: print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, t or i.msg, i.where))
                    shown.add(k)
                    break
            else:
                new.append(i)
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, '%s.replay.json' % self.pid)
        cov = dict(self.cov)
        cov['findings'] = [dict(key=i.key, where=i.where, msg=i.msg) for i in self.items[:50]]
        d = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level, coverage=cov,
                 assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f: json.dump(d, f, indent=1, default=str)
        if new:
            with open(rp, 'w') as f:
                json.dump([dict(key=i.key, where=i.where, msg=i.msg, detail=i.detail) for i in new], f, indent=1, default=str)
            for i in new[:20]:
                print("%s: %s: %s" % (self.pid, i.where, i.msg))
            if len(new) > 20: print("... %d more in %s" % (len(new) - 20, rp))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF) if False else rp))
            return 1
        if os.path.exists(rp): os.unlink(rp)
        print("%s: no violation (%s)" % (self.pid, ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, int))))
        return 0
