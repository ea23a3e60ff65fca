#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec file that defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...],
WAT (text) and RUN (driver arguments after the module), or FILES={name: text} with their own demo.sh."""
import os, subprocess, sys, json, shutil, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def emit(d):
    s = os.path.join(V, 'seeded', d['ID'])
    os.makedirs(s, exist_ok=True)
    out = ''
    files = {}
    for f, a, b in d['EDITS']:
        t = files.get(f) or open('/repo/' + f, newline='').read()
        o = t
        if t.count(a) != 1: sys.exit('%s: %d matches in %s of %r' % (d['ID'], t.count(a), f, a[:60]))
        files[f] = t.replace(a, b)
    for f, t in files.items():
        o = open('/repo/' + f, newline='').read()
        tmp = '/tmp/_seed.new'
        open(tmp, 'w', newline='').write(t)
        r = subprocess.run(['git', 'diff', '--no-index', '--src-prefix=a/', '--dst-prefix=b/', '/repo/' + f, tmp], capture_output=True, text=True).stdout
        r = r.replace('a//repo/' + f, 'a/' + f).replace('a/repo/' + f, 'a/' + f).replace('b//tmp/_seed.new', 'b/' + f).replace('b/tmp/_seed.new', 'b/' + f)
        out += r
    open(s + '/patch.diff', 'w', newline='').write(out)
    json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(s + '/meta.json', 'w'), indent=1)
    if 'WAT' in d:
        open(s + '/m.wat', 'w').write(d['WAT'])
        shutil.copy(V + '/tools/drv.c', s + '/drv.c')
        t = open(V + '/tools/demo.sh').read()
        open(s + '/demo.sh', 'w').write(t + '\n'.join('./drv m.wasm %s || exit 1' % r for r in ([d['RUN']] if isinstance(d['RUN'], str) else d['RUN'])) + '\nexit 0\n')
    for n, t in d.get('FILES', {}).items(): open(s + '/' + n, 'w').write(t)
    os.chmod(s + '/demo.sh', 0o755)
    print(d['ID'])


if __name__ == '__main__':
    for f in sys.argv[1:]:
        g = {'SEEDS': []}
        exec(open(f).read(), g)
        for d in g['SEEDS']: emit(d)
