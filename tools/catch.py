"""writes the table of planted bugs at the end of DESIGN.md"""
import json, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
s = open('DESIGN.md').read()
mark = '| planted bug |'
s = s.split(mark)[0]
s += mark + ' caught by | breaks |\n|---|---|---|\n'
for d in sorted(glob.glob('seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    s += '| %s | %s | %s |\n' % (os.path.basename(d.rstrip('/')), m['property'], m['what_it_breaks'])
open('DESIGN.md', 'w').write(s)
