#!/usr/bin/env python3
"""Development aid: random one-token mutants of /repo/pwart that compile and pass pwart's own tests.
mutate.py gen N SEED OUTDIR     writes surviving mutants as OUTDIR/k.json {file, line, old, new}
mutate.py check OUTDIR          runs the checks on each until one reports it -> OUTDIR/result.txt
Works on copies of /repo under /tmp/mt."""
import sys, re, os, random, subprocess, json, shutil, glob, multiprocessing, tempfile
REPO = os.environ.get('MUTBASE', '/repo')
FILES = ['extfunc.c', 'hostdef.c', 'modparser.c', 'namespace.c', 'opgen_ctl.c', 'opgen_mem.c', 'opgen_misc.c', 'opgen_num.c', 'opgen_utils.c', 'pwart.c', 'util.c', 'wagen.c']
PFX = 'pwart/'
if os.environ.get('SLJIT'):
    PFX = 'sljit/sljit_src/'
    FILES = ['sljitNativeX86_common.c', 'sljitNativeX86_64.c', 'sljitLir.c', 'sljitSerialize.c', 'sljitUtils.c', 'allocator_src/sljitExecAllocatorCore.c', 'allocator_src/sljitExecAllocatorPosix.c']
SUB = [(r'(?<![<>=!+\-*/|&-])<(?![<=])', ['<=', '>']), (r'(?<![-<>=])>(?![>=])', ['>=', '<']), (r'<=', ['<']), (r'(?<!>)>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<![+\w(,=] )(?<!\+)\+(?![+=])', ['-']), (r'(?<=[\w)\]])-(?![->=])', ['+']), (r'\+\+', ['--']), (r'--', ['++']),
       (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\b\d+\b', ['+1', '-1', '*2']), (r'\b0x[0-9a-fA-F]+\b', ['+1', '>>1']), (r'!(?=[\w(])', ['']), (r'(?<=[( ])~', ['']),
       (r'\|=', ['=', '&=']), (r'&=', ['|=']), (r'(?<=[\w)] )\|(?= )', ['&']), (r'<<', ['>>']), (r'>>', ['<<']),
       (r'\bSLJIT_(\w+)\b', ['sljit']), (r'\buint(\d+)_t\b', ['sg', 'nr']), (r'\bint(\d+)_t\b', ['us', 'nr']), (r'\bsize_t\b', ['int']), (r'\bbreak;', ['']), (r'\breturn [^;]*;', ['']),
       (r'\bif ?\(', ['ift', 'iff']), (r'\bWVT_\w+', ['wvt']), (r'\b(\w+)->(\w+)', ['fld']), (r'\bsizeof\(\w+\)', ['4', '8']), (r'\belse\b', [''])]
SL = ['MOV,MOV32,MOV_U8,MOV_S8,MOV_U16,MOV_S16,MOV_U32,MOV_S32,MOV_P', 'ADD,SUB,SUB32,ADD32', 'S0,S1,S2', 'R0,R1,R2', 'EQUAL,NOT_EQUAL', 'LESS,LESS_EQUAL,SIG_LESS,GREATER', 'GREATER,GREATER_EQUAL,SIG_GREATER', 'FR0,FR1', 'LSHR,ASHR', 'AND,OR', 'ARGS0V,ARGS1V,ARGS2V,ARGS3V']


def mutants(rng, n):
    out, seen = [], set()
    while len(out) < n:
        f = rng.choices(FILES, [os.path.getsize(REPO + '/' + PFX + x) for x in FILES])[0]
        src = open(REPO + '/' + PFX + f, newline='').read().split('\n')
        i = rng.randrange(len(src)); l = src[i]
        s = l.strip()
        if not s or s.startswith(('//', '*', '/*', '#')) or 'printf' in l or 'SLJIT_ASSERT' in l or 'DEBUG' in l: continue
        if rng.random() < 0.12 and re.match(r'^\s*[\w>\-.\[\]()*&]+(\(.*\)| [-+|&]?= .*|[-+|&]?=.*);\s*$', l) and not re.match(r'^\s*(\w+ )+\*?\w+\s*(=|;)', l):
            new = l[:len(l) - len(l.lstrip())] + ';' + ('\r' if l.endswith('\r') else '')
        else:
            pat, reps = rng.choice(SUB)
            ms = list(re.finditer(pat, l))
            if not ms: continue
            m = rng.choice(ms); r = rng.choice(reps); t = m.group(0)
            if r in ('+1', '-1', '*2') and t.isdigit(): r = str(eval(t.lstrip('0') or '0') + {'+1': 1, '-1': -1}.get(r, 0)) if r != '*2' else str(int(t) * 2)
            elif r == '>>1': r = hex(int(t, 16) >> 1)
            elif r == '+1' and t[:2] == '0x': r = hex(int(t, 16) + 1)
            elif r in ('-1', '*2', '+1'): continue
            elif r == 'sljit':
                g = [x.split(',') for x in SL if m.group(1) in x.split(',')]
                if not g: continue
                r = 'SLJIT_' + rng.choice([x for x in rng.choice(g) if x != m.group(1)])
            elif r == 'sg': r = 'int%s_t' % m.group(1)
            elif r == 'us': r = 'uint%s_t' % m.group(1)
            elif r == 'nr':
                k = int(m.group(1))
                if k == 8: continue
                r = t.replace(str(k), str(k // 2))
            elif r == 'ift': r = 'if(1||'
            elif r == 'iff': r = 'if(0&&'
            elif r == 'wvt': r = rng.choice([x for x in ('WVT_I32', 'WVT_I64', 'WVT_F32', 'WVT_F64', 'WVT_REF', 'WVT_FUNC') if x != t])
            elif r == 'fld':
                txt = '\n'.join(src); c = sorted(set(re.findall(r'\b%s->(\w+)' % re.escape(m.group(1)), txt)) - {m.group(2)})
                if not c: continue
                r = m.group(1) + '->' + rng.choice(c)
            new = l[:m.start()] + r + l[m.end():]
        if new == l or (f, i, new) in seen: continue
        seen.add((f, i, new)); out.append(dict(file=f, line=i, old=l, new=new))
    return out


def apply(d, root):
    p = root + '/' + PFX + d['file']
    src = open(p, newline='').read().split('\n'); assert src[d['line']] == d['old']
    src[d['line']] = d['new']; open(p, 'w', newline='').write('\n'.join(src))


def undo(d, root): shutil.copy(REPO + '/' + PFX + d['file'], root + '/' + PFX + d['file'])


def copy(root):
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    for x in ('pwart', 'include', 'tests', 'sljit'): subprocess.run(['cp', '-a', REPO + '/' + x, root + '/'])


CF = '-DDEBUG_BUILD=1 -O2 -g -DNDEBUG -w'.split()


def buildsl(root):
    b = root + '/b'; os.makedirs(b + '/driver', exist_ok=True)
    inc = ['-I' + root + '/include', '-I' + root + '/sljit/sljit_src']
    env = dict(os.environ, CC='gcc'); shutil.rmtree(b + '/sljit', ignore_errors=True); os.makedirs(b + '/sljit')
    def run(*c, t=200): return subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t, env=env).returncode
    if run('make', '-j4', '-C', root + '/sljit', 'BINDIR=' + b + '/sljit', 'CC=gcc', 'WERROR=', 'all'): return False
    if run('gcc', *CF, *inc, '-c', root + '/sljit/sljit_src/sljitLir.c', '-o', b + '/sljit.o'): return False
    if not os.path.exists(b + '/pwart.o'):
        run('gcc', *CF, *inc, '-c', root + '/pwart/pwart.c', '-o', b + '/pwart.o')
        for t in ('testmain', 'testmain2'): run('gcc', '-w', '-O2', '-g', '-Dmain=project_main', *inc, root + '/tests/%s.c' % t, '-c', '-o', b + '/driver/%s.o' % t)
    for t in ('testmain', 'testmain2'):
        if run('gcc', '-w', '-rdynamic', '-o', b + '/driver/' + t, '/opt/vp/support/driver.c', b + '/driver/%s.o' % t, b + '/pwart.o', b + '/sljit.o', '-lm', '-lpthread', '-ldl'): return False
    return True


def build(root, base=False):
    if os.environ.get('SLJIT'): return buildsl(root)
    b = root + '/b'; os.makedirs(b + '/driver', exist_ok=True)
    inc = ['-I' + root + '/include', '-I' + root + '/sljit/sljit_src']
    def run(*c, t=120): return subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t).returncode
    if base:
        run('gcc', *CF, *inc, '-c', root + '/sljit/sljit_src/sljitLir.c', '-o', b + '/sljit.o')
        for t in ('testmain', 'testmain2'): run('gcc', '-w', '-O2', '-g', '-Dmain=project_main', *inc, root + '/tests/%s.c' % t, '-c', '-o', b + '/driver/%s.o' % t)
    if run('gcc', *CF, *inc, '-c', root + '/pwart/pwart.c', '-o', b + '/pwart.o'): return False
    for t in ('testmain', 'testmain2'):
        if run('gcc', '-w', '-rdynamic', '-o', b + '/driver/' + t, '/opt/vp/support/driver.c', b + '/driver/%s.o' % t, b + '/pwart.o', b + '/sljit.o', '-lm', '-lpthread', '-ldl'): return False
    return True


def tests(root):
    src = open('/opt/vp/support/run_cases.py').read()
    if not os.environ.get('SLJIT'): src = src.replace('report(sljit())', '').replace('report(regex())', '')
    src = src.replace('timeout=300', 'timeout=40')
    open(root + '/b/rc.py', 'w').write(src)
    o = subprocess.run(['python3', root + '/b/rc.py', root, root + '/b'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300).stdout.decode('utf8', 'replace')
    return {l[5:].strip() for l in o.splitlines() if l.startswith('PASS ')}


def work(a):
    k, d, out = a
    root = '/tmp/mt/g%d' % (os.getpid())
    if not os.path.exists(root + '/b/sljit.o'): copy(root); build(root, True)
    if os.environ.get('SLJIT'):
        global IRB
        if 'IRB' not in globals(): IRB = ir(root)
        apply(d, root); t = ir(root)
        if not t or t == IRB: undo(d, root); return False
    else: apply(d, root)
    try:
        try: ok = build(root) and BASE <= tests(root)
        except subprocess.TimeoutExpired: ok = False
    finally: undo(d, root)
    if ok: json.dump(d, open('%s/%d.json' % (out, k), 'w'))
    return ok


def ir(root):
    """optimised IR with the 32-bit target paths cut away"""
    if os.environ.get('SLJIT'):
        r = subprocess.run('clang -w -O1 -I%s/sljit/sljit_src -S -emit-llvm -o - %s/sljit/sljit_src/sljitLir.c' % (root, root), shell=True, capture_output=True, text=True).stdout
        return re.sub(r'/tmp/mt\w*/\w+', '', r)
    d = tempfile.mkdtemp(dir='/tmp/mt'); subprocess.run(['cp', '-a', root + '/pwart', root + '/include', d])
    for f in glob.glob(d + '/pwart/*.c'):
        t = open(f, newline='').read(); t = re.sub(r'm->target_ptr_size\s*==\s*32', '0', t); t = re.sub(r'm->target_ptr_size\s*==\s*64', '1', t); open(f, 'w', newline='').write(t)
    r = subprocess.run('clang -w -O2 -DNDEBUG -I%s/include -I%s/sljit/sljit_src -S -emit-llvm -o - %s/pwart/pwart.c' % (d, REPO, d), shell=True, capture_output=True, text=True).stdout
    shutil.rmtree(d)
    return re.sub(r'/tmp/mt/\w+', '', r)


ORDER = {'extfunc.c': 'P18 P15 P09 P12 P14 P13 P01', 'hostdef.c': 'P18', 'modparser.c': 'P11 P17 P12 P16 P10', 'namespace.c': 'P13 P12 P16 P17 P18', 'opgen_ctl.c': 'P05 P04 P07 P10 P17', 'opgen_mem.c': 'P02 P08 P09 P03 P06 P15 P10',
         'opgen_misc.c': 'P09 P08 P17 P10', 'opgen_num.c': 'P01 P03', 'opgen_utils.c': 'P03 P04 P06 P07 P05', 'pwart.c': 'P14 P11 P13 P16', 'util.c': 'P10 P11 P16 P17', 'wagen.c': 'P07 P11 P10 P16 P05 P14 P17 P06'}
if os.environ.get('SLJIT'):
    ORDER = {f: 'P22 P21' if 'Native' in f else 'P25' if 'Serial' in f else 'P23' if 'Alloc' in f else 'P22 P21 P24 P25' for f in FILES}
ALL = 'P22 P23 P24 P25 P21' if os.environ.get('SLJIT') else 'P07 P11 P12 P15 P16 P17 P08 P14 P18 P06 P13 P09 P02 P05 P03 P04 P10 P01'
ALL = ALL.split()


def main():
    global BASE
    if sys.argv[1] == 'gen':
        n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        os.makedirs(out, exist_ok=True)
        root = '/tmp/mt/base'; copy(root); build(root, True); BASE = tests(root); print('base', len(BASE))
        ms = mutants(random.Random(seed), n)
        with multiprocessing.Pool(int(os.environ.get('J', '6'))) as p: r = p.map(work, [(k, d, out) for k, d in enumerate(ms)], chunksize=1)
        print(sum(r), 'of', n, 'survive the tests')
    else:
        out = sys.argv[2]; root = '/tmp/mt/c%d' % os.getpid(); copy(root)
        global IR0; IR0 = ir(root); res = open(out + '/result.txt', 'a'); done = {l.split()[0] for l in open(out + '/result.txt')}
        for f in sorted(glob.glob(out + '/*.json'), key=lambda x: int(os.path.basename(x)[:-5])):
            k = os.path.basename(f)[:-5]
            if k in done: continue
            d = json.load(open(f))
            apply(d, root)
            if ir(root) == IR0: undo(d, root); continue
            first = ORDER[d['file']].split(); v = 'SURVIVED'; extra = ''
            for pid in first + [x for x in ALL if x not in first]:
                try: r = subprocess.run(['python3', '/verif/check.py', pid, '--tier', 'quick'], env=dict(os.environ, PWSA_REPO=root), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired: extra += ' %s:timeout' % pid; continue
                if r.returncode == 1: v = pid; break
                if r.returncode: extra += ' %s:%d' % (pid, r.returncode)
            print(k, v + extra, '%s:%d' % (d['file'], d['line'] + 1), '|', d['old'].strip(), '=>', d['new'].strip(), file=res, flush=True)
            undo(d, root)


main()
