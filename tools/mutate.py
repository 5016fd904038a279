#!/usr/bin/env python3
"""mutate.py OUT.jsonl N SEED FILE:PROPS... - plants N small random mutations per file in a scratch copy of /repo and runs the
checks named (in order, until one reports) against it.  A tool for finding gaps in the checks; not part of any check."""
import sys, os, re, random, subprocess, json, shutil, time
out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
T = f'/tmp/mutate-{os.getpid()}'; R = T + '/repo'
os.makedirs(T); subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', R])
SUBS = [(r'(?<![<>=!&|-])<(?![<=])(?= )', '<='), (r'<=', '<'), (r'(?<![->=])>(?![>=])(?= )', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\+1\b', ''), (r'-1\b', '-0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+=', '='), (r'\+\+', '--'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r' \+ ', ' - '), (r' - ', ' + '),
        (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min')]
def mutants(path):
    L = open(path, errors='replace').read().split('\n'); ms = []; com = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith('/*'): com = True
        if com:
            if '*/' in s: com = False
            continue
        if not s or s.startswith(('//', '#include', '#if', '#endif', '#define', '#else', '*', 'using', 'template', 'typename', 'assert', 'static_assert', 'cout', 'printf', 'std::cout', 'cerr', 'throw')): continue
        code = l.split('//')[0]
        for a, b in SUBS:
            for m in re.finditer(a, code):
                if '<' in a or '>' in a:
                    if re.search(r'template|_cast|<[A-Za-z_:]+(, *[A-Za-z_:]+)*>', code): continue
                ms.append((i, l[:m.start()] + b + l[m.end():]))
        if re.match(r'^[^(]*[-+*/|&]?=[^=].*;$', code.strip()) and not re.match(r'^(const |auto |int |IT |NT |size_t |unsigned |long |bool |uint|static )', code.strip()) or re.match(r'^[\w.:>-]+\(.*\);$', code.strip()) or re.match(r'^(\+\+|--)?[\w.\[\]]+(\+\+|--)?;$', code.strip()):
            ms.append((i, '/*' + code.strip() + '*/;'))
        if s.startswith('#pragma omp'):
            if 'barrier' in s or 'atomic' in s or 'critical' in s: ms.append((i, ''))
            if 'single' in s or 'master' in s: ms.append((i, ''))
    return L, ms
rnd = random.Random(seed)
env = dict(os.environ, VERIF_REPO=R, VERIF_FAILFAST='1')
for spec in sys.argv[4:]:
    f, props = spec.split(':'); p = f'{R}/{f}'
    L, ms = mutants(p); rnd.shuffle(ms)
    orig = open(p, errors='replace').read()
    for i, new in ms[:N]:
        M = L[:]; M[i] = new; open(p, 'w').write('\n'.join(M))
        res, t0 = 'survived', time.time(); det = ''
        for q in props.split(','):
            r = subprocess.run(['python3', '/verif/run.py', 'check', q, '--tier', 'quick'], env=env, capture_output=True, text=True)
            if 'does not build' in r.stdout: res = 'invalid'; break
            if r.returncode == 1:
                res = 'killed ' + q; det = next((l for l in r.stdout.splitlines() if l.startswith('    ')), '')[:150]; break
            if r.returncode != 0: res = f'rc{r.returncode} {q}'; det = r.stdout[-300:]; break
            if 'NOTE not reported' in r.stdout: det = 'FLAKY ' + next(l for l in r.stdout.splitlines() if 'NOTE not rep' in l)[:300]
        rec = dict(file=f, line=i + 1, old=L[i].strip(), new=new.strip(), result=res, detail=det, s=round(time.time() - t0))
        open(out, 'a').write(json.dumps(rec) + '\n')
        open(p, 'w').write(orig)
shutil.rmtree(T)
