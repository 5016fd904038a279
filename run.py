#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  run.py check <property> [--tier quick|thorough]   build from /repo's working tree, explore, report
  run.py replay <file>                              run one reported case again
  run.py setup                                      check that the tools are there
  run.py list                                       print what each check consists of
"""
import sys, os, json, hashlib, subprocess, time, threading, queue, re, mmap, struct, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
MC = HERE + '/mc'
BUILD = HERE + '/.build'
sys.path.insert(0, MC)
from components import COMPONENTS, CHECKS
FAILFAST = os.environ.get('VERIF_FAILFAST', '') == '1'       # stop exploring at the first violation (for mutation runs)
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
BUDGET = {'quick': 700.0, 'thorough': float(os.environ.get('VERIF_THOROUGH_S', '3000'))}
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=0:abort_on_error=0'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1'
for k in ('OMP_NUM_THREADS', 'OMP_SCHEDULE', 'OMP_DYNAMIC', 'GOMP_CPU_AFFINITY', 'OMP_PROC_BIND', 'LD_PRELOAD'): ENV.pop(k, None)


def tree_hash():
    h = hashlib.sha256()
    skip = {'.git', '_build', 'results', 'notes', 'tmp', 'Matlab', 'GraphBLAS', 'Release'}
    for root in (REPO, MC):
        for d, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(x for x in dn if x not in skip and x != '__pycache__')
            for f in sorted(fn):
                if f.endswith(('.h', '.hpp', '.cpp', '.c', '.inc', '.py', '.hh', '.cc')):
                    p = os.path.join(d, f)
                    try:
                        h.update(p.encode()); h.update(open(p, 'rb').read())
                    except OSError: pass
    return h.hexdigest()[:16]


def log(*a):
    print(*a, flush=True)


def build_one(args):
    name, bdir = args
    c = COMPONENTS[name]
    out = f'{bdir}/{name}'
    if os.path.exists(out) and os.path.exists(out + '.ok'): return name, out, ''
    steps = c['build'](out, REPO, MC)
    for cmd in steps:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=bdir, env=ENV)
        if p.returncode:
            return name, None, ' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[:3000]
    open(out + '.ok', 'w').close()
    return name, out, ''


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    bdir = f'{BUILD}/{th}'
    os.makedirs(bdir, exist_ok=True)
    # keep the disk small: only the most recent few trees
    def age(d):
        try: return time.time() - os.path.getmtime(f'{BUILD}/{d}')
        except OSError: return 0          # another run removed it
    olds = sorted((d for d in os.listdir(BUILD) if d != th and os.path.isdir(f'{BUILD}/{d}')), key=age, reverse=True)
    for d in olds[:-2]:
        if age(d) > 1800 or len(olds) > 60: shutil.rmtree(f'{BUILD}/{d}', ignore_errors=True)
    from concurrent.futures import ThreadPoolExecutor
    res, errs = {}, {}
    names = sorted(names, key=lambda n: -COMPONENTS[n].get('weight', 1))
    with ThreadPoolExecutor(NCPU) as ex:
        for name, out, err in ex.map(build_one, [(n, bdir) for n in names]):
            if out: res[name] = out
            else: errs[name] = err
    return bdir, res, errs


def load_known():
    known = {}
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m: known.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return known


class Shard:
    def __init__(self, comp, binary, extra, prop, tier, i, n, work):
        self.comp, self.binary, self.extra, self.prop, self.tier, self.i, self.n = comp, binary, extra, prop, tier, i, n
        self.progress = f'{work}/{comp}-{i}.progress'
        self.work = work

    def cmd(self, start=0, only=None, stop=None, hang=None, prefix=True):
        c = [self.binary, '--prop', self.prop, '--tier', self.tier] + self.extra
        if only is not None: c += ['--only', str(only)]
        else: c += ['--shard', f'{self.i}/{self.n}', '--start', str(start)]
        if stop is not None: c += ['--stop', str(stop)]
        c += ['--hang', str(hang or COMPONENTS[self.comp].get('hang', 20))]
        return c


def run_proc(cmd, deadline, progress=None, known=()):
    c = list(cmd)
    if progress: c += ['--progress', progress]
    for k in known: c += ['--known', k]
    with open(os.devnull) as dn:
        p = subprocess.Popen(c, stdin=dn, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
    PROCS.add(p)
    timed = False
    try:
        o, e = p.communicate(timeout=max(1.0, deadline - time.time()))
    except subprocess.TimeoutExpired:
        timed = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
    PROCS.discard(p)
    return p.returncode, o.decode(errors='replace'), e.decode(errors='replace'), timed
PROCS = set()


def parse(o):
    fails, counters = [], None
    for line in o.splitlines():
        for k in ('FAIL', 'CRASH', 'HANG'):
            if line.startswith('@@' + k + ' '):
                try: d = json.loads(line[len(k) + 3:])
                except ValueError: continue
                d['kind'] = k; fails.append(d)
        if line.startswith('@@COUNTERS '):
            try: counters = json.loads(line[11:])
            except ValueError: pass
    return fails, counters


def check(prop, tier):
    t0 = time.time()
    deadline = t0 + BUDGET[tier]
    spec = CHECKS[prop]
    parts = [p for p in spec['parts'] if tier == 'thorough' or not p.get('thorough_only')]
    log(f'[{prop}] building {len(set(p["comp"] for p in parts))} harness(es) from {REPO}')
    bdir, bins, errs = build({p['comp'] for p in parts})
    for n, e in errs.items(): log(f'[{prop}] NOTE harness {n} does not build against this tree, its part is skipped:\n' + '\n'.join(e.splitlines()[:12]))
    tb = time.time()
    log(f'[{prop}] built in {tb - t0:.1f}s')
    if not bins:
        log(f'[{prop}] no harness builds: no verdict'); return 2
    work = f'{bdir}/run-{prop}-{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    ENV['MCX_WORK'] = work
    known = dict(load_known()).get(prop, [])
    knownKeys = [k for k, _ in known]
    tot = dict(states=0, transitions=0, traces=0, cases=0, schedules=0, choicePoints=0, capped=0)
    outcomes, samples, percomp, failures, incomplete, flaky, errors = {}, [], {}, [], [], [], []
    lock = threading.Lock(); longest = [0.0, '']
    q = queue.Queue()
    for part in parts:
        if part['comp'] not in bins: continue
        n = part.get('shards', NCPU)
        for i in range(n): q.put(Shard(part['comp'], bins[part['comp']], part.get('args', []), part.get('prop', prop), tier, i, n, work))

    stop = threading.Event()

    def worker():
        while not stop.is_set():
            try: s = q.get_nowait()
            except queue.Empty: return
            start, restarts = 0, 0
            while True:
                if time.time() > deadline:
                    with lock: incomplete.append(f'{s.comp} shard {s.i}: not run (time budget)')
                    break
                rc, o, e, timed = run_proc(s.cmd(start), deadline, s.progress, knownKeys)
                fs, c = parse(o)
                with lock:
                    if c:
                        for k in tot: tot[k] += c.get(k, 0)
                        for k, v in c['outcomes'].items(): outcomes[k] = outcomes.get(k, 0) + v
                        if len(samples) < 6: samples.extend(c['samples'][:2])
                        percomp[s.comp] = percomp.get(s.comp, 0) + c['cases']
                        if c['longest'] > longest[0]: longest[:] = [c['longest'], f"{s.comp} / {c['longestCase']}"]
                    for f in fs:
                        f['comp'] = s.comp; f['cmd'] = s.cmd(only=f['g']); f['prefix'] = s.cmd(stop=f['g']); f['stderr'] = e[-4000:]
                        failures.append(f)
                    if FAILFAST and any(f['key'] not in knownKeys for f in fs): stop.set()
                if stop.is_set():
                    for x in list(PROCS):
                        try: os.killpg(x.pid, signal.SIGKILL)
                        except OSError: pass
                    break
                if timed:
                    with lock: incomplete.append(f'{s.comp} shard {s.i}: stopped by the time budget')
                    break
                if rc == 0: break
                if rc == 1 and fs and c: break          # reported violations and finished (or gave up after several)
                # crash: the position tells which case was under way
                try:
                    g = struct.unpack('Q', open(s.progress, 'rb').read(8))[0]
                except Exception: g = None
                if g is None or (not fs and g < start):
                    with lock: errors.append(f'{s.comp} shard {s.i}: exit {rc} without a report: {e[-600:]}')
                    break
                if not fs:
                    with lock:
                        failures.append(dict(kind='CRASH', g=g, key='crash', op='', family='?', idx=-1, msg=f'harness ended with status {rc}', input='', comp=s.comp,
                                             cmd=s.cmd(only=g), prefix=s.cmd(stop=g), stderr=e[-4000:]))
                start = g + 1; restarts += 1
                with lock: percomp.setdefault(s.comp, 0)
                if restarts > 2:
                    with lock: incomplete.append(f'{s.comp} shard {s.i}: stopped after {restarts} crashes, at case {g}')
                    break
    ths = [threading.Thread(target=worker) for _ in range(NCPU)]
    for t in ths: t.start()
    for t in ths: t.join()
    # replay before report: each distinct key once, smallest case first
    failures.sort(key=lambda f: (f['g'], f['key']))
    seen, confirmed = set(), []
    for f in failures:
        key = f['key']
        if key in seen: continue
        if len(confirmed) >= 12: break
        ok = False
        for how in ('cmd', 'prefix', 'cmd', 'prefix'):
            if how == 'prefix' and time.time() > deadline + 60: continue
            c = list(f[how])
            if f['kind'] == 'HANG': c += ['--hang', str(3 * COMPONENTS[f['comp']].get('hang', 20))]
            rc, o, e, timed = run_proc(c + ['--maxfail', '1000'], max(deadline, time.time()) + (200 if f['kind'] == 'HANG' else 60))
            fs, _ = parse(o)
            hit = [x for x in fs if x['g'] == f['g'] and (x['kind'] == f['kind'])]
            if hit or (f['kind'] == 'CRASH' and rc not in (0, 1) and not timed):
                ok = True; f['replay_cmd'] = c; f['replay_how'] = how
                if e.strip(): f['stderr'] = e[-6000:]
                break
        if ok:
            seen.add(key); confirmed.append(f)
        else: flaky.append(f)
    shutil.rmtree(work, ignore_errors=True)
    viol, knownHit = [], {}
    for f in confirmed:
        k = next((d for kk, d in known if kk == f['key']), None)
        if k is not None: knownHit[f['key']] = k
        else: viol.append(f)
    for k, d in known:
        if k in knownHit: log(f'KNOWN-FINDING: property={prop} {d}')
    for f in flaky: log(f'[{prop}] NOTE not reported, could not be reproduced: {f["comp"]} case {f["g"]} {f["key"]}: {f["msg"]}')
    for x in errors: log(f'[{prop}] NOTE {x}')
    rdir = f'{HERE}/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + '-'): os.remove(f'{rdir}/{fn}')
    shown = []
    for n, f in enumerate(viol):
        path = f'{rdir}/{prop}-{n}.json'
        json.dump(dict(property=prop, tier=tier, component=f['comp'], kind=f['kind'], family=f['family'], case=f['g'], operation=f['op'], key=f['key'],
                       message=f['msg'], input=f['input'], args=f['replay_cmd'][1:], stderr=f['stderr']), open(path, 'w'), indent=1)
        shown.append((f, path))
    wall = time.time() - t0
    exhaustive = not incomplete and not errors and not errs and tot['capped'] == 0
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'],
                            cases=tot['cases'], schedules=tot['schedules'], choice_points=tot['choicePoints'],
                            samples=samples or ['none'], exhaustive=exhaustive, harness_cases=percomp,
                            distinct_outcomes=outcomes, not_covered=incomplete + errors + [f'{n}: does not build' for n in errs],
                            unreproduced=[f['key'] for f in flaky], rule=spec.get('rule', ''), longest_case_cpu_s=longest, build_s=round(tb - t0, 1)),
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 1), violations=len(viol))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    log(f'[{prop}] states={tot["states"]} transitions={tot["transitions"]} runs-compared={tot["traces"]} schedules={tot["schedules"]} exhaustive={exhaustive} wall={wall:.1f}s longest case {longest[0]:.1f}s CPU ({longest[1]})')
    for k in sorted(outcomes): log(f'[{prop}]   outcome {k}: {outcomes[k]}')
    for x in incomplete: log(f'[{prop}] NOTE {x}')
    if viol:
        for f, path in shown:
            log(f'VIOLATION property={prop} replay={path}')
            log(f'    {f["comp"]} / {f["family"]} / case {f["g"]}: {f["msg"]}')
            log(f'    input: {f["input"][:600]}')
        return 1
    if errors and not tot['cases']: return 2
    return 0


def replay(path):
    d = json.load(open(path))
    bdir, bins, errs = build({d['component']})
    if d['component'] not in bins: log(errs); return 2
    work = f'{bdir}/replay-{os.getpid()}'; os.makedirs(work, exist_ok=True); ENV['MCX_WORK'] = work
    rc, o, e, timed = run_proc([bins[d['component']]] + d['args'], time.time() + 600)
    shutil.rmtree(work, ignore_errors=True)
    print(o); print(e[-6000:], file=sys.stderr)
    return 1 if rc else 0


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'setup':
        for t in ('g++', 'gcc'):
            if not shutil.which(t): print('missing', t); return 1
        # warm nothing: every check builds what it needs from /repo's current tree
        print('ok'); return 0
    if a[0] == 'list':
        for p, s in CHECKS.items(): print(p, [x['comp'] for x in s['parts']])
        return 0
    if a[0] == 'replay': return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    return check(a[1], tier)


def killall(*_):
    for p in list(PROCS):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    os._exit(3)


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, killall); signal.signal(signal.SIGINT, killall)
    sys.exit(main())
