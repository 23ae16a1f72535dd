#!/usr/bin/env python3
"""Decide one property: compile its harnesses together with /repo's current headers to LLVM IR, execute every entry
symbolically with ksym (engine/), confirm counterexamples by replaying them natively, and write evidence/<id>.json.

  run.py <property> [--tier quick|thorough]      exit 0: held on everything explored; 1: VIOLATION; 2: the check broke
  run.py --replay <file>                         replay a counterexample file
"""
import sys, os, json, subprocess, hashlib, time, re, threading, mmap, shutil, random, fnmatch, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KTL_REPO', '/repo')
sys.path.insert(0, V)
from specs import SPECS, VARIANTS
NCPU = min(8, os.cpu_count() or 4)
BUILD = os.environ.get('KS_BUILD') or os.path.join(V, 'build')
OUTDIR = os.path.join(V, 'evidence')
KSYM = os.path.join(BUILD, 'ksym')
T0 = time.time()
WRAP = '-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=posix_memalign,--wrap=aligned_alloc'

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

def die(msg):
    print('ERROR', msg, flush=True)
    sys.exit(2)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['make', '-s', '-j4', '-C', os.path.join(V, 'engine'), 'OUT=' + BUILD], capture_output=True, text=True)
    if r.returncode:
        die('engine build failed:\n' + r.stdout + r.stderr)

def incs():
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness')]

class Job:
    def __init__(self, prop, spec, variant, tier, work):
        self.prop, self.spec, self.variant, self.tier = prop, spec, variant, tier
        self.src = os.path.join(V, 'harness', spec['src'])
        self.defs = ['-DKS_PROP="%s"' % prop] + ['-D' + d for d in spec.get('defs', [])]
        self.defs += ['-D' + d for d in spec.get('thorough_defs' if tier == 'thorough' else 'quick_defs', [])]
        self.std = VARIANTS[variant]
        self.id = re.sub(r'\W+', '_', os.path.splitext(spec['src'])[0] + '_' + spec.get('tag', '') + '_' + variant)
        self.bc = os.path.join(work, self.id + '.bc')
        self.exes = {}
        self.lock = threading.Lock()
        self.work = work
        self.entries = []
    def compile(self):
        cmd = ['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-vectorize', '-w', '-ferror-limit=5'] + self.std + self.defs + incs() + ['-emit-llvm', '-c', self.src, '-o', self.bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return '%s does not compile against the current tree:\n%s' % (self.spec['src'], r.stderr[-4000:])
        r = subprocess.run([KSYM, self.bc, '--list'], capture_output=True, text=True)
        if r.returncode:
            return 'ksym --list: ' + r.stderr
        pats = self.spec.get('entries')
        for e in sorted(r.stdout.split()):
            n = e[len('entry_'):]
            if pats is None or any(fnmatch.fnmatch(n, p) for p in pats):
                self.entries.append(e)
        if not self.entries:
            return 'no entries in ' + self.src
        return None
    def native(self, kind):
        """kind: asan, tsan, plain -> executable path"""
        with self.lock:
            if kind in self.exes:
                return self.exes[kind]
            exe = os.path.join(self.work, self.id + '.' + kind)
            flags = {'asan': ['clang++', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                     'tsan': ['clang++', '-O1', '-g', '-fsanitize=thread', '-DKS_KEEP_NEW'], 'plain': ['g++', '-O2', '-g']}[kind]
            cmd = flags + ['-w', '-fno-builtin-malloc', '-fno-builtin-free', '-fno-builtin-calloc', '-rdynamic', '-DKS_NATIVE'] + self.std + self.defs + incs() + [self.src, os.path.join(V, 'engine', 'ks_native.cpp'), '-o', exe, WRAP, '-lpthread', '-ldl']
            cmd += self.spec.get('native_flags', [])
            r = subprocess.run(cmd, capture_output=True, text=True)
            self.exes[kind] = exe if r.returncode == 0 else None
            if r.returncode:
                log('native build (%s) of %s failed: %s' % (kind, self.id, r.stderr[-1500:]))
            return self.exes[kind]

def run_native(exe, trace_file, entry, tier, timeout=90):
    env = dict(os.environ, VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:abort_on_error=0:exitcode=66:allow_user_segv_handler=0',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=67', TSAN_OPTIONS='exitcode=68:halt_on_error=1')
    try:
        r = subprocess.run([exe, trace_file, entry], capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
        return r.returncode, r.stderr[-6000:]
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def write_inputs(path, inputs, sched=(), header=''):
    with open(path, 'w') as f:
        for l in header.splitlines():
            f.write('# ' + l + '\n')
        for n, v in inputs:
            f.write('%s %s\n' % (n, v))
        for t in sched:
            f.write('sched %d\n' % t)

def confirm(job, entry, v, path, tier):
    """replay a counterexample against the real, natively compiled code; returns a description or None"""
    if v['kind'] == 'race':
        exe = job.native('tsan')
        if exe:
            for _ in range(25):
                rc, err = run_native(exe, path, entry, tier)
                if rc == 68 or 'ThreadSanitizer' in err:
                    return 'reproduced natively under ThreadSanitizer'
                if rc in (66, 77) or rc < 0:
                    return 'reproduced natively (exit %d)' % rc
    elif not v['kind'].startswith('uninit'):
        tries = 1 if not v['schedule'] else 20
        for kind in ('asan', 'plain'):
            exe = job.native(kind)
            if not exe:
                continue
            for _ in range(tries):
                rc, err = run_native(exe, path, entry, tier)
                if rc not in (0, 78, 79):
                    first = [l for l in err.splitlines() if 'KS_CHECK' in l or 'ERROR: ' in l or 'runtime error' in l]
                    return 'reproduced natively (%s build, exit %d%s)' % (kind, rc, ': ' + first[0].strip() if first else '')
    # not observable natively (layout or schedule dependent): execute the compiled IR concretely with these values
    r = subprocess.run([KSYM, job.bc, '--entry', entry, '--replay', path, '--deadline', '60', '--tier', '1' if tier == 'thorough' else '0'] + job.spec.get('opts', []), capture_output=True, text=True)
    try:
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if any(x['kind'].split('-')[0] == v['kind'].split('-')[0] or x['msg'] == v['msg'] for x in d['violations']):
                return 'reproduced by concrete execution of the compiled IR (not observable in a plain native run)'
    except ValueError:
        pass
    return None

class Pool:
    """8 tokens shared by the entries and by ksym's own splitting; entries that have not started come first"""
    def __init__(self, work):
        self.fifo = os.path.join(work, 'tokens'); os.mkfifo(self.fifo)
        self.fd = os.open(self.fifo, os.O_RDWR)
        os.write(self.fd, b't' * NCPU)
        self.ctl = os.path.join(work, 'ctl')
        with open(self.ctl, 'wb') as f: f.write(b'\0' * 4096)
        self.f = open(self.ctl, 'r+b'); self.m = mmap.mmap(self.f.fileno(), 4096)
    def pending(self, n):
        self.m[0:4] = int(n).to_bytes(4, 'little')

def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = SPECS[prop]
    os.makedirs(OUTDIR, exist_ok=True)
    evpath = os.path.join(OUTDIR, prop + '.json')
    rdir = os.path.join(OUTDIR, 'replays'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'): os.remove(os.path.join(rdir, f))
    build_engine()
    work = tempfile.mkdtemp(prefix='ks_%s_' % prop, dir=BUILD)
    atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
    rc = subprocess.run([KSYM, '--selftest', '400', '--seed', str(seed)], capture_output=True, text=True)
    if rc.returncode: die('engine self test failed: ' + rc.stderr)
    jobs = [Job(prop, s, v, tier, work) for s in spec['jobs'] for v in (s.get('variants', ['17', '20d']) if tier == 'quick' else s.get('thorough_variants', s.get('variants', ['17', '20d'])))]
    with ThreadPoolExecutor(NCPU) as ex:
        errs = list(ex.map(lambda j: j.compile(), jobs))
    # what does compile is still checked: a violation found there is reported, otherwise there is no answer
    jobs = [j for j, e in zip(jobs, errs) if not e]; errs = [e for e in errs if e]
    if not jobs: die('\n'.join(errs))
    # native builds for the concordance replays go on in the background
    bg = ThreadPoolExecutor(3)
    nat = {j: bg.submit(j.native, 'asan') for j in jobs if j.spec.get('concord', True)}
    pool = Pool(work)
    queue = [(j, e) for j in jobs for e in j.entries]
    queue.sort(key=lambda x: -x[0].spec.get('weight', 1))
    pool.pending(len(queue))
    total = spec.get('budget', {}).get(tier, 300 if tier == 'quick' else 1500)
    tstart = time.time()
    procs = []
    n = len(queue)
    for i, (j, e) in enumerate(queue):
        os.read(pool.fd, 1)
        pool.pending(n - i - 1)
        out = os.path.join(work, '%d.json' % i)
        left = max(5.0, total - (time.time() - tstart))
        dl = min(left, j.spec.get('dl', {}).get(tier, left))
        cmd = [KSYM, j.bc, '--entry', e, '--out', out, '--tokens', pool.fifo, '--ctl', pool.ctl, '--deadline', '%.1f' % dl, '--tier', '1' if tier == 'thorough' else '0', '--repo', REPO + '/'] + j.spec.get('opts', [])
        dump = None
        if tier == 'thorough':
            dump = os.path.join(work, 'q%d' % i); os.mkdir(dump); cmd += ['--dump', dump, '--dump-every', '29']
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        procs.append((j, e, p, out, dump))
    bad = list(errs)
    res = []
    for j, e, p, out, dump in procs:
        try:
            _, err = p.communicate(timeout=total + 120)
        except subprocess.TimeoutExpired:
            p.kill(); err = 'ksym did not stop'
        if p.returncode:
            bad.append('%s %s: exit %s: %s' % (j.id, e, p.returncode, err[-2000:]))
        lines = []
        if os.path.exists(out):
            for l in open(out):
                try: lines.append(json.loads(l))
                except ValueError: bad.append('%s %s: broken output' % (j.id, e))
        if not lines: bad.append('%s %s: no output' % (j.id, e))
        res.append((j, e, lines, dump))
    texplore = time.time() - tstart
    log('explored %d entries in %.1fs' % (len(res), texplore))
    # ---- counterexamples
    known = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == prop and k.get('status') == 'open']
    viols = []; khits = {}
    seen = set()
    unconfirmed = []
    for j, e, lines, _ in res:
        for d in lines:
            for v in d['violations']:
                key = (e, v['kind'], v['msg'], v['loc'])
                if key in seen: continue
                seen.add(key)
                k = [k for k in known if fnmatch.fnmatch(e, k['entry']) and v['kind'] == k['kind'] and v['msg'] == k['msg'] and fnmatch.fnmatch(os.path.basename(v['loc'].rsplit(':', 1)[0]), k.get('file', '*'))]
                if k:
                    khits[k[0]['id']] = k[0]; continue
                viols.append((j, e, v))
    reports = []
    perentry = {}
    for j, e, v in viols:
        if len(reports) >= 6: break
        perentry[e] = perentry.get(e, 0) + 1
        if perentry[e] > 2: continue
        path = os.path.join(rdir, '%s-%d.txt' % (prop, len(reports)))
        hdr = 'property %s\nharness %s\nvariant %s\nentry %s\ntag %s\nkind %s\nmessage %s\nlocation %s\nstack\n%s' % (prop, j.spec['src'], j.variant, e, j.spec.get('tag', ''), v['kind'], v['msg'], v['loc'], v['stack'])
        write_inputs(path, v['inputs'], v['schedule'], hdr)
        c = confirm(j, e, v, path, tier)
        if c is None:
            unconfirmed.append('%s %s: %s %s at %s' % (j.id, e, v['kind'], v['msg'], v['loc'])); os.remove(path)
            log('UNCONFIRMED', unconfirmed[-1]); continue
        with open(path, 'a') as f: f.write('# ' + c.replace('\n', ' ') + '\n')
        reports.append((path, j, e, v, c))
    # ---- concordance: complete passing paths chosen by the executor are run on the natively compiled code
    rng = random.Random(seed)
    validated = diverged = 0; samples = []; mism = []; ubnotes = []
    if not viols and not bad:
        for j, e, lines, _ in res:
            tr = [t for d in lines for t in d['traces']]
            rng.shuffle(tr)
            if tr and len(samples) < 12: samples.append({'entry': e, 'variant': j.variant, 'inputs': ' '.join('%s=%s' % tuple(x) for x in tr[0]['inputs'])[:600]})
            if j not in nat: continue
            exe = nat[j].result()
            if not exe: continue
            for k, t in enumerate(tr[:spec.get('concord', 3) * (1 if tier == 'quick' else 6)]):
                if t['multi']: pass
                pth = os.path.join(work, 'tr.txt'); write_inputs(pth, t['inputs'])
                rc, err = run_native(exe, pth, e, tier)
                if rc == 0 and 'KS_REPLAY_PASSED' in err: validated += 1
                elif rc == 78: diverged += 1
                elif rc == 67: ubnotes.append('%s: %s' % (e, [l for l in err.splitlines() if 'runtime error' in l][:1]))
                else: mism.append((j, e, t, rc, err))
    bg.shutdown(wait=False, cancel_futures=True)
    for j, e, t, rc, err in mism[:3]:
        # the real code failed on inputs the executor believed fine: still a concrete failing run of the real code
        path = os.path.join(rdir, '%s-%d.txt' % (prop, len(reports)))
        write_inputs(path, t['inputs'], (), 'property %s\nharness %s\nvariant %s\nentry %s\ntag %s\nkind native-replay\nnative exit %d\n%s' % (prop, j.spec['src'], j.variant, e, j.spec.get('tag', ''), rc, err))
        reports.append((path, j, e, {'kind': 'native-replay', 'msg': 'native run of a solver-chosen path fails (exit %d)' % rc, 'loc': '', 'stack': err}, 'native run'))
    # ---- second opinion on a sample of the queries (thorough tier)
    cross = {'queries': 0, 'agree': 0, 'other': 0}
    if tier == 'thorough' and not bad:
        cross = crosscheck([d for _, _, _, d in res if d], rng)
        if cross.get('disagree'): bad.append('solvers disagree: ' + ', '.join(cross['disagree']))
    # ---- evidence
    A = lambda k: sum(d[k] for _, _, L, _ in res for d in L)
    inc = {}; reach = {}; funcs = set(); entries = []
    for j, e, L, _ in res:
        en = {'entry': e, 'variant': j.variant, 'harness': j.spec['src'], 'bounds': j.spec.get('bounds', ''), 'paths': sum(d['paths'] for d in L), 'checks': sum(d['checks'] for d in L), 'incomplete': {}}
        for d in L:
            for k, x in d['incomplete'].items(): inc[k] = inc.get(k, 0) + x; en['incomplete'][k] = en['incomplete'].get(k, 0) + x
            for k, x in d['reach'].items(): reach.setdefault(j.id, {}); reach[j.id][k] = reach[j.id].get(k, 0) + x
            funcs.update(d['functions'])
        entries.append(en)
        if en['paths'] == 0 and not any(d['violations'] for d in L) and not en['incomplete']: bad.append('%s %s: no path completed (vacuous)' % (j.id, e))
    vac = []
    for j in jobs:
        want = set()
        for l in open(j.src):
            m = re.match(r'//\s*REACH(?:\[([\w,]+)\])?:(.*)', l)
            if m and (not m.group(1) or prop in m.group(1).split(',')): want.update(m.group(2).split())
        want |= set(j.spec.get('reach', []))
        want -= set(j.spec.get('noreach', []))
        if j.spec.get('entries') is not None and 'reach' in j.spec: want = set(j.spec['reach'])
        miss = [w for w in want if not reach.get(j.id, {}).get(w)]
        if miss: vac.append('%s never reached %s' % (j.id, ' '.join(sorted(miss))))
    exhaustive = not inc
    cov = {'states': A('paths') + A('forks'), 'transitions': A('instructions'), 'traces_validated_against_impl': validated, 'samples': samples or [{'entry': r[2], 'violation': r[3]['msg']} for r in reports] or [{'note': 'none'}],
           'exhaustive': exhaustive, 'rule': 'state: symbolic path state (paths completed plus forks); transition: IR instruction executed symbolically; every path condition stands for all input values that satisfy it',
           'paths': A('paths'), 'checks_evaluated': A('checks'), 'solver_queries': A('queries'), 'answered_from_cache': A('cache_hits'), 'answered_by_a_known_model': A('model_hits'), 'z3_calls': A('z3_calls'), 'z3_sat': A('z3_sat'), 'z3_unsat': A('z3_unsat'), 'z3_unknown': A('z3_unknown'),
           'solver_time_s': round(A('z3_time'), 2), 'slowest_query_s': round(max([d['z3_max'] for _, _, L, _ in res for d in L] or [0]), 3), 'entries': entries, 'functions_encoded': sorted(funcs), 'incomplete': inc, 'reached': reach,
           'bounds': spec.get('bounds', ''), 'outside': spec.get('outside', ''), 'native_replays_diverged': diverged, 'second_solver': cross, 'engine_errors': bad, 'unconfirmed': unconfirmed, 'ubsan_notes': sorted(set(ubnotes)), 'vacuity': vac, 'known_findings_seen': sorted(khits)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': spec.get('assumptions', []) + COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': len(reports)}
    json.dump(ev, open(evpath, 'w'), indent=1)
    log('%s %s: %d paths, %d checks, %d queries (%d z3 calls, %.1fs), %d native replays agree, %d diverged, exhaustive=%s' % (prop, tier, A('paths'), A('checks'), A('queries'), A('z3_calls'), A('z3_time'), validated, diverged, exhaustive))
    if inc: log('not exhaustive:', inc)
    for k in khits.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']), flush=True)
    if reports:
        for path, j, e, v, c in reports:
            print('%s [%s %s] %s: %s at %s (%s)' % (prop, j.variant, e, v['kind'], v['msg'], v['loc'], c))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        sys.exit(1)
    if bad: die('\n'.join(bad))
    if unconfirmed: die('counterexamples that could not be replayed: ' + '; '.join(unconfirmed))
    if vac and exhaustive: die('vacuous: ' + '; '.join(vac))
    sys.exit(0)

COMMON_ASSUMPTIONS = [
    'x86-64 Linux, libstdc++ headers, clang 18 front end at -O1 without IR optimisation other than sroa, early-cse and simplifycfg (run by ksym)',
    'the system allocator is modelled: fresh, never reused, gap-separated blocks with the alignment the request guarantees and no more; sizes above the stated cap fail',
    'ksym (engine/), LLVM 18, z3 4.8.12; every SAT model is re-evaluated by an independent evaluator, UNSAT answers are z3\'s (sampled against z3-new and cvc5 in the thorough tier)',
]

def crosscheck(dirs, rng):
    fs = [os.path.join(d, f) for d in dirs for f in os.listdir(d)]
    rng.shuffle(fs); fs = fs[:240]
    out = {'queries': len(fs), 'agree': 0, 'other': 0, 'disagree': []}
    def one(f):
        exp = f.split('.')[-2]
        got = []
        for s in (['z3-new', '-T:20', f], ['cvc5', '--tlimit=20000', f]):
            try: got.append(subprocess.run(s, capture_output=True, text=True, timeout=40).stdout.strip().split('\n')[0])
            except Exception: got.append('?')
        return f, exp, got
    with ThreadPoolExecutor(NCPU) as ex:
        for f, exp, got in ex.map(one, fs):
            dec = [g for g in got if g in ('sat', 'unsat')]
            if exp in ('sat', 'unsat') and any(g != exp for g in dec):
                keep = os.path.join(OUTDIR, 'disagree-' + os.path.basename(f)); shutil.copy(f, keep); out['disagree'].append(keep)
            elif dec: out['agree'] += 1
            else: out['other'] += 1
    return out

def replay(path):
    h = {}
    for l in open(path):
        if l.startswith('# '):
            w = l[2:].rstrip('\n').split(' ', 1)
            h.setdefault(w[0], w[1] if len(w) > 1 else '')
    build_engine()
    work = tempfile.mkdtemp(prefix='ks_replay_', dir=BUILD); atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
    sp = [s for s in SPECS[h['property']]['jobs'] if s['src'] == h['harness'] and s.get('tag', '') == h['tag']][0]
    j = Job(h['property'], sp, h['variant'], 'quick', work)
    e = j.compile()
    if e: die(e)
    for kind in ('asan', 'plain') + (('tsan',) if h['kind'] == 'race' else ()):
        exe = j.native(kind)
        if exe: print(kind, *run_native(exe, path, h['entry'], 'quick'))
    r = subprocess.run([KSYM, j.bc, '--entry', h['entry'], '--replay', path] + sp.get('opts', []), capture_output=True, text=True)
    for l in r.stdout.splitlines():
        for v in json.loads(l)['violations']: print('IR', v['kind'], v['msg'], v['loc']); print(v['stack'])

if __name__ == '__main__':
    main()
