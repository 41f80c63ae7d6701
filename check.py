#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property by seeded simulation.

    check.py --property C01 [--tier quick|thorough] [--seed N]
    check.py --replay replays/C01-....json          reproduce a recorded violation
    check.py --build-only                           build everything (setup_cmd)
    check.py --determinism                          run samples twice and compare histories
"""
import argparse, atexit, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TG_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.path.join(HERE, 'build')
CC, CXX = 'clang-18', 'clang++-18'
NPROC = min(8, os.cpu_count() or 8)
NSTREAM, TRACE_CAP = 3, 1 << 20
HEAD_FMT = '<QI3IQQQQ96s1024sQ'          # see TraceHead in sim/core.h
ST_RUNNING, ST_OK, ST_VIOLATION = 1, 2, 3

BUILDS = {
    # name: (library flags, library sources, runtime, asan?)
    'sched':      (['-O1', '-g', '-femulated-tls', '-fno-pic', '-fsanitize=thread'], ['tg.c'], 'rt_sched', False),
    'asan':       (['-O1', '-g', '-femulated-tls', '-fsanitize=address', '-fno-omit-frame-pointer'], ['tg.c'], 'rt_asan', True),
    'noamalga':   (['-O1', '-g', '-femulated-tls', '-fsanitize=address', '-fno-omit-frame-pointer', '-DTG_NOAMALGA'], ['tg.c', 'deps/json.c', 'deps/fp.c'], 'rt_asan', True),
    'noatomics':  (['-O1', '-g', '-femulated-tls', '-fsanitize=address', '-fno-omit-frame-pointer', '-DTG_NOATOMICS'], ['tg.c'], 'rt_asan', True),
}
# Several builds of the library in one simulator, one of them in charge at any moment (set_variant in sim/core.h).
TSAN = ['-g', '-fsanitize=thread', '-fno-pic', '-U_FORTIFY_SOURCE', '-fno-stack-protector']
VARIANTS = [
    # label, compiler, flags, sources
    ('clang -O1, single file', 'clang-18', ['-O1', '-femulated-tls'] + TSAN, ['tg.c']),
    ('clang -O2, separate libraries (TG_NOAMALGA)', 'clang-18', ['-O2', '-femulated-tls', '-DTG_NOAMALGA'] + TSAN, ['tg.c', 'deps/json.c', 'deps/fp.c']),
    ('clang -O3, plain counters (TG_NOATOMICS), no 128-bit integers, portable minimum and maximum', 'clang-18', ['-O3', '-femulated-tls', '-DTG_NOATOMICS', '-include', os.path.join(HERE, 'tools/portable.h')] + TSAN, ['tg.c']),
    ('gcc -O2, single file', 'gcc', ['-O2'] + TSAN, ['tg.c']),
    ('gcc -O0, separate libraries (TG_NOAMALGA), plain counters (TG_NOATOMICS), no 128-bit integers', 'gcc', ['-O0', '-DTG_NOAMALGA', '-DTG_NOATOMICS', '-include', os.path.join(HERE, 'tools/portable.h')] + TSAN, ['tg.c', 'deps/json.c', 'deps/fp.c']),
    ('clang -O1, wide index rectangles (TG_IXFLOAT64)', 'clang-18', ['-O1', '-femulated-tls', '-DTG_IXFLOAT64'] + TSAN, ['tg.c']),
]
BUILDS['variants'] = (None, None, 'rt_sched', False)
SIMX = ['strlen', 'memcmp', 'bcmp', 'strcmp', 'strncmp', 'strchr', 'strtol', 'strtoll', 'vsnprintf']
TITLES = {}

# property -> list of (scenario, build, quick runs, thorough runs)
PLAN = json.load(open(os.path.join(HERE, 'plan.json')))

def die(msg):
    print('CHECK ERROR: ' + msg, flush=True)
    sys.exit(2)

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        die('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

# ------------------------------------------------------------------ building
def variants(tmp, redef):
    """One job per variant: compiles it into a single object whose global names carry the variant's prefix."""
    def make(k, cc, flags, srcs):
        parts = []
        for s in srcs:
            o = os.path.join(tmp, 'v%d_%s.o' % (k, s.replace('/', '_')))
            run([cc] + flags + ['-w', '-c', os.path.join(REPO, s), '-o', o]); parts.append(o)
        one = os.path.join(tmp, 'v%d.o' % k)
        run(['ld', '-r'] + parts + ['-o', one])
        syms = [l.split()[-1] for l in run(['nm', '--defined-only', '-g', one]).splitlines() if len(l.split()) == 3]
        rd = os.path.join(tmp, 'redef_v%d' % k)
        with open(rd, 'w') as f:
            f.write(open(redef).read())
            for x in syms: f.write('%s v%d_%s\n' % (x, k, x))
        run(['objcopy', '--redefine-syms', rd, '--rename-section', '.data=tgdata', '--rename-section', '.bss=tgbss', one, one + 'x'])
        return one + 'x', [x for x in syms if x.startswith('tg_')]
    return [lambda k=k, v=v: make(k, *v[1:]) for k, v in enumerate(VARIANTS)]

def dispatch(tmp, syms):
    """The names the harness calls: each jumps to that function of the variant in charge."""
    names = sorted(set().union(*syms))
    a = ['.text']
    for i, x in enumerate(names):
        a += ['.globl %s' % x, '.type %s,@function' % x, '%s: jmp *variant_slot+%d(%%rip)' % (x, 8 * i)]
    a += ['.data', '.balign 8', '.globl variant_slot', 'variant_slot: .skip %d' % (8 * len(names)), '.globl variant_table', 'variant_table:']
    for k, s in enumerate(syms):
        a += ['.quad %s' % ('v%d_%s' % (k, x) if x in s else '0') for x in names]
    a += ['.globl variant_syms', 'variant_syms: .long %d' % len(names), '.globl variant_count', 'variant_count: .long %d' % len(syms), '.section .note.GNU-stack,"",@progbits', '']
    p = os.path.join(tmp, 'dispatch.s')
    open(p, 'w').write('\n'.join(a))
    run([CC, '-c', p, '-o', p + '.o'])
    return p + '.o'

def build(names):
    """Compiles harness and library for the given builds; returns {name: binary}."""
    names = sorted(set(names))
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tree-', dir=BUILD)
    atexit.register(shutil.rmtree, tmp, ignore_errors=True)
    srcs = sorted(os.path.basename(p)[:-4] for p in glob.glob(SIM + '/*.cpp'))
    rts = {'rt_sched', 'rt_asan'}
    jobs, objs, variant_jobs = [], {n: [] for n in names}, []
    harness = {}
    def compile_cpp(src, asan):
        key = (src, asan)
        if key in harness: return harness[key]
        o = os.path.join(tmp, '%s_%s.o' % (src, 'a' if asan else 's'))
        flags = ['-DSIM_ASAN'] if asan else []
        jobs.append([[CXX, '-O2', '-g1', '-std=c++20', '-Wall', '-Wextra', '-I' + REPO, '-I' + SIM] + flags + ['-c', os.path.join(SIM, src + '.cpp'), '-o', o]])
        harness[key] = o
        return o
    for n in names:
        flags, lib, rt, asan = BUILDS[n]
        for s in srcs:
            if s in rts and s != rt: continue
            # only what differs between the two kinds of build is compiled twice
            objs[n].append(compile_cpp(s, asan if s in ('core',) or s in rts else False))
        redef = os.path.join(tmp, 'redef_' + n)
        with open(redef, 'w') as f:
            f.write(open(os.path.join(HERE, 'tools/redefine.common')).read())
            if not asan:
                for x in SIMX: f.write('%s simx_%s\n' % (x, x))
        if n == 'variants':
            variant_jobs = variants(tmp, redef)
            continue
        for s in lib:
            o = os.path.join(tmp, 'lib_%s_%s.o' % (n, s.replace('/', '_')))
            steps = [[CC] + flags + ['-w', '-c', os.path.join(REPO, s), '-o', o]]
            oc = ['objcopy', '--redefine-syms', redef]
            if not asan: oc += ['--rename-section', '.data=tgdata', '--rename-section', '.bss=tgbss']
            steps.append(oc + [o, o + 'x'])
            jobs.append(steps)
            objs[n].append(o + 'x')
    with ThreadPoolExecutor(NPROC) as ex:
        fv = [ex.submit(f) for f in variant_jobs]
        list(ex.map(lambda steps: [run(c) for c in steps], sorted(jobs, key=lambda j: -len(j))))
        if fv: objs['variants'] += [f.result()[0] for f in fv] + [dispatch(tmp, [f.result()[1] for f in fv])]
    out = {}
    def link(n):
        b = os.path.join(tmp, 'sim_' + n)
        run([CXX, '-no-pie'] + (['-fsanitize=address'] if BUILDS[n][3] else []) + objs[n] + ['-lm', '-o', b])
        dst = os.path.join(BUILD, 'sim_%s_%d' % (n, os.getpid()))
        os.replace(b, dst)
        return n, dst
    with ThreadPoolExecutor(NPROC) as ex:
        for n, b in ex.map(link, names): out[n] = b
    shutil.rmtree(tmp, ignore_errors=True)
    return out

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=4:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:print_legend=0',
           LC_ALL='C', TZ='UTC')
ENV['ASAN_SYMBOLIZER_PATH'] = shutil.which('llvm-symbolizer-18') or shutil.which('llvm-symbolizer') or ''

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def read_trace(path):
    with open(path, 'rb') as f:
        h = struct.unpack(HEAD_FMT, f.read(struct.calcsize(HEAD_FMT)))
        t = dict(magic=h[0], status=h[1], nvals=h[2:5], index=h[5], seed=h[6], hash=h[7], events=h[8],
                 cls=h[9].split(b'\0')[0].decode('utf8', 'replace'), msg=h[10].split(b'\0')[0].decode('utf8', 'replace'))
        base = struct.calcsize(HEAD_FMT)
        t['streams'] = []
        for i in range(NSTREAM):
            f.seek(base + i * TRACE_CAP * 4)
            n = t['nvals'][i]
            t['streams'].append(list(struct.unpack('<%dI' % n, f.read(4 * n))))
    return t

def classify(rc, trace, err):
    """(class, message, site) of a run that ended abnormally, or None when it is the harness that failed."""
    if rc == 3 and trace['status'] == ST_VIOLATION:
        return trace['cls'], trace['msg'], ''
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m and trace['status'] == ST_RUNNING:
        kind = m.group(1)
        rw = re.search(r'^(READ|WRITE) of size', err, re.M)
        site = ''
        for fm in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', err):
            if fm.group(2).startswith(REPO + '/'):
                site = fm.group(1); break
        return 'memory:' + kind, '%s%s%s' % (kind, ' (%s)' % rw.group(1).lower() if rw else '', ' in ' + site if site else ''), site
    if rc < 0 and -rc in (11, 7, 8, 4, 6) and trace['status'] == ST_RUNNING:
        return 'crash:signal%d' % -rc, 'the process died from signal %d' % -rc, ''
    return None

# ------------------------------------------------------------------ known findings
def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k['property'] == prop and k.get('status') == 'open': out.append(k)
    return out
def match_known(known, cls, msg):
    for k in known:
        if k['class'] == cls and re.search(k['match'], msg): return k
    return None

# ------------------------------------------------------------------ one batch
class Batch:
    def __init__(self, prop, scen, bname, binary, seed, runs, cap, work, known):
        self.prop, self.scen, self.bname, self.binary, self.seed = prop, scen, bname, binary, seed
        self.runs, self.cap, self.work, self.known = runs, cap, work, known
        self.viol, self.stats, self.known_hits, self.error = None, [], {}, None
        self.lock = threading.Lock(); self.procs = []; self.stop = False
    def worker(self, w, nw, t_end):
        start, step, todo, part = w, nw, len(range(w, self.runs, nw)), 0
        while todo > 0 and not self.stop:
            base = os.path.join(self.work, '%s_%s_%d_%d' % (self.scen, self.bname, w, part)); part += 1
            left = max(1.0, t_end - time.time())
            cmd = [self.binary, 'run', self.scen, str(self.seed), str(start), str(step), str(todo), '%.1f' % left, base + '.tr', base + '.st']
            with open(base + '.err', 'wb') as ef:
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, preexec_fn=limits)
            with self.lock: self.procs.append(p)
            rc = p.wait()
            if self.stop: return
            if rc == 0:
                s = json.load(open(base + '.st'))
                for k, e in (('inter', '.inter'), ('cases', '.cases')):
                    d = open(base + '.st' + e, 'rb').read()
                    s[k] = set(struct.unpack('<%dQ' % (len(d) // 8), d))
                with self.lock: self.stats.append(s)
                os.remove(base + '.tr')
                return
            t = read_trace(base + '.tr'); err = open(base + '.err', errors='replace').read()
            c = classify(rc, t, err)
            with self.lock:
                if c is None:
                    self.error = 'scenario %s build %s run %d ended with %d: %s' % (self.scen, self.bname, t['index'], rc, err[-1500:])
                    self.halt(); return
                k = match_known(self.known, c[0], c[1])
                if k:
                    self.known_hits[k['id']] = self.known_hits.get(k['id'], 0) + 1
                else:
                    v = dict(cls=c[0], msg=c[1], site=c[2], index=t['index'], seed=t['seed'], hash=t['hash'], streams=t['streams'],
                             err=err[-6000:], seq=(start, step, (t['index'] - start) // step + 1))
                    if self.viol is None or v['index'] < self.viol['index']: self.viol = v
                    self.halt(); return
            done = (t['index'] - start) // step + 1
            start += done * step; todo -= done
    def halt(self):
        self.stop = True
        for p in self.procs:
            if p.poll() is None: p.kill()
    def go(self):
        t_end = time.time() + self.cap
        ths = [threading.Thread(target=self.worker, args=(w, NPROC, t_end)) for w in range(NPROC)]
        for t in ths: t.start()
        for t in ths: t.join()
        return self

# ------------------------------------------------------------------ replay and minimisation
class Replayer:
    def __init__(self, binary, scen, index, work):
        self.binary, self.scen, self.index, self.work = binary, scen, index, work
        self.n = 0; self.lock = threading.Lock()
    def __call__(self, streams, verbose=False, timeout=120):
        with self.lock: self.n += 1; n = self.n
        base = os.path.join(self.work, 'rp%d' % n)
        with open(base + '.in', 'w') as f:
            f.write('%d\n' % self.index)
            for s in streams: f.write('%d %s\n' % (len(s), ' '.join(map(str, s))))
        try:
            with open(base + '.err', 'wb') as ef, open(base + '.out', 'wb') as of:
                r = subprocess.run([self.binary, 'replay', self.scen, base + '.in', base + '.tr'] + (['-v'] if verbose else []),
                                   stdout=of, stderr=ef, env=ENV, preexec_fn=limits, timeout=timeout)
            t = read_trace(base + '.tr')
            c = classify(r.returncode, t, open(base + '.err', errors='replace').read())
            res = dict(rc=r.returncode, cls=c[0] if c else None, msg=c[1] if c else None, site=c[2] if c else None, hash=t['hash'], streams=t['streams'],
                       out=open(base + '.out', errors='replace').read() if verbose else '', err=open(base + '.err', errors='replace').read() if verbose else '')
        except subprocess.TimeoutExpired:
            res = dict(rc=None, cls='timeout', msg='', site='', hash=0, streams=streams, out='', err='')
        finally:
            for e in ('.in', '.tr', '.err', '.out'):
                try: os.remove(base + e)
                except OSError: pass
        return res

def minimise(rp, streams, cls, budget):
    """Delta debugging on the choice streams: any candidate that shows the same class is kept."""
    t_end = time.time() + budget
    cur = [list(s) for s in streams]
    tried = 0
    size = lambda ss: (sum(len(s) for s in ss), sum(1 for s in ss for v in s if v), sum(v for s in ss for v in s))
    with ThreadPoolExecutor(NPROC) as ex:
        def attempt(cands):
            nonlocal cur, tried
            cands = [c for c in cands if size(c) < size(cur)]
            for i in range(0, len(cands), NPROC):
                if time.time() > t_end: return False
                chunk = cands[i:i + NPROC]; tried += len(chunk)
                res = list(ex.map(lambda c: rp(c, timeout=60), chunk))
                ok = [(c, r) for c, r in zip(chunk, res) if r['cls'] == cls]
                if ok:
                    best = min((c for c, r in ok), key=size)
                    # keep what was really consumed
                    cons = next(r['streams'] for c, r in ok if c is best)
                    trimmed = [s[:max(0, len(t))] for s, t in zip(best, cons)]
                    cur = trimmed if size(trimmed) <= size(best) else best
                    return True
            return False
        def strip(ss): 
            ss = [list(s) for s in ss]
            for s in ss:
                while s and s[-1] == 0: s.pop()
            return ss
        # trailing zeros are implied
        c = strip(cur)
        if rp(c)['cls'] == cls: cur = c
        progress = True
        while progress and time.time() < t_end:
            progress = False
            for si in (2, 1, 0):
                attempt([[[] if i == si else list(s) for i, s in enumerate(cur)]]) and (progress := True) if cur[si] else None
                k = max(1, len(cur[si]) // 2)
                while k >= 1 and time.time() < t_end:
                    pos = 0; any_ = True
                    while any_ and time.time() < t_end:
                        n = len(cur[si]); any_ = False
                        cands = []
                        for p in range(0, n, k):
                            d = [list(s) for s in cur]; del d[si][p:p + k]; cands.append(d)
                        for p in range(0, n, k):
                            if any(cur[si][p:p + k]):
                                z = [list(s) for s in cur]; z[si][p:p + k] = [0] * len(z[si][p:p + k]); cands.append(strip(z))
                        if len(cands) > 400: cands = cands[:400]
                        if attempt(cands): any_ = progress = True
                    if k == 1: break
                    k = max(1, k // 2)
                # lower single values
                any_ = True
                while any_ and time.time() < t_end:
                    any_ = False; cands = []
                    for p, v in enumerate(cur[si]):
                        for nv in {0, 1, v // 2, v - 1}:
                            if 0 <= nv < v:
                                d = [list(s) for s in cur]; d[si][p] = nv; cands.append(strip(d))
                    if len(cands) > 600: cands = cands[:600]
                    if attempt(cands): any_ = progress = True
    return cur, tried

def report(prop, b, work, tier):
    v = b.viol
    rp = Replayer(b.binary, b.scen, v['index'], work)
    r1, r2 = rp(v['streams'], True), rp(v['streams'])
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    doc = dict(property=prop, scenario=b.scen, build=b.bname, cls=v['cls'], message=v['msg'], seed=b.seed, run_index=v['index'], run_seed='%016x' % v['seed'])
    if r1['cls'] == v['cls'] and r2['cls'] == v['cls'] and r1['hash'] == r2['hash']:
        budget = {'quick': 75, 'thorough': 300}[tier]
        streams, tried = minimise(rp, v['streams'], v['cls'], budget)
        f1, f2 = rp(streams, True), rp(streams, True)
        if f1['cls'] != v['cls'] or f1['hash'] != f2['hash']:
            streams, f1 = v['streams'], r1
        doc.update(type='streams', streams=dict(workload=streams[0], faults=streams[1], schedule=streams[2]),
                   values_before=sum(map(len, v['streams'])), values_after=sum(map(len, streams)), candidates_tried=tried,
                   history_hash='%016x' % f1['hash'], message=f1['msg'], trace=f1['out'].splitlines()[-400:], stderr=f1['err'].splitlines()[:60])
    else:
        # the violation depends on what earlier runs of the same process left behind in the library's static memory
        seq = v['seq']; ok = 0
        for i in range(2):
            tr = os.path.join(work, 'seq%d.tr' % i)
            with open(tr + '.err', 'wb') as ef:
                p = subprocess.run([b.binary, 'run', b.scen, str(b.seed), str(seq[0]), str(seq[1]), str(seq[2]), '0', tr, tr + '.st'], stdout=subprocess.DEVNULL, stderr=ef, env=ENV, preexec_fn=limits)
            if p.returncode:
                t = read_trace(tr); c = classify(p.returncode, t, open(tr + '.err', errors='replace').read())
                if c and c[0] == v['cls'] and t['index'] == v['index']: ok += 1
        if ok != 2:
            die('a violation did not reproduce: %s scenario %s build %s run %d: %s / %s; replays gave %s %s, sequence %d of 2' % (prop, b.scen, b.bname, v['index'], v['cls'], v['msg'], r1['cls'], r2['cls'], ok))
        doc.update(type='sequence', start=seq[0], stride=seq[1], count=seq[2], stderr=v['err'].splitlines()[:60])
    name = '%s-%s-%s.json' % (prop, re.sub(r'\W+', '_', v['cls'])[:40], hashlib.sha1(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(HERE, 'replays', name)
    json.dump(doc, open(path, 'w'), indent=1)
    print('%s: %s: %s' % (prop, v['cls'], doc['message']))
    for l in (doc.get('trace') or [])[-25:]: print('    ' + l[:220])
    print('scenario %s, build %s, VERIF_SEED %d, run %d; %s choices, %s after minimisation' % (b.scen, b.bname, b.seed, v['index'], doc.get('values_before', '?'), doc.get('values_after', '?')))
    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    return path

def replay(path):
    doc = json.load(open(path))
    bins = build([doc['build']])
    binary = bins[doc['build']]
    work = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
    try:
        if doc['type'] == 'streams':
            s = doc['streams']
            r = Replayer(binary, doc['scenario'], doc['run_index'], work)([s['workload'], s['faults'], s['schedule']], True)
            sys.stdout.write(r['out'][-8000:]); sys.stdout.write(r['err'][-4000:])
            cls, h = r['cls'], '%016x' % r['hash']
            same = cls == doc['cls']
            print('replayed: %s, history %s (recorded %s, %s)' % (cls, h, doc['cls'], doc['history_hash']))
        else:
            tr = os.path.join(work, 'seq.tr')
            with open(tr + '.err', 'wb') as ef:
                p = subprocess.run([binary, 'run', doc['scenario'], str(doc['seed']), str(doc['start']), str(doc['stride']), str(doc['count']), '0', tr, tr + '.st'], stderr=ef, env=ENV, preexec_fn=limits)
            same = False
            if p.returncode:
                c = classify(p.returncode, read_trace(tr), open(tr + '.err', errors='replace').read())
                same = bool(c) and c[0] == doc['cls']; print('replayed:', c)
    finally:
        shutil.rmtree(work, ignore_errors=True); os.remove(binary)
    if same:
        print('VIOLATION property=%s replay=%s' % (doc['property'], os.path.abspath(path)))
        return 1
    print('not reproduced on this tree')
    return 0

# ------------------------------------------------------------------ a check
def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    known = load_known(prop)
    bins = build([p['build'] for p in plan['batches']])
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    rc, stats, viol, khits = 0, [], 0, {}
    try:
        for p in plan['batches']:
            runs = p[tier] if tier in p else p['quick']
            cap = {'quick': max(30, min(240, 480 - (time.time() - t0))), 'thorough': 7200}[tier]
            b = Batch(prop, p['scenario'], p['build'], bins[p['build']], seed, runs, cap, work, known).go()
            for k, n in b.known_hits.items(): khits[k] = khits.get(k, 0) + n
            if b.error and not b.viol: die(b.error)
            if b.viol:
                viol += 1; rc = 1
                report(prop, b, work, tier)
                stats.append((p, b.stats)); break
            stats.append((p, b.stats))
        # the same runs again in other processes, at another worker count: their histories must be the same
        det = None
        if rc == 0: det = determinism_sample(plan, bins, seed, work, 40 if tier == 'quick' else 400)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        evidence(prop, tier, seed, plan, stats, viol, khits, det, t_build, time.time() - t0, bins, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for b in bins.values():
            try: os.remove(b)
            except OSError: pass
    if rc == 0:
        print('%s: held on %d simulated runs (%.0f s)' % (prop, sum(s['runs'] for p, ss in stats for s in ss), time.time() - t0))
    return rc

def one_hashes(binary, scen, seed, idxs, work, tag):
    def f(i):
        tr = os.path.join(work, 'det_%s_%d.tr' % (tag, i))
        subprocess.run([binary, 'one', scen, str(seed), str(i), tr], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, preexec_fn=limits)
        t = read_trace(tr); os.remove(tr)
        return t['hash'], t['events'], t['nvals'], t['status']
    with ThreadPoolExecutor(NPROC) as ex: return list(ex.map(f, idxs))

def determinism_sample(plan, bins, seed, work, n):
    """Runs a sample of runs in processes of their own, and the same ones in one process, and compares."""
    checked = 0
    for p in plan['batches']:
        idxs = [i * 7 for i in range(n // len(plan['batches']) or 1)]
        a = one_hashes(bins[p['build']], p['scenario'], seed, idxs, work, 'a')
        bhs = one_hashes(bins[p['build']], p['scenario'], seed, idxs, work, 'b')
        if a != bhs:
            bad = [i for i, x, y in zip(idxs, a, bhs) if x != y]
            die('the simulation is not deterministic: scenario %s build %s runs %s' % (p['scenario'], p['build'], bad[:5]))
        checked += len(idxs)
    return checked

def evidence(prop, tier, seed, plan, stats, viol, khits, det, t_build, wall, bins, work):
    runs = sum(s['runs'] for p, ss in stats for s in ss)
    steps = sum(s['steps'] for p, ss in stats for s in ss)
    inter, cases, cnt = set(), set(), {}
    per = []
    for p, ss in stats:
        bc = set()
        for s in ss:
            inter |= s['inter']; bc |= s['cases']
            for kind, name, n in s['counters']: cnt.setdefault(kind, {}); cnt[kind][name] = cnt[kind].get(name, 0) + n
        cases |= bc
        w = max([s['wall'] for s in ss] or [0])
        r = sum(s['runs'] for s in ss)
        per.append(dict(scenario=p['scenario'], build=p['build'], runs=r, seconds=round(w, 2), runs_per_hour=int(r / w * 3600) if w else 0,
                        distinct_cases=len(bc), memory_accesses=sum(s['steps'] for s in ss), hash=[s['hash'] for s in ss][:8]))
    simw = sum(x['seconds'] for x in per) or 1
    samples = sample_runs(plan, bins, seed, work)
    cov = dict(evaluations=runs, distinct_nontrivial=len(cases), rule=plan['rule'], samples=samples,
               batches=per, seeds=runs, seeds_per_hour=int(runs / simw * 3600),
               simulated_time_memory_accesses=steps, faults_injected=cnt.get('fault', {}), operations=cnt.get('op', {}), rare_conditions_reached=cnt.get('probe', {}),
               distinct_interleavings=len(inter), interleaving_measure='hash of the sequence of (thread, point of preemption) of a run' if inter else 'no concurrency in this scenario; distinct_nontrivial counts structurally different runs',
               runs_repeated_for_determinism=det or 0,
               real_components=plan['real'], stub_components=plan['stub'], build_seconds=round(t_build, 1), exhaustive=False)
    if khits: cov['known_findings_hit'] = khits
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    doc = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=plan['assumptions'], wall_s=round(wall, 1), violations=viol)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(doc, f, indent=1)

def sample_runs(plan, bins, seed, work):
    """A few of the runs of this check, written out."""
    out = []
    for p in plan['batches']:
        for i in (3, 11):
            tr = os.path.join(work, 'sample.tr')
            r = subprocess.run([bins[p['build']], 'one', p['scenario'], str(seed), str(i), tr, '-v'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, preexec_fn=limits)
            t = read_trace(tr)
            out.append(dict(scenario=p['scenario'], build=p['build'], run=i, run_seed='%016x' % t['seed'], choices=list(t['nvals']), events=t['events'], history='%016x' % t['hash'],
                            text=[l[:200] for l in r.stdout.decode('utf8', 'replace').splitlines()[:14]]))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay'); ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--determinism', type=int, default=0)
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    for p in glob.glob(BUILD + '/*'):                 # left behind by a check that was ended
        if time.time() - os.path.getmtime(p) > 4 * 3600: shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)
    if a.replay: return replay(a.replay)
    if a.build_only:
        for b in build(BUILDS).values(): os.remove(b)
        print('all builds succeed'); return 0
    if a.determinism:
        bins = build(BUILDS)
        work = tempfile.mkdtemp(prefix='det-', dir=BUILD)
        n = 0
        for prop, plan in PLAN.items():
            if a.property and prop != a.property: continue
            k = determinism_sample(plan, bins, a.seed, work, a.determinism); n += k
            print('%s: %d runs repeated, same histories' % (prop, k), flush=True)
        shutil.rmtree(work)
        for b in bins.values(): os.remove(b)
        return 0
    if a.property not in PLAN: die('unknown property %s' % a.property)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    return check(a.property, tier, a.seed)

if __name__ == '__main__':
    sys.exit(main())
