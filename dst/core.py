"""Build, run and judge simulated executions of SMASH; drive a seeded search; gate, minimise and report."""
import collections, copy, hashlib, json, multiprocessing, os, random, select, shutil, signal, subprocess, sys, tempfile, time
import traceback
import outputs

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
BIN = os.path.join(BUILD, 'obj', 'simsmash')
SCRATCH = None
TABS = None

class Broken(Exception):
    """The machinery itself failed (exit 2, never a violation)."""

class Violation(Exception):
    def __init__(self, cls, msg, detail=None):
        super().__init__(msg)
        self.cls, self.msg, self.detail = cls, msg, detail

def setup_build():
    p = subprocess.run([os.path.join(HERE, 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode(errors='replace')[-6000:])
        raise Broken('build failed')

def find_bin():
    global BIN
    for c in (BIN, os.path.join(BUILD, 'obj', 'src', 'simsmash')):
        if os.path.exists(c):
            BIN = c
            return
    for d, _, fs in os.walk(os.path.join(BUILD, 'obj')):
        if 'simsmash' in fs:
            BIN = os.path.join(d, 'simsmash')
            return
    raise Broken('no simsmash')

def make_scratch():
    global SCRATCH
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else BUILD
    SCRATCH = tempfile.mkdtemp(prefix='simsmash.', dir=base)

def drop_scratch():
    if SCRATCH and os.path.basename(SCRATCH).startswith('simsmash.'):
        shutil.rmtree(SCRATCH, ignore_errors=True)

_species = {}
def species(universe):
    if universe not in _species:
        _species[universe] = outputs.load_species(os.path.join(HERE, 'data', 'particles_%s.txt' % universe))
    return _species[universe]

def universe_files(u):
    return (os.path.join(HERE, 'data', 'particles_%s.txt' % u), os.path.join(HERE, 'data', 'decaymodes_%s.txt' % u))

# ------------------------------------------------------------------------------ one execution
class Run:
    __slots__ = ('rc', 'out', 'err', 'root', 'outdir', 'trace', 'timeout', 'sig')
    def files(self):
        """{relative path: bytes} below the output directory"""
        r = {}
        for d, _, fs in os.walk(self.outdir):
            for f in fs:
                p = os.path.join(d, f)
                r[os.path.relpath(p, self.outdir)] = open(p, 'rb').read()
        return r
    def path(self, name):
        return os.path.join(self.outdir, name)
    def log(self):
        return (self.out + self.err).decode(errors='replace')
    def clean(self):
        shutil.rmtree(self.root, ignore_errors=True)
    def trace_ops(self):
        ops, faults, end = [], [], None
        try:
            for l in open(self.trace, errors='replace'):
                f = l.split()
                if not f:
                    continue
                if f[0] == 'FAULT':
                    faults.append(f[1:])
                elif f[0] == 'END':
                    end = f
                elif f[0].isdigit():
                    ops.append((int(f[0]), f[1], f[2] if len(f) > 2 else '', f[3] if len(f) > 3 else ''))
        except FileNotFoundError:
            pass
        return ops, faults, end

_n = 0
def fresh_root():
    global _n
    _n += 1
    # fixed width: the length of a path must not differ between repetitions of a run
    p = os.path.join(SCRATCH, '%08d.%08d' % (os.getpid(), _n))
    os.makedirs(p)
    return p

def clean_env(extra):
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': '/nonexistent'}
    e.update({k: str(v) for k, v in extra.items()})
    return e

def put_tabs(root, universe, ):
    d = os.path.join(root, 'tabulations')
    src = TABS[universe]
    if not os.path.isdir(d):
        os.makedirs(d)
        for f in os.listdir(src):
            shutil.copyfile(os.path.join(src, f), os.path.join(d, f))
    return d

def write_case(case, root, name='in'):
    d = os.path.join(root, name)
    os.makedirs(d, exist_ok=True)
    for f, t in case.get('files', {}).items():
        with open(os.path.join(d, f), 'w' if isinstance(t, str) else 'wb') as h:
            h.write(t)
    cfg = json.dumps(case['config'], ensure_ascii=False, indent=1).replace('@IN@', d)
    with open(os.path.join(d, 'config.yaml'), 'w') as h:
        h.write(cfg)
    return d

def call(args, env, cwd, timeout=60, root=None):
    r = Run()
    r.root = root or cwd
    r.timeout = False
    try:
        # timeout: processor time (the shim sets the limit); the wall limit is only for a run that waits for nothing
        p = subprocess.run([BIN] + args, env=clean_env(dict({'SIM_CPU': timeout}, **env)), cwd=cwd, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=5 * timeout)
        r.rc, r.out, r.err = p.returncode, p.stdout, p.stderr
        if r.rc == -signal.SIGXCPU:
            r.rc, r.timeout = 124, True
    except subprocess.TimeoutExpired as e:
        r.rc, r.out, r.err, r.timeout = 124, e.stdout or b'', e.stderr or b'', True
    r.sig = -r.rc if r.rc < 0 else (6 if r.rc == 134 else 0)
    return r

def smash_args(case, root, ind, u, force=True, outd=None, extra=()):
    """Command line of one run."""
    pf, df = universe_files(u)
    if case.get('particles_file'):
        pf = os.path.join(ind, case['particles_file'])
    if case.get('decay_file'):
        df = os.path.join(ind, case['decay_file'])
    args = ['smash'] + (['-f'] if force else []) + ['-i', os.path.join(ind, 'config.yaml'), '-p', pf, '-d', df]
    if outd:
        args += ['-o', outd]
    return args + [a.replace('@ROOT@', root) for a in case.get('args', [])] + list(extra)

class Process:
    """A run that asks the scheduler before each of its file operations."""
    def __init__(self, root, name, args, env, cwd=None):
        r1, self.w = os.pipe()    # driver -> run
        self.r, w1 = os.pipe()    # run -> driver
        e = {'SIM_ROOT': root, 'SIM_SEED': 1, 'SIM_CPU': 60, 'SIM_TRACE': os.path.join(root, 'trace.' + name), 'SIM_SCHED': '%d,%d' % (r1, w1)}
        e.update(env)
        self.log = os.path.join(root, 'log.' + name)
        with open(self.log, 'wb') as h:
            self.p = subprocess.Popen([BIN] + args, env=clean_env(e), cwd=cwd or root, stdin=subprocess.DEVNULL, stdout=h,
                                      stderr=subprocess.STDOUT, pass_fds=(r1, w1))
        os.close(r1)
        os.close(w1)
        self.name, self.buf, self.pending, self.rc = name, b'', None, None
        self.advance()
    def advance(self):
        """waits until the run announces its next operation or ends"""
        self.pending = None
        while b'\n' not in self.buf:
            if not select.select([self.r], [], [], 300)[0]:
                self.p.kill()
                self.p.wait()
                self.close()
                self.rc = 124
                return
            d = os.read(self.r, 4096)
            if not d:
                self.rc = self.p.wait()
                if self.rc == -signal.SIGXCPU:
                    self.rc = 124
                self.close()
                return
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        n, kind, rest = l.decode(errors='replace').split(' ', 2)
        path, size = rest.rsplit(' ', 1)
        self.pending = (kind, path, int(size))
    def go(self, c=b'g'):
        os.write(self.w, c)
        self.advance()
    def close(self):
        for f in (self.r, self.w):
            try:
                os.close(f)
            except OSError:
                pass
    def text(self):
        return open(self.log, errors='replace').read()
    def abandon(self):
        if self.rc is None:
            self.p.kill()
            self.p.wait()
            self.close()

def smash(case, env=None, extra=(), root=None, outname='out', tabs=True, force=True, timeout=60, cwd=None,
          outarg=True, universe=None):
    """Runs the whole program (its main) once in a fresh simulated machine."""
    root = root or fresh_root()
    ind = write_case(case, root)
    u = universe or case['universe']
    if tabs:
        put_tabs(root, u)
    outd = os.path.join(root, outname)
    args = smash_args(case, root, ind, u, force, outd if outarg else None, extra)
    e = {'SIM_ROOT': root, 'SIM_SEED': 1, 'SIM_TRACE': os.path.join(root, 'trace')}
    e.update(case.get('env', {}))
    e.update(env or {})
    r = call(args, e, cwd or root, timeout, root)
    r.outdir = outd
    r.trace = e['SIM_TRACE'] if isinstance(e['SIM_TRACE'], str) else os.path.join(root, 'trace')
    return r

def crashed(r):
    """A run that ended by a signal or heap corruption; None if it ended in an orderly way."""
    if r.sig:
        tail = r.log().strip().split('\n')[-3:]
        return 'ended by signal %d: %s' % (r.sig, ' | '.join(tail)[-400:])
    return None

def prewarm(universes):
    """Tabulations of each universe, made once per build of the simulator by the code under test."""
    global TABS
    h = hashlib.sha256(open(BIN, 'rb').read())
    for u in universes:
        for f in universe_files(u):
            h.update(open(f, 'rb').read())
    base = os.path.join(BUILD, 'tabs')
    key = os.path.join(base, h.hexdigest()[:24])
    TABS = {u: os.path.join(key, u) for u in universes}
    if all(os.path.isdir(d) for d in TABS.values()):
        return
    os.makedirs(base, exist_ok=True)
    for old in os.listdir(base):
        if os.path.join(base, old) != key and len(os.listdir(base)) > 4:
            shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    for u in universes:
        if os.path.isdir(TABS[u]):
            continue
        case = {'universe': u, 'config': {
            'Logging': {'default': 'ERROR'},
            'General': {'Modus': 'Sphere', 'End_Time': 0.5, 'Delta_Time': 0.1, 'Randomseed': 1, 'Nevents': 1},
            'Output': {'Output_Interval': 1.0, 'Particles': {'Format': ['Oscar2013']}},
            'Collision_Term': {'Strings': False},
            'Modi': {'Sphere': {'Radius': 3.0, 'Temperature': 0.1, 'Start_Time': 0.0,
                                'Initial_Condition': 'thermal momenta', 'Init_Multiplicities': {'221' if u == 'one' else '211': 2}}}}}
        r = smash(case, tabs=False, timeout=120)
        d = os.path.join(r.root, 'tabulations')
        if r.rc != 0 or not os.path.isdir(d):
            raise Violation('startup', 'a plain small run fails (exit %d): %s' % (r.rc, r.log()[-600:]))
        os.makedirs(key, exist_ok=True)
        tmp = TABS[u] + '.tmp%d' % os.getpid()
        shutil.copytree(d, tmp)
        try:
            os.rename(tmp, TABS[u])
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        r.clean()

# ------------------------------------------------------------------------------ the search
class Outcome:
    """What one case showed: v = (class, message) or None; key = what makes it distinct (None if trivial)."""
    def __init__(self, v=None, key=None, stats=None, sample=None, digest=''):
        self.v, self.key, self.stats, self.sample, self.digest = v, key, stats or {}, sample, digest

class Check:
    id = ''
    level = 'exploration'
    universes = ('std', 'pi')
    rule = ''
    assumptions = ()
    quick_n, thorough_n = 100, 2000
    batch = 4
    real = 'all of SMASH from the working tree (main program or library), real libstdc++ streams and stdio'
    stub = 'PYTHIA (stub; strings off), kernel file, clock, entropy and allocation calls (simulated by the shim)'

    def gen(self, rng, i, tier):
        raise NotImplementedError
    def execute(self, case):
        raise NotImplementedError
    def shrink(self, case):
        return iter(())
    # helpers
    def judge(self, case):
        """execute, turning Violation into an outcome"""
        try:
            return self.execute(case)
        except outputs.Bad as e:
            return Outcome(v=('malformed output', str(e)), digest='bad')
        except Violation as v:
            return Outcome(v=(v.cls, v.msg), digest=hashlib.sha256((v.cls + v.msg).encode()).hexdigest()[:16])

def case_rng(seed, cid, i):
    return random.Random('%d/%s/%d' % (seed, cid, i))

_check = None
def _init(check):
    global _check
    _check = check
    signal.signal(signal.SIGINT, signal.SIG_IGN)

def _work(job):
    seed, tier, i0, n, deadline = job
    res = []
    for i in range(i0, i0 + n):
        if time.time() > deadline:
            break
        case = None
        try:
            case = _check.gen(case_rng(seed, _check.id, i), i, tier)
            o = _check.judge(case)
            res.append((i, o.v, o.key, o.stats, o.sample, o.digest, case if o.v else None))
        except Exception:
            # a check that fails on what the code under test produced says so; it is not silent
            res.append((i, ('machinery', traceback.format_exc()[-1500:]), None, {}, None, '', case))
    return res

def strip_root(s):
    import re
    s = re.sub(r'/[^ ]*simsmash\.[^/ ]*/\d{8}\.\d{8}', '<root>', s)
    return re.sub(r'/[^ ]*simsmash\.[^/ ]*', '<scratch>', s)

def reason(msg):
    """why a run was refused or failed: minimising must not turn one reason into another"""
    if 'following error:' not in msg:
        return ''
    return ' '.join(msg.split('following error:')[1].split()[:4])

def minimise(check, case, v, budget):
    t0 = time.time()
    best, tries = case, 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in check.shrink(best):
            if time.time() - t0 > budget:
                break
            tries += 1
            try:
                o = check.judge(cand)
            except Exception:
                continue
            if o.v and o.v[0] == v[0] and reason(o.v[1]) == reason(v[1]):
                best, progress = cand, True
                break
    return best, tries

def known_findings():
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith(('fixed:', '#')):
                out.append(json.loads(l))
    return out

def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run one case and print it')
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--no-build', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--all', action='store_true', help='list every violation found, minimise none')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    rc = 2
    try:
        if not a.no_build:
            setup_build()
        find_bin()
        make_scratch()
        rc = drive(check, a, tier, t0)
    except Broken as e:
        print('ERROR %s: %s' % (check.id, e))
        rc = 2
    finally:
        if a.keep:
            print('scratch', SCRATCH)
        else:
            drop_scratch()
    return rc

def write_evidence(check, tier, seed, cov, wall, nviol):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=nviol)
    s = json.dumps(ev, ensure_ascii=False, indent=1)
    while len(s.encode()) > 60000 and cov.get('samples'):
        cov['samples'] = cov['samples'][:-1]
        s = json.dumps(ev, ensure_ascii=False, indent=1)
    tmp = os.path.join(d, check.id + '.json.tmp')
    with open(tmp, 'w') as f:
        f.write(s)
    os.rename(tmp, os.path.join(d, check.id + '.json'))

def report(check, seed, tier, case, v, index, budget=None):
    """Gate, minimise, write the replay file.  Returns the exit code."""
    if v[0] == 'machinery':
        o = check_again(check, case)
        print('ERROR %s: case %s: %s' % (check.id, index, v[1]))
        return 2
    t0 = time.time()
    o1 = check.judge(case)
    slow = time.time() - t0 > 20          # a run that hangs: each repetition takes as long as the time limit
    o2 = o1 if slow else check.judge(case)
    if not (o1.v and o2.v) or (o1.v[0], strip_root(o1.v[1])) != (o2.v[0], strip_root(o2.v[1])):
        print('ERROR %s: case %s does not reproduce: %r / %r / %r' % (check.id, index, v, o1.v, o2.v))
        return 2
    small, tries = minimise(check, case, v, budget if budget is not None else (20 if slow and tier == 'quick' else 60 if tier == 'quick' else 240))
    o = o1 if small is case else check.judge(small)
    if not o.v:
        small, o = case, o1
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (check.id, hashlib.sha256(json.dumps(small, sort_keys=True, default=repr)
                                                                    .encode()).hexdigest()[:12]))
    with open(path, 'w') as f:
        json.dump(dict(property=check.id, seed=seed, tier=tier, index=index, violation=o.v[0],
                       message=strip_root(o.v[1]), case=small, minimise_runs=tries), f, indent=1, ensure_ascii=False,
                  default=repr)
    # replay of the file in a fresh process
    env = dict(os.environ)
    p = subprocess.run([sys.executable, os.path.abspath(sys.argv[0]), check.id, '--no-build', '--replay', path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode != 1:
        print('ERROR %s: the replay file does not reproduce in a fresh process (exit %d): %s'
              % (check.id, p.returncode, p.stdout.decode(errors='replace')[-1500:]))
        return 2
    print('%s: %s' % (o.v[0], strip_root(o.v[1])))
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    return 1

def check_again(check, case):
    try:
        return check.judge(case)
    except Exception:
        return None

def drive(check, a, tier, t0):
    try:
        if check.universes:
            prewarm(check.universes)
    except Violation as e:
        # the simplest run of all fails: any property about finished runs is void; report it as a case
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-startup.json' % check.id)
        json.dump(dict(property=check.id, violation='startup', message=strip_root(e.msg), case=None), open(path, 'w'))
        print(strip_root(e.msg))
        write_evidence(check, tier, a.seed, dict(evaluations=1, distinct_nontrivial=1, rule=check.rule, samples=[e.msg[:300]]),
                       time.time() - t0, 1)
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    if hasattr(check, 'prepare'):
        check.prepare()
    known = [k for k in known_findings() if k.get('property') == check.id]
    if a.replay:
        rec = json.load(open(a.replay))
        if rec.get('case') is None:
            print('the smallest run starts again')
            return 0
        o = check.judge(rec['case'])
        if o.v:
            print('%s: %s' % (o.v[0], strip_root(o.v[1])))
            same = o.v[0] == rec.get('violation') and strip_root(o.v[1]) == rec.get('message')
            print('VIOLATION property=%s replay=%s' % (check.id, a.replay))
            return 1 if same else 3
        print('held on this case')
        return 0
    if a.one is not None:
        case = check.gen(case_rng(a.seed, check.id, a.one), a.one, tier)
        print(json.dumps(case, indent=1, default=repr)[:6000])
        o = check.judge(case)
        print('outcome', o.v, o.key, dict(o.stats))
        return 1 if o.v else 0
    n = a.n or (check.quick_n if tier == 'quick' else check.thorough_n)
    cap = 300 if tier == 'quick' else 2400
    deadline = time.time() + cap
    print('%s seed %d: %d cases' % (check.id, a.seed, n))
    jobs = [(a.seed, tier, i, min(check.batch, n - i), deadline) for i in range(0, n, check.batch)]
    stats, keys, samples, done, viols = collections.Counter(), set(), [], 0, []
    digest = hashlib.sha256()
    stop = False
    with multiprocessing.Pool(a.jobs, _init, (check,)) as pool:
        for res in pool.imap(_work, jobs):
            for i, v, key, st, sample, dg, case in res:
                done += 1
                for k, x in st.items():
                    if k.startswith('max '):
                        stats[k] = max(stats[k], x)
                    else:
                        stats[k] += x
                if isinstance(key, tuple):
                    keys.update(key)
                elif key is not None:
                    keys.add(key)
                if sample is not None and len(samples) < 6:
                    samples.append(sample)
                digest.update(dg.encode())
                if v:
                    k = next((k for k in known if k['match'] in strip_root(v[1]) and k['class'] == v[0]), None)
                    if k:
                        stats['known finding hits'] += 1
                        continue
                    viols.append((i, v, case))
                    if not a.all:
                        stop = True
            if stop:
                pool.terminate()
                break
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (check.id, k['what']))
    wall = time.time() - t0
    hours = max(wall, 1e-3) / 3600
    runs = stats.get('runs', done)
    cov = dict(evaluations=done, distinct_nontrivial=len(keys), rule=check.rule,
               samples=samples, seeds_per_hour=int(done / hours), simulated_runs=int(runs),
               runs_per_hour=int(runs / hours), history_digest=digest.hexdigest()[:16],
               counters={k: (round(x, 3) if isinstance(x, float) else x) for k, x in sorted(stats.items())},
               ran_real_code=check.real, ran_stub=check.stub)
    if viols and a.all:
        for i, v, case in viols:
            print('case %d: %s: %s' % (i, v[0], strip_root(v[1])[:600]))
        return 1
    rc = 0
    if viols:
        i, v, case = viols[0]
        real = [x for x in viols if x[1][0] not in ('machinery', 'hang')] or [x for x in viols if x[1][0] != 'machinery']
        if real:
            i, v, case = real[0]
        rc = report(check, a.seed, tier, case, v, i)
    write_evidence(check, tier, a.seed, cov, wall, 1 if rc == 1 else 0)
    if rc == 0:
        # probes: a workload that stopped reaching what it is meant to reach must not pass silently
        for name, least in getattr(check, 'probes', {}).items():
            need = least if tier == 'quick' and not a.n else 1
            if stats.get(name, 0) < 1 and not a.n:
                print('NOTE %s: probe "%s" was never reached' % (check.id, name))
        print('OK %s: %d cases, %d distinct, %.1f s' % (check.id, done, len(keys), time.time() - t0))
    return rc
