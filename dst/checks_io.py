"""C06 failed or killed runs; C07 concurrent and repeated runs; C08 the cache of tabulated integrals."""
import copy, errno, hashlib, os, random, re, select, shutil, subprocess, time
import core, features, gen, oracles, outputs, physics, runbase
from core import Check, Outcome, Violation
from checks_repro import compare, digest, finished, blown_up

E = errno
WRITE_ERR = [E.ENOSPC, E.EIO, E.EDQUOT]
OPEN_ERR = [E.ENOSPC, E.EACCES, E.EMFILE, E.EIO, E.EROFS]
RENAME_ERR = [E.EIO, E.EACCES, E.ENOSPC]

def small_case(rng, tier='quick', prof=None):
    p = {'n': 8 if tier == 'quick' else 20, 'end': 2.0, 'modi': ['Box', 'Sphere', 'Collider', 'List']}
    p.update(prof or {})
    return gen.run_case(rng, p)

def neutral(b):
    return re.sub(rb'/[^ "]*simsmash[^ "]*/(in\d*)?', b'<root>/', b)

def rel_files(r):
    fs = r.files()
    for n in fs:
        if n == 'config.yaml':
            fs[n] = neutral(fs[n])
    return fs

class C06(Check):
    id = 'C06'
    level = 'fault_enumeration'
    quick_n, thorough_n = 600, 12000
    rule = 'distinct (kind of fault, operation, file it hit, exit status) reached'
    assumptions = ('a killed process loses what it had not yet handed to the kernel, the kernel loses nothing (no power failure)',
                   'snapshots with one file per output time (VTK, lattice dumps) are not covered by the clause on kills')
    technique = ('deterministic simulation with fault injection: the real program on a simulated disk; a fault-free run gives the '
                 'sequence of operations, then faults and kills are put at seeded points of it')
    def gen(self, rng, i, tier):
        case = small_case(rng, tier)
        if rng.random() < .6:
            features.rich_outputs(rng, case['config'], keep_binary=False)
        case['features'] = []
        if rng.random() < .35:
            features.thermo(rng, case['config'])
        if rng.random() < .15:
            case['features'] = features.add_features(rng, case)
            if 'Potentials' in case['config']:
                case['config']['Output'].get('Thermodynamics', {}).pop('Only_Participants', None)
        if 'Particles' not in case['config']['Output'] and 'Collisions' not in case['config']['Output']:
            case['config']['Output']['Particles'] = {'Format': ['Oscar2013']}
        fs = []
        for _ in range(7 if tier == 'quick' else 14):
            k = rng.choice(['write', 'write', 'write', 'disk', 'disk', 'open', 'close', 'rename', 'kill', 'kill', 'kill', 'oom', 'oom',
                            'any'])
            fs.append({'kind': k, 'x': rng.random(), 'y': rng.random(), 'sticky': rng.random() < .4,
                       'err': rng.randrange(1000)})
        case['faults'] = fs
        case['env'] = runbase.weather(rng, .3)
        return case
    def shrink(self, case):
        if len(case['faults']) > 1:
            for f in case['faults']:
                yield dict(case, faults=[f])
            return
        out = case['config']['Output']
        for k in list(out):
            if isinstance(out[k], dict):
                for f in out[k].get('Format', []):
                    c = copy.deepcopy(case)
                    o = c['config']['Output']
                    if len(o[k]['Format']) > 1:
                        o[k]['Format'].remove(f)
                        if f in ('ASCII', 'Binary') and not {'ASCII', 'Binary'} & set(o[k]['Format']) and k != 'Thermodynamics':
                            o[k].pop('Quantities', None)
                    elif sum(isinstance(v, dict) for v in o.values()) > 1:
                        del o[k]
                    else:
                        continue
                    yield c
        yield from runbase.shrink_run(case)
    def plan(self, f, ops, end, ref):
        """environment that puts this fault at a point of the recorded sequence of operations"""
        mine = [o for o in ops if '/out/' in '/' + o[2].lstrip('/') + '/' or o[2].endswith('/out')]
        k = f['kind']
        if k == 'disk':
            total = int(end[4]) if end else 1000
            return {'SIM_DISK': int(f['x'] * total)}, 'full disk'
        if k == 'oom':
            total = int(end[6]) if end else 1000
            return {'SIM_OOM': 1 + int(f['x'] * total)}, 'failed allocation'
        if k == 'kill':
            o = ops[int(f['x'] * len(ops))]
            size = max(0, int(o[3])) if o[1] == 'write' else 0
            return {'SIM_PLAN': 'any * %d kill %d 0;' % (o[0], int(f['y'] * (size + 1)))}, 'kill at ' + o[1]
        if k == 'any':
            sel = [o for o in mine if o[1] in ('openw', 'openx', 'write', 'close', 'rename', 'mkdir', 'stat', 'unlink')]
        else:
            sel = [o for o in mine if o[1] == {'open': 'openw'}.get(k, k)]
        if not sel:
            return None, None
        o = sel[int(f['x'] * len(sel))]
        errs = {'write': WRITE_ERR, 'close': WRITE_ERR, 'rename': RENAME_ERR}.get(o[1], OPEN_ERR)
        e = errs[f['err'] % len(errs)]
        nth = sum(1 for q in ops if q[1] == o[1] and q[2] == o[2] and q[0] <= o[0])
        # the file alone, or (sticky) every later operation of this kind on it
        return {'SIM_PLAN': '%s %s %d err %d %d;' % (o[1], o[2], nth, e, 1 if f['sticky'] else 0)}, \
            '%s at %s' % (errno.errorcode[e], o[1])
    def execute(self, case):
        st = {}
        ref = core.smash(case)
        runs = [ref]
        try:
            if blown_up(case, ref):
                return Outcome(None, None, st)
            finished(ref, 'run without faults')
            st['runs'] = 1
            rf = rel_files(ref)
            ops, _, end = ref.trace_ops()
            renamed = {os.path.basename(o[2]) for o in ops if o[1] == 'rename'}
            if any(n.endswith('.unfinished') for n in rf):
                raise Violation('incomplete', 'after success there is %s' % [n for n in rf if n.endswith('.unfinished')])
            keys = []
            for f in case['faults']:
                env, what = self.plan(f, ops, end, rf)
                if env is None:
                    continue
                env['SIM_SEED'] = case['env'].get('SIM_SEED', 1)
                r = core.smash(case, env=env)
                runs.append(r)
                _, hit, _ = r.trace_ops()
                st['runs'] += 1
                if not hit:
                    st['fault never reached: ' + what] = st.get('fault never reached: ' + what, 0) + 1
                else:
                    st['fault: ' + what] = st.get('fault: ' + what, 0) + 1
                where = hit[0][-1].rsplit('/', 1)[-1] if hit else ''
                w = '%s (%s)' % (what, ' '.join(hit[0]) if hit else 'not reached')
                if r.timeout:
                    raise Violation('hang', '%s: the run does not end' % w)
                if r.rc != 137 and core.crashed(r) and not (f['kind'] == 'oom' and r.sig == 6 and b'terminate called' in r.err):
                    raise Violation('crash', '%s: the run %s' % (w, core.crashed(r)))
                if r.rc == 137 and f['kind'] != 'kill':
                    raise core.Broken('unexpected death')
                fs = rel_files(r)
                if r.rc == 0:
                    for n in rf:
                        if n not in fs:
                            raise Violation('incomplete', '%s: the run reports success, but %s is missing%s' % (
                                w, n, ' (%s.unfinished is there)' % n if n + '.unfinished' in fs else ''))
                        if fs[n] != rf[n]:
                            raise Violation('incomplete', '%s: the run reports success, but %s has %d of %d bytes or other content'
                                            % (w, n, len(fs[n]), len(rf[n])))
                for n in fs:
                    if n in renamed and not n.endswith('.unfinished') and fs[n] != rf.get(n):
                        raise Violation('passed off', '%s: exit %d, and %s carries its final name with %d bytes of %d' % (
                            w, r.rc, n, len(fs[n]), len(rf.get(n, b''))))
                keys.append('%s|%s|%s|%d' % (what, where, hit[0][1] if hit else '', r.rc))
                st['exit %d' % r.rc] = st.get('exit %d' % r.rc, 0) + 1
                r.clean()
                runs.remove(r)
            st['simulated time fm'] = runbase.sim_time(case) * st['runs']
            d = hashlib.sha1('\n'.join(keys).encode()).hexdigest()[:12]
            return Outcome(None, tuple(keys), st, '; '.join(keys[:4]), d)
        finally:
            for x in runs:
                x.clean()

# ------------------------------------------------------------------------------ several runs at a time
class Machine:
    """Several runs on one simulated machine; a seeded scheduler decides at each step whose next file operation happens."""
    def __init__(self, root):
        self.root, self.procs, self.hist = root, {}, []
    def start(self, name, args, env, cwd=None):
        p = core.Process(self.root, name, args, env, cwd)
        self.procs[name] = p
        return p
    def ready(self):
        return [p for p in self.procs.values() if p.rc is None]
    def step(self, p, kill=False):
        kind, path, size = p.pending
        p.go(b'k' if kill else b'g')
        if not kill:
            self.hist.append((p.name, kind, self.norm(path), size))
        return kind, self.norm(path)
    def norm(self, path):
        return os.path.normpath('/' + path.lstrip('/'))
    def close(self):
        for p in self.procs.values():
            p.abandon()

WRITES = ('openw', 'openx', 'write', 'rename', 'unlink')

class C07(Check):
    id = 'C07'
    quick_n, thorough_n = 700, 20000
    rule = 'distinct interleavings (sequence of process and kind of operation in output directories)'
    assumptions = ('file operations of a process are the scheduling points; between two of them a run only works on its own memory',
                   'an exclusive create is atomic on the file system (no faulty network file system)')
    technique = ('deterministic simulation: several real runs on one simulated machine, a seeded scheduler decides before every '
                 'file operation which one goes on, kills and restarts runs; the merged history is checked against the ownership rules')
    def gen(self, rng, i, tier):
        ps = []
        base = {'n': 4, 'end': 0.6, 'modi': ['Box', 'Sphere', 'List'], 'universe': 'pi', 'nevents': [1, 1, 2]}
        for k in range(rng.choice([2, 2, 3, 3, 4])):
            case = gen.run_case(rng, dict(base))
            o = case['config']['Output']
            for q in list(o):
                if isinstance(o[q], dict) and rng.random() < .5 and sum(isinstance(v, dict) for v in o.values()) > 1:
                    del o[q]
            case['features'] = []
            mode = rng.choice(['same', 'same', 'same', 'same', 'other', 'default', 'default'])
            force = rng.random() < .3
            fail = None
            if rng.random() < .25:
                fail = rng.choice(['badkey', 'badlist', 'modus'])
                if fail == 'badkey':
                    case['config']['General']['Unknown_Key'] = 3
                elif fail == 'modus':
                    case['config']['General']['Modus'] = 'Bax'
                elif case['config']['General']['Modus'] == 'List':
                    case['files']['list0'] = case['files']['list0'][:len(case['files']['list0']) // 2] + ' nonsense 1 2\n'
                else:
                    fail = 'badkey'
                    case['config']['Output']['Unknown_Key'] = 3
            ps.append({'case': case, 'mode': mode, 'force': force, 'fail': fail,
                       'at': 0 if k == 0 or rng.random() < .5 else rng.randrange(0, 120) if rng.random() < .6 else 10**6,
                       'kill': int(rng.random()**2 * 90) if rng.random() < .25 else None,
                       # a stalled run: stops before this operation until others have ended
                       'stall': int(rng.random()**1.3 * 40) if rng.random() < .4 else None})
        return {'universe': 'pi', 'procs': ps, 'sched': rng.randrange(10**9), 'style': rng.choice(['uniform', 'bursts', 'pct']),
                'schedule': None}
    def shrink(self, case):
        n = len(case['procs'])
        if n > 1:
            for k in range(n):
                yield dict(case, procs=case['procs'][:k] + case['procs'][k + 1:], schedule=None)
        for k in range(n):
            p = case['procs'][k]
            for ch in ({'kill': None}, {'stall': None}, {'at': 0}, {'force': False}, {'fail': None} if p['fail'] is None else {}):
                if any(p.get(q) != v for q, v in ch.items()):
                    yield dict(case, procs=case['procs'][:k] + [dict(p, **ch)] + case['procs'][k + 1:], schedule=None)
        for s in ('bursts', 'uniform'):
            if case['style'] != s:
                yield dict(case, style=s)
    def execute(self, case):
        st = {'runs': 0}
        root = core.fresh_root()
        m = Machine(root)
        refs = {}
        try:
            # what each run writes if it is alone
            for k, p in enumerate(case['procs']):
                r = core.smash(p['case'], tabs=True)
                refs[k] = (r.rc, rel_files(r), r.timeout)
                if r.timeout or (r.sig and not p['fail']):
                    raise Violation('crash', 'run alone: ' + str(core.crashed(r)))
                r.clean()
                st['runs'] += 1
            core.put_tabs(root, case['universe'])
            return self.play(case, root, m, refs, st)
        finally:
            m.close()
            shutil.rmtree(root, ignore_errors=True)
    def snapshot(self, root):
        s = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                q = os.path.join(d, f)
                rp = '/' + os.path.relpath(q, root)
                if rp.startswith(('/data/', '/outA/', '/outB/')) and not rp.startswith('/data/tabulations'):
                    s[rp] = hashlib.sha1(neutral(open(q, 'rb').read())).hexdigest()
        return s
    def play(self, case, root, m, refs, st):
        rng = random.Random(case['sched'])
        specs = case['procs']
        info = {}
        waiting = list(range(len(specs)))
        prio = {k: rng.random() for k in waiting}
        changes = {rng.randrange(200) for _ in range(3)}
        steps, cur, left = 0, None, 0
        ops_of = {k: 0 for k in waiting}
        owner = {}          # directory -> list of names of the runs that wrote there, in order
        dirs_of = {}        # run -> directories it wrote to
        active = {}         # directory -> run active there now
        content = {}        # path -> last run that wrote it
        sig = []
        ended = []
        stalled = {}        # run -> number of ended runs when it stalled
        def begin(k):
            s = specs[k]
            ind = core.write_case(s['case'], root, 'in%d' % k)
            outd = {'same': os.path.join(root, 'outA'), 'other': os.path.join(root, 'outB'), 'default': None}[s['mode']]
            args = core.smash_args(s['case'], root, ind, case['universe'], s['force'], outd)
            info[k] = {'before': self.snapshot(root)}
            m.start(str(k), args, {'SIM_SEED': 7 + k}, root)
            dirs_of[k] = set()
            st['runs'] += 1
        def check_op(k, kind, path):
            # only what happens inside an output directory counts
            mm = re.match(r'(/outA|/outB|/data/\d+)/(.+)$', path)
            if not mm or kind not in WRITES:
                return
            d, name = mm.groups()
            if name.endswith('.lock'):
                return
            sig.append('%d%s' % (k, kind[0]))
            s = specs[k]
            if d in active and active[d] != k:
                raise Violation('mixed', 'run %d writes %s while run %d is active in this directory' % (k, path, active[d]))
            if d not in dirs_of[k]:
                old = [o for o in owner.get(d, []) if o != k]
                if old and not s['force']:
                    raise Violation('overwritten', 'run %d, not asked to overwrite, writes %s into the directory of run %d' % (
                        k, path, old[-1]))
                if s['mode'] == 'default' and old:
                    st['forced into a used default directory'] = st.get('forced into a used default directory', 0) + 1
                owner.setdefault(d, []).append(k)
                dirs_of[k].add(d)
                if len(dirs_of[k]) > 1:
                    raise Violation('mixed', 'run %d writes into %s' % (k, sorted(dirs_of[k])))
                if s['mode'] != 'default' and d != {'same': '/outA', 'other': '/outB'}[s['mode']]:
                    raise Violation('mixed', 'run %d was told another directory than %s' % (k, d))
                if s['mode'] == 'default' and not d.startswith('/data/'):
                    raise Violation('mixed', 'run %d chose %s by default' % (k, d))
            active[d] = k
        def finish(k, killed):
            p = m.procs[str(k)]
            s = specs[k]
            rc = p.rc
            st['ended by kill' if killed else 'exit %d' % rc] = st.get('ended by kill' if killed else 'exit %d' % rc, 0) + 1
            for d in list(active):
                if active[d] == k:
                    del active[d]
            ended.append(k)
            if killed:
                return
            if rc == 124:
                raise Violation('hang', 'run %d does not go on' % k)
            if rc < 0 or rc in (134, 139):
                raise Violation('crash', 'run %d ended by a signal (%d): %s' % (k, rc, p.text()[-300:]))
            now = self.snapshot(root)
            for d in [x for x in ('/outA', '/outB')] + ['/data/%d' % n for n in range(12)]:
                lock = os.path.join(root, d[1:], 'smash.lock')
                if os.path.exists(lock) and k in info and info[k].get('lock') == d:
                    raise Violation('lock', 'run %d ended with exit %d and left %s behind' % (k, rc, d + '/smash.lock'))
            mine = next(iter(dirs_of[k]), None)
            alone_rc, alone, _ = refs[k]
            if rc == 0:
                if alone_rc != 0:
                    raise Violation('failed', 'run %d fails alone, but succeeds next to others' % k)
                if mine is None:
                    raise Violation('mixed', 'run %d succeeded without any output' % k)
                for n, b in alone.items():
                    h = hashlib.sha1(b).hexdigest()
                    if now.get(mine + '/' + n) != h:
                        raise Violation('mixed', 'run %d succeeded, but %s/%s %s what it writes alone' % (
                            k, mine, n, 'is not' if mine + '/' + n in now else 'is missing, not'))
            else:
                if mine is None:
                    # refused: everything as the others left it
                    for q, h in info[k]['before'].items():
                        if q not in now and not q.endswith(('.lock', '.unfinished')) and content.get(q) != 'gone':
                            raise Violation('overwritten', 'run %d was refused, but %s vanished' % (k, q))
        while True:
            while waiting and (specs[waiting[0]]['at'] <= steps or not m.ready()):
                begin(waiting.pop(0))
                for p in list(m.procs.values()):
                    if p.rc is not None and int(p.name) not in ended:
                        finish(int(p.name), False)
            ready = m.ready()
            if not ready:
                if waiting:
                    continue
                break
            held = []
            for q in ready:
                at = specs[int(q.name)].get('stall')
                if at is not None and ops_of[int(q.name)] >= at and stalled.setdefault(int(q.name), len(ended)) == len(ended):
                    held.append(q)
            if held and len(held) < len(ready):
                ready = [q for q in ready if q not in held]
                if cur in held:
                    cur = None
            if case['style'] == 'uniform':
                p = rng.choice(ready)
            elif case['style'] == 'bursts':
                if cur is None or cur.rc is not None or left <= 0:
                    cur, left = rng.choice(ready), rng.choice([1, 1, 2, 3, 5, 8, 20, 60])
                left -= 1
                p = cur
            else:
                p = max(ready, key=lambda q: prio[int(q.name)])
                if steps in changes:
                    prio[int(p.name)] = -rng.random()
            k = int(p.name)
            ops_of[k] += 1
            kill = specs[k]['kill'] is not None and ops_of[k] > specs[k]['kill']
            kind, path = p.pending[0], m.norm(p.pending[1])
            if not kill:
                check_op(k, kind, path)
            existed = os.path.exists(root + path)
            m.step(p, kill)
            if not kill and kind in ('openx', 'openw') and path.endswith('/smash.lock') and not existed and os.path.exists(
                    root + path):
                info[k]['lock'] = os.path.dirname(path)
            steps += 1
            if kill:
                st['fault: kill'] = st.get('fault: kill', 0) + 1
            if p.rc is not None:
                finish(k, kill)
            if steps > 20000:
                raise Violation('hang', 'no end after 20000 operations')
        st['fault: stalled until another run ended'] = sum(v < len(ended) - 1 for v in stalled.values())
        st['scheduling steps'] = steps
        st['simulated time fm'] = sum(runbase.sim_time(s['case']) for s in specs)
        key = hashlib.sha1(' '.join(sig).encode()).hexdigest()[:12]
        final = hashlib.sha1(repr(sorted(self.snapshot(root).items())).encode()).hexdigest()[:12]
        return Outcome(None, key, st, ''.join(x[0] for x in sig)[:60], key + final)

# ------------------------------------------------------------------------------ cached tables
STATES = ['absent', 'complete', 'foreign', 'other decays', 'other decays', 'torn', 'torn', 'torn', 'empty', 'locked', 'open error', 'read error', 'read error',
          'write error', 'write error', 'close error', 'full disk', 'kill', 'kill', 'kill', 'dir', 'concurrent', 'concurrent', 'short']

class C08(Check):
    id = 'C08'
    quick_n, thorough_n = 60, 6000
    rule = 'distinct (state of the cache or fault, file, position within the entry) reached'
    assumptions = ('a damaged entry is one cut short at any byte, empty or made for other particle properties (no bit rot: the '
                   'format has no checksum of its content)',)
    technique = ('deterministic simulation with fault injection: the real program with a cache directory left in seeded states by '
                 'kills, full disks, errors and concurrent runs; oracle: the same run with the cache switched off')
    def gen(self, rng, i, tier):
        u = 'pi' if rng.random() < .9 else 'std'
        case = gen.run_case(rng, {'n': 16, 'end': 2.0, 'modi': ['Box'], 'universe': u, 'reactions': 'full', 'no_stochastic': True,
                                  'nevents': [1]})
        case['features'] = []
        ct = case['config']['Collision_Term']
        ct.pop('Included_2to2', None)
        ct['NNbar_Treatment'] = 'no annihilation'
        ct['Total_Cross_Section_Strategy'] = 'BottomUp'
        box = case['config']['Modi']['Box']
        box['Init_Multiplicities'] = {'2212': 5, '2112': 5, '211': 4, '-211': 4, '2224': 3, '1114': 2}
        box['Temperature'] = round(rng.uniform(.15, .4), 3)
        box['Initial_Condition'] = 'peaked momenta' if rng.random() < .5 else 'thermal momenta'
        for k in ('Use_Thermal_Multiplicities', 'Baryon_Chemical_Potential', 'Strange_Chemical_Potential',
                  'Charge_Chemical_Potential', 'Account_Resonance_Widths'):
            box.pop(k, None)
        case['config']['General']['Nevents'] = 1
        case['config']['Output'] = {'Collisions': {'Format': ['Oscar2013_bin'], 'Print_Start_End': True}}
        t = open(core.universe_files(u)[0], encoding='utf8').read()
        if u == 'pi':
            t += 'γ               0.      0.        -      22\n'
        case['files']['particles.txt'] = t
        case['particles_file'] = 'particles.txt'
        if rng.random() < .4:   # other properties than those of the prepared tables
            case['altered'] = True
            width, mass = rng.choice(['0.117', '0.12', '0.09', '0.15']), rng.choice(['0.776', '0.79', '0.74'])
            t = re.sub(r'(?m)^(Δ\s+1\.232\s+)0\.117', lambda q: q.group(1) + width, t)
            t = re.sub(r'(?m)^(ρ\s+)0\.776', lambda q: q.group(1) + mass, t)
            case['files']['particles.txt'] = t
        case['trials'] = [{'state': rng.choice(STATES), 'x': rng.random(), 'y': rng.random(), 'err': rng.randrange(100),
                           'sticky': rng.random() < .4, 'seed': rng.randrange(10**6)} for _ in range(4 if tier == 'quick' else 8)]
        case['env'] = {}
        return case
    def shrink(self, case):
        if len(case['trials']) > 1:
            for f in case['trials']:
                yield dict(case, trials=[f])
        yield from runbase.shrink_run(case)
    def physics(self, r, what, ref):
        fs = {n: b for n, b in rel_files(r).items() if n not in ('config.yaml', 'smash.lock')}
        if r.timeout:
            raise Violation('hang', what + ': the run does not end')
        if core.crashed(r):
            raise Violation('crash', '%s: the run %s' % (what, core.crashed(r)))
        if r.rc:
            raise Violation('failed', '%s: trouble with the cache ends the run with exit %d: %s' % (what, r.rc, runbase.fatal(r)))
        if ref is not None:
            compare(ref, fs, '%s, compared to a run without cache' % what)
        return fs
    def execute(self, case):
        st = {'runs': 0}
        runs, roots = [], []
        def run(root, env=None, extra=(), timeout=60):
            st['runs'] += 1
            e = {'SIM_SEED': 5}
            e.update(env or {})
            r = core.smash(case, env=e, root=root, tabs=False, extra=extra, timeout=timeout)
            runs.append(r)
            return r
        def root():
            roots.append(core.fresh_root())
            return roots[-1]
        try:
            a = run(root(), extra=('-n',))
            if blown_up(case, a):
                return Outcome(None, None, st)
            finished(a, 'run without cache')
            ref = self.physics(a, 'run without cache', None)
            nreac = a.log().count('Final interaction number') and sum(
                int(x) for x in re.findall(r'Final interaction number: (\d+)', a.log()))
            st['interactions'] = nreac
            # the cache a complete run leaves behind
            R = root()
            b = run(R)
            self.physics(b, 'cache absent', ref)
            tabd = os.path.join(R, 'tabulations')
            good = {f: open(os.path.join(tabd, f), 'rb').read() for f in sorted(os.listdir(tabd))}
            if any(f.endswith('.lock') for f in good):
                raise Violation('lock', 'the run leaves %s' % sorted(good))
            cold, _, _ = b.trace_ops()
            keys = []
            for t in case['trials']:
                keys += self.trial(case, t, good, cold, ref, run, root, st)
            st['simulated time fm'] = runbase.sim_time(case) * st['runs']
            d = hashlib.sha1((digest(ref) + '\n'.join(keys)).encode()).hexdigest()[:12]
            return Outcome(None, tuple(keys), st, '; '.join(keys[:4]), d)
        finally:
            for q in roots:
                shutil.rmtree(q, ignore_errors=True)
    def trial(self, case, t, good, cold, ref, run, root, st):
        R = root()
        td = os.path.join(R, 'tabulations')
        s = t['state']
        rng = random.Random(t['seed'])
        names = sorted(good)
        def put(files):
            os.makedirs(td, exist_ok=True)
            for f, b in files.items():
                with open(os.path.join(td, f), 'wb') as h:
                    h.write(b)
        env, note, may_fail = {}, '', False
        tabops = [o for o in cold if '/tabulations/' in o[2] and not o[2].endswith('.lock')]
        one = names[int(t['x'] * len(names))]
        if s == 'absent':
            pass
        elif s == 'complete':
            put(good)
        elif s == 'foreign':
            src = core.TABS[case['universe']]
            put({f: open(os.path.join(src, f), 'rb').read() for f in os.listdir(src)})
            if 'altered' not in case:   # same names, an entry of another universe or hash
                g = dict(good)
                for f in names:
                    if rng.random() < .6:
                        g[f] = bytes([g[f][0] ^ 1]) + g[f][1:32] + good[names[0]][32:]
                put(g)
        elif s == 'other decays':
            # complete entries for the same particles, but with other modes of decay
            pf, df = core.universe_files(case['universe'])
            txt = open(df, encoding='utf8').read()
            if case['universe'] == 'pi':
                what = {'Δ': ('1 1 N π', '0.4 1 N π\n0.6 1 N⁰ γ\n0.6 1 N⁺ γ'), 'ρ': ('1. 1 π π', '0.4 1 π π\n0.6 1 π⁺ γ\n0.6 1 π⁰ γ')}
                for q in (['Δ'], ['ρ'], ['Δ', 'ρ'])[t['err'] % 3]:
                    assert what[q][0] in txt
                    txt = txt.replace(*what[q])
                    note += q
            else:
                assert '0.6 1 N π\n0.24 1 Δ π' in txt
                txt = txt.replace('0.6 1 N π\n0.24 1 Δ π', '0.24 1 N π\n0.6 1 Δ π')
            other = dict(case, files=dict(case['files'], **{'decays.txt': txt}), decay_file='decays.txt')
            r = core.smash(other, env={'SIM_SEED': 5}, root=R, tabs=False)
            st['runs'] += 1
            if r.rc:
                raise Violation('failed', 'a run with other decay modes ends with exit %s: %s' % (r.rc, runbase.fatal(r)))
            shutil.rmtree(os.path.join(R, 'out'), ignore_errors=True)
        elif s == 'torn':
            g = dict(good)
            for f in {one} | {f for f in names if rng.random() < .3}:
                n = len(g[f])
                cut = int((t['y'] if f == one else rng.random()) * n)
                if rng.random() < .4:
                    cut = rng.choice([0, 1, 8, 31, 32, 33, 40, 48, 55, 56, 57, 63, 64, 65, n - 9, n - 8, n - 1])
                g[f] = g[f][:max(0, min(cut, n - 1))]
                if f == one:
                    note = '%s cut to %d' % (f, len(g[f]))
            put(g)
        elif s == 'empty':
            put({f: b'' for f in names})
        elif s == 'locked':
            put(good if rng.random() < .5 else {f: b[:40] for f, b in good.items()})
            put({'tabulations.lock': b''})
        elif s == 'dir':
            g = {f: b for f, b in good.items() if f != one}
            put(g)
            os.makedirs(os.path.join(td, one))
            note = one
        elif s in ('open error', 'read error'):
            put(good)
            e = [E.EACCES, E.EMFILE, E.EIO, E.ENOENT] if s == 'open error' else [E.EIO]
            env['SIM_PLAN'] = '%s /tabulations/%s %d err %d %d;' % (
                'openr' if s == 'open error' else 'read', rng.choice([one, '']), 1 if t['sticky'] else 1 + int(t['y'] * 6),
                e[t['err'] % len(e)], t['sticky'])
        elif s in ('write error', 'close error'):
            k = 'write' if s == 'write error' else 'close'
            e = WRITE_ERR[t['err'] % 3]
            # all but the lock, whose failing close is an error of its own
            env['SIM_PLAN'] = '%s /tabulations/ %d err %d %d;' % (k, (2 if k == 'close' else 1) + int(t['y'] * len(names)), e,
                                                                  t['sticky'])
        elif s == 'full disk':
            # only the cache may hit the limit: it is written before the outputs are completed
            env['SIM_PLAN'] = 'write /tabulations/ %d short %d 0; write /tabulations/ %d err %d 1;' % (
                1 + int(t['y'] * len(names)), rng.randrange(0, 600), 2 + int(t['y'] * len(names)), E.ENOSPC)
        elif s == 'kill':
            o = tabops[int(t['x'] * len(tabops))] if tabops else cold[0]
            w = [q for q in tabops if q[1] == 'write']
            if w and rng.random() < .7:
                o = w[int(t['x'] * len(w))]
            size = max(0, int(o[3])) if o[1] == 'write' else 0
            env['SIM_PLAN'] = 'any * %d kill %d 0;' % (o[0], int(t['y'] * (size + 1)))
        elif s == 'short':
            put(good if rng.random() < .5 else {})
            env.update({'SIM_SHORTR': rng.choice([1, 2, 3]), 'SIM_SHORTW': rng.choice([1, 2, 3]), 'SIM_SEED': t['seed']})
        elif s == 'concurrent':
            return self.concurrent(case, t, good, ref, R, td, put, rng, st)
        r = run(R, env)
        _, hit, _ = r.trace_ops()
        w = 'cache %s%s%s' % (s, ' (%s)' % note if note else '', ' [%s]' % ' '.join(hit[0]) if hit else '')
        st['cache state: ' + s] = st.get('cache state: ' + s, 0) + 1
        for h in hit:
            st['fault: ' + h[0]] = st.get('fault: ' + h[0], 0) + 1
        if s == 'kill':
            if r.rc == 137:
                if os.path.exists(os.path.join(td, 'tabulations.lock')) and rng.random() < .8:
                    os.unlink(os.path.join(td, 'tabulations.lock'))   # as the user does after a crash
                if os.path.exists(os.path.join(R, 'out', 'smash.lock')):
                    os.unlink(os.path.join(R, 'out', 'smash.lock'))
        else:
            self.physics(r, w, ref)
        shutil.rmtree(os.path.join(R, 'out'), ignore_errors=True)
        left = {f: os.path.getsize(os.path.join(td, f)) for f in sorted(os.listdir(td))} if os.path.isdir(td) else {}
        r2 = run(R)
        self.physics(r2, 'run after: ' + w, ref)
        bad = [f for f in left if left[f] != len(good.get(f, b''))]
        return ['%s|%s|%s|%s' % (s, note.split(' ')[-1], ' '.join(hit[0][:4]) if hit else '', ','.join(
            '%s:%d' % (f, left[f]) for f in bad[:2]))]
    def concurrent(self, case, t, good, ref, R, td, put, rng, st):
        if rng.random() < .5:
            g = {f: b[:rng.randrange(len(b))] if rng.random() < .5 else b for f, b in good.items() if rng.random() < .7}
            put(g)
        m = Machine(R)
        try:
            ind = core.write_case(case, R)
            for k in range(rng.choice([2, 2, 3])):
                m.start(str(k), core.smash_args(case, R, ind, case['universe'], True, os.path.join(R, 'o%d' % k)), {'SIM_SEED': 5}, R)
                st['runs'] += 1
            style = rng.choice(['uniform', 'bursts'])
            cur, left, sig, steps = None, 0, [], 0
            late = rng.random() < .5
            while m.ready():
                ready = m.ready()
                if style == 'uniform':
                    p = rng.choice(ready)
                else:
                    if cur is None or cur.rc is not None or left <= 0:
                        cur, left = rng.choice(ready), rng.choice([1, 2, 5, 20])
                    left -= 1
                    p = cur
                kind, path = m.step(p)
                steps += 1
                if '/tabulations/' in path:
                    sig.append(p.name + kind[-1])
            st['cache state: concurrent'] = st.get('cache state: concurrent', 0) + 1
            st['scheduling steps'] = st.get('scheduling steps', 0) + steps
            for p in m.procs.values():
                r = core.Run()
                r.rc, r.out, r.err, r.root, r.timeout = p.rc, p.text().encode(), b'', R, p.rc == 124
                r.sig = -p.rc if p.rc < 0 else (6 if p.rc == 134 else 0)
                r.outdir = os.path.join(R, 'o' + p.name)
                self.physics(r, 'run %s of %d that share the cache' % (p.name, len(m.procs)), ref)
            if os.path.exists(os.path.join(td, 'tabulations.lock')):
                raise Violation('lock', 'concurrent runs leave tabulations.lock')
            return ['concurrent|' + hashlib.sha1(' '.join(sig).encode()).hexdigest()[:12]]
        finally:
            m.close()
