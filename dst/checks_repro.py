"""C04 a configuration and a seed determine the run; C05 each event depends only on its own seed."""
import copy, hashlib, os, re
import core, features, gen, oracles, outputs, physics, runbase
from core import Check, Outcome, Violation

def digest(files):
    h = hashlib.sha1()
    for n in sorted(files):
        h.update(n.encode() + b'\0' + hashlib.sha1(files[n]).digest())
    return h.hexdigest()[:12]

def first_difference(a, b):
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return 'sizes %d and %d, first difference at byte %d: %r / %r' % (len(a), len(b), i, a[max(0, i - 20):i + 24],
                                                                      b[max(0, i - 20):i + 24])

def compare(fa, fb, what, only=None):
    na, nb = set(fa), set(fb)
    if only is None:
        if na != nb:
            raise Violation('differs', '%s: different files: %s' % (what, sorted(na ^ nb)[:6]))
        only = na
    for n in sorted(only):
        if n not in fa or n not in fb:
            raise Violation('differs', '%s: file %s missing in one run' % (what, n))
        if fa[n] != fb[n]:
            raise Violation('differs', '%s: %s: %s' % (what, n, first_difference(fa[n], fb[n])))

def seeds_of(r):
    return [int(x) for x in re.findall(r'random number seed: (-?\d+)', r.log())]

def finished(r, what):
    physics.orderly(r, what)
    if r.rc:
        raise Violation('failed', '%s of a valid configuration ends with exit %d: %s' % (what, r.rc, runbase.fatal(r)))

def blown_up(case, r):
    """Mean fields with a density-dependent strength are singular at vanishing net density: generated mixtures of baryons
    and antibaryons can accelerate a particle until its mass is lost to rounding, which SMASH reports and ends."""
    return r.rc == 1 and not r.timeout and 'potentials' in case['features'] and 'Absolute value of 4-vector' in r.log()

LEVELS = ['ALL', 'TRACE', 'DEBUG', 'INFO', 'WARN', 'FATAL', 'OFF']

class C04(Check):
    id = 'C04'
    quick_n, thorough_n = 300, 12000
    rule = 'distinct contents of all output files over the configurations run'
    assumptions = ('one build on one machine', 'dilepton and photon outputs draw random numbers and are kept the same',
                   'PYTHIA is replaced by a stub, so strings are switched off')
    def gen(self, rng, i, tier):
        case = gen.run_case(rng, {'n': 14 if tier == 'quick' else 40, 'end': 3.0 if tier == 'quick' else 10.0})
        got = features.add_features(rng, case)
        if rng.random() < .5:
            features.rich_outputs(rng, case['config'], keep_binary=rng.random() < .7)
        case['features'] = got
        vs = []
        for _ in range(2 if tier == 'quick' else 4):
            k = rng.choice(['same', 'same', 'outputs', 'log'])
            v = {'kind': k, 'env': runbase.weather(rng, 1.0), 'x': rng.randrange(10**6)}
            v['env']['SIM_FILL'] = rng.choice([0, 1, 85, 127, 170, 255])
            for name in ('TZ', 'LANG', 'LC_NUMERIC', 'HOME', 'TMPDIR', 'OMP_NUM_THREADS', 'MALLOC_ARENA_MAX', 'SEED'):
                if rng.random() < .2:
                    v['env'][name] = rng.choice(['1', '/x', 'de_DE.UTF-8', 'Asia/Tokyo', 'z' * 300])
            v['out'] = rng.choice(['out', 'o', 'a/b' * rng.randrange(1, 20), 'very long name'.replace(' ', '_') * 8])
            v['cwd'] = rng.random() < .3
            vs.append(v)
        if rng.random() < .15 and 'Randomseed' in case['config']['General']:
            case['config']['General']['Randomseed'] = -rng.randrange(1, 10)
            vs = [dict(v, kind='reported seed') for v in vs[:1]]
        case['variants'] = vs
        return case
    def shrink(self, case):
        if len(case['variants']) > 1:
            for j in range(len(case['variants'])):
                c = copy.deepcopy(case)
                c['variants'] = [case['variants'][j]]
                yield c
        for j, v in enumerate(case['variants']):
            for k in list(v['env']):
                if k != 'SIM_SEED':
                    c = copy.deepcopy(case)
                    del c['variants'][j]['env'][k]
                    yield c
            if v['out'] != 'out' or v['cwd']:
                c = copy.deepcopy(case)
                c['variants'][j].update(out='out', cwd=False)
                yield c
        yield from runbase.shrink_run(case)
    def execute(self, case):
        import random
        st = {'runs': 1, 'simulated time fm': runbase.sim_time(case)}
        r = core.smash(case)
        roots = [r]
        try:
            if blown_up(case, r):
                st['runs given up: momenta grew beyond double precision in a potential'] = 1
                return Outcome(None, None, st)
            finished(r, 'run')
            fa = r.files()
            cfg = case['config']
            for f in case.get('features', ()):
                st['runs with ' + f] = 1
            for v in case['variants']:
                rng = random.Random(v['x'])
                c2 = copy.deepcopy(case)
                only = None
                what = 'same configuration and seed'
                if v['kind'] == 'reported seed':
                    s = seeds_of(r)
                    if not s or s[0] < 0:
                        raise Violation('seed', 'no seed reported: %s' % s[:3])
                    c2['config']['General']['Randomseed'] = s[0]
                    what = 'run with the reported seed %d' % s[0]
                elif v['kind'] == 'log':
                    lg = c2['config']['Logging']
                    lg['default'] = rng.choice(LEVELS)
                    for a in ('Experiment', 'Action', 'Grid', 'ScatterAction', 'FindScatter', 'Propagation'):
                        if rng.random() < .3:
                            lg[a] = rng.choice(LEVELS)
                    only = [n for n in fa if n != 'config.yaml']
                    what = 'other log levels'
                elif v['kind'] == 'outputs':
                    out = c2['config']['Output']
                    if 'Thermodynamics' in out and rng.random() < .3:
                        del out['Thermodynamics']
                    elif 'Thermodynamics' not in out and ('Lattice' in cfg or 'Potentials' not in cfg):
                        # (a lattice added for the output would change how potentials are evaluated)
                        features.thermo(rng, c2['config'])
                        if 'Potentials' in cfg:
                            out['Thermodynamics'].pop('Only_Participants', None)
                    keep = rng.random() < .5
                    for q in ('Particles', 'Collisions'):
                        if q not in out or 'Quantities' not in out[q]:
                            out[q] = {'Format': ['Binary'], 'Quantities': gen.QUANT + (
                                features.SPIN if cfg['Collision_Term'].get('Spin_Interactions') else [])}
                    features.rich_outputs(rng, c2['config'], keep_binary=True)
                    only = []
                    for q, f in (('Particles', 'particles_custom.bin'), ('Collisions', 'collisions_custom.bin')):
                        a, b = cfg['Output'].get(q, {}), out.get(q, {})
                        if 'Binary' in a.get('Format', ()) and 'Binary' in b.get('Format', ()):
                            if all(a.get(k) == b.get(k) for k in ('Quantities', 'Only_Final', 'Print_Start_End')):
                                only.append(f)
                    what = 'other outputs enabled'
                if only is not None and not only:
                    continue
                st['variants: ' + v['kind']] = st.get('variants: ' + v['kind'], 0) + 1
                for k, x in runbase.weather_stats(v['env']).items():
                    st[k] = st.get(k, 0) + x
                root = core.fresh_root()
                cwd = root
                if v['cwd']:
                    cwd = os.path.join(root, 'else', 'where')
                    os.makedirs(cwd)
                outname = v['out']
                tabs = True
                if '/' in outname:
                    os.makedirs(os.path.dirname(os.path.join(root, outname)), exist_ok=True)
                r2 = core.smash(c2, env=v['env'], root=root, outname=outname, cwd=cwd)
                roots.append(r2)
                finished(r2, what)
                st['runs'] += 1
                fb = r2.files()
                if v['kind'] == 'reported seed':
                    if seeds_of(r2) != seeds_of(r):
                        raise Violation('seed', 'seeds %s, repeated run %s' % (seeds_of(r), seeds_of(r2)))
                if only is None:
                    # input paths differ between the two simulated machines
                    for fs, rr in ((fa, r), (fb, r2)):
                        fs['config.yaml'] = re.sub(rb'/[^ "]*simsmash[^ "]*/', b'<root>/', fs['config.yaml'])
                    if v['kind'] == 'reported seed':
                        for fs in (fa, fb):
                            fs['config.yaml'] = re.sub(rb'Randomseed: *-?\d+', b'Randomseed', fs['config.yaml'])
                compare(fa, fb, what, only)
                if not v['kind'] == 'outputs' and v['kind'] != 'log':
                    st['files compared'] = st.get('files compared', 0) + len(fb)
                    st['bytes compared'] = st.get('bytes compared', 0) + sum(map(len, fb.values()))
            d = digest({k: x for k, x in fa.items() if k != 'config.yaml'})
            if cfg['General']['Randomseed'] < 0:
                d = 'random seed'
            return Outcome(None, d, st, '%s, %s, variants %s' % (cfg['General']['Modus'], '+'.join(case['features']),
                                                                 [v['kind'] for v in case['variants']]), d)
        finally:
            for x in roots:
                x.clean()

# ------------------------------------------------------------------------------------------ C05
def sections(r, cfg, n_ens):
    """[per event: {part of the output: content without the event number}]"""
    evs = {}
    def put(ev, name, data):
        evs.setdefault(ev, {}).setdefault(name, []).append(data)
    for n, data in r.files().items():
        if n == 'config.yaml':
            continue
        m = re.match(r'(.*)_ev(\d+)_ens(\d+)_tstep(\d+)\.vtk$', n)
        if m:
            put(int(m.group(2)), '%s ens %s step %s' % (m.group(1), m.group(3), m.group(4)), data)
            continue
        m = re.match(r'(.*)_(\d+)_tstep(\d+)\.vtk$', n)
        if m:
            put(int(m.group(2)), '%s step %s' % (m.group(1), m.group(3)), data)
            continue
        m = re.match(r'(.*)_(\d{7})\.(dat|bin)$', n)
        if m:
            put(int(m.group(2)), m.group(1) + m.group(3), data)
            continue
        if n.endswith('.bin'):
            c = {'collisions_custom.bin': 'Collisions', 'particles_custom.bin': 'Particles'}.get(n)
            if not c:
                c2 = {'Dileptons_custom.bin': 'Dileptons', 'Dileptons.bin': 'Dileptons'}.get(n)
                q = cfg['Output'].get(c2, {}).get('Quantities') if c2 else None
                if q is None:
                    continue
            else:
                q = cfg['Output'][c]['Quantities']
            _, _, _, bl = outputs.read_binary(r.path(n), q, data=data)
            cur, ends = 0, 0
            for j, b in enumerate(bl):
                nxt = bl[j + 1].pos if j + 1 < len(bl) else len(data)
                raw = data[b.pos:nxt]
                if b.kind in 'pf':
                    cur = b.event
                    raw = raw[:1] + b'----' + raw[5:]
                put(cur, n, raw)
                if b.kind == 'f':
                    ends += 1
                    if ends == n_ens:
                        ends, cur = 0, cur + 1
            continue
        text = data.decode(errors='replace')
        if '1999' in text[:200] or text.startswith('# OSC1999'):
            bl = outputs.read_oscar1999(r.path(n))
            cur = 0
            ends = 0
            for b in bl:
                if b.event is not None:
                    cur = b.event
                put(cur, n, repr((b.kind, b.ens, b.pos, b.rho, b.weight, b.partial, b.type, b.impact, b.parts, b.outp)))
                if b.kind == 'f':
                    ends += 1
                    if ends == n_ens:
                        ends, cur = 0, cur + 1
            continue
        cur, ends = (0 if n.startswith(('Dileptons', 'Photons')) else None), 0
        for l in text.split('\n'):
            if l.startswith('#') and not l.startswith(('# event', '# interaction')):
                continue
            m = re.match(r'# event (\d+)(.*)', l)
            if m:
                cur = int(m.group(1))
                put(cur, n, '# event' + m.group(2))
                if ' end ' in l + ' ':
                    ends += 1
                    if ends == n_ens:
                        ends, cur = 0, cur + 1
            elif cur is not None and l:
                put(cur, n, l)
    return evs

class C05(Check):
    id = 'C05'
    quick_n, thorough_n = 600, 20000
    rule = 'distinct contents of the later events of the runs whose reproduction was compared'
    assumptions = ('PYTHIA is replaced by a stub, so strings are switched off',)
    def gen(self, rng, i, tier):
        case = gen.run_case(rng, {'n': 14 if tier == 'quick' else 40, 'end': 3.0 if tier == 'quick' else 10.0})
        case['features'] = features.add_features(rng, case)
        features.rich_outputs(rng, case['config'], keep_binary=True)
        cfg = case['config']
        g = cfg['General']
        modus = g['Modus']
        if modus in ('List', 'ListBox') and rng.random() < .7:
            # events of different sizes and start times
            n = rng.randrange(2, 5)
            g['Nevents'] = n
            evs = []
            for e in range(n):
                ps = gen.list_particles(rng, core.species(case['universe']), case['universe'], rng.randrange(2, 18),
                                        span=cfg['Modi'][modus].get('Length', 4.0))
                evs.append(ps)
            if 'Length' in cfg['Modi'][modus]:
                L = cfg['Modi'][modus]['Length']
                for ps in evs:
                    for p in ps:
                        for k in 'xyz':
                            p[k] = '%.17g' % (float(p[k]) + L / 2)
            case['lists'] = evs
            case['files']['list0'] = gen.LIST_HEADER + ''.join(gen.list_event_text(e, ps) for e, ps in enumerate(evs))
        elif modus in ('List', 'ListBox'):
            g['Nevents'] = 1
            case['lists'] = None
        else:
            g['Nevents'] = rng.choice([2, 2, 3, 4])
        case['which'] = rng.sample(range(1, g['Nevents']), min(g['Nevents'] - 1, 1 if tier == 'quick' else 3))
        case['env'] = runbase.weather(rng)
        case['env2'] = runbase.weather(rng, 1.0)
        return case
    def shrink(self, case):
        for k in ('env', 'env2'):
            if case[k]:
                c = copy.deepcopy(case)
                c[k] = {}
                yield c
        n = case['config']['General']['Nevents']
        if case.get('lists') is None and n > 2:
            for w in case['which']:
                c = copy.deepcopy(case)
                c['config']['General']['Nevents'] = w + 1
                c['which'] = [w]
                if w + 1 < n:
                    yield c
        for k in ('Thermodynamics', 'Coulomb', 'Photons', 'Dileptons'):
            if k in case['config']['Output'] and (k in ('Thermodynamics', 'Coulomb') or k in case['config']['Collision_Term']):
                c = copy.deepcopy(case)
                del c['config']['Output'][k]
                c['config']['Collision_Term'].pop(k, None)
                yield c
        for c in runbase.shrink_run(case):
            if c['config']['General']['Nevents'] == n:
                yield c
    def only_factors(self, case, c2, k, many, n_ens, roots):
        """Is the difference due to the maxima learnt by the resonance mass sampling in the events before?"""
        f = os.path.join(core.fresh_root(), 'factors')
        c1 = copy.deepcopy(case)
        c1['config']['General']['Nevents'] = k
        if case.get('lists'):
            c1['files']['list0'] = gen.LIST_HEADER + ''.join(
                gen.list_event_text(e, ps) for e, ps in enumerate(case['lists'][:k]))
        r1 = core.smash(c1, env={'SIM_FACTORS_OUT': f})
        roots.append(r1)
        if r1.rc or not os.path.exists(f) or not open(f).read():
            return False
        r2 = core.smash(c2, env={'SIM_FACTORS_IN': f})
        roots.append(r2)
        return not r2.rc and sections(r2, c2['config'], n_ens).get(0, {}) == many
    def execute(self, case):
        st = {'runs': 1, 'simulated time fm': runbase.sim_time(case)}
        for k, x in runbase.weather_stats(case['env']).items():
            st[k] = x
        for f in case['features']:
            st['runs with ' + f] = 1
        r = core.smash(case)
        roots = [r]
        cfg = case['config']
        n_ens = cfg['General'].get('Ensembles', 1)
        try:
            if blown_up(case, r):
                st['runs given up: momenta grew beyond double precision in a potential'] = 1
                return Outcome(None, None, st)
            finished(r, 'run')
            seeds = seeds_of(r)
            nev = cfg['General']['Nevents']
            if len(seeds) != nev:
                raise Violation('seed', '%d seeds reported for %d events' % (len(seeds), nev))
            secs = sections(r, cfg, n_ens)
            key = None
            for k in case['which']:
                c2 = copy.deepcopy(case)
                c2['env'] = case['env2']
                c2['config']['General']['Nevents'] = 1
                c2['config']['General']['Randomseed'] = seeds[k]
                if case.get('lists'):
                    c2['files']['list0'] = gen.LIST_HEADER + gen.list_event_text(0, case['lists'][k])
                r2 = core.smash(c2)
                roots.append(r2)
                what = 'event %d repeated alone with its seed %d' % (k, seeds[k])
                finished(r2, what)
                st['runs'] += 1
                one = sections(r2, c2['config'], n_ens).get(0, {})
                many = secs.get(k, {})
                if one != many and self.only_factors(case, c2, k, many, n_ens, roots):
                    st['events that depend on the learnt maxima only'] = 1
                    raise Violation('mass sampling maximum', what + ' differs, but does not if it starts with the '
                                    'maxima that the resonance mass sampling had learnt in the events before')
                if set(one) != set(many):
                    raise Violation('leak', '%s: different outputs: %s' % (what, sorted(set(one) ^ set(many))[:5]))
                for part in sorted(one):
                    a, b = many[part], one[part]
                    if a != b:
                        j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                        raise Violation('leak', '%s: %s: %d and %d entries, entry %d: %s / %s' % (
                            what, part, len(a), len(b), j, str(a[j])[:120] if j < len(a) else '-',
                            str(b[j])[:120] if j < len(b) else '-'))
                    st['parts compared'] = st.get('parts compared', 0) + 1
                st['events repeated'] = st.get('events repeated', 0) + 1
                key = hashlib.sha1(repr(sorted((p, one[p]) for p in one)).encode()).hexdigest()[:12]
            return Outcome(None, key, st, '%s, %d events, %s' % (cfg['General']['Modus'], nev, '+'.join(case['features'])),
                           key or '')
        finally:
            for x in roots:
                x.clean()
