"""C13 SMASH driven as a library: divisions of the evolution into calls, particles added and removed between calls."""
import copy, hashlib, json, math, os
import core, features, gen, oracles, outputs, physics, runbase
from core import Check, Outcome, Violation
from checks_repro import compare

FREE = 90       # process type of additions and removals
TOL = 1e-9

def drive(case, script, env=None, root=None, timeout=60):
    """Runs the library world with a client script."""
    root = core.fresh_root()
    ind = core.write_case(case, root)
    core.put_tabs(root, case['universe'])
    pf, df = core.universe_files(case['universe'])
    sp = os.path.join(ind, 'script')
    with open(sp, 'w') as h:
        h.write('\n'.join(script) + '\n')
    out = os.path.join(root, 'out')
    e = {'SIM_ROOT': root, 'SIM_SEED': 1}
    e.update(env or {})
    r = core.call(['lib', os.path.join(ind, 'config.yaml'), pf, df, os.path.join(root, 'tabulations'), out, sp], e, root, timeout, root)
    r.outdir, r.trace = out, ''
    return r

class Dump:
    def __init__(self, label):
        self.label, self.parts = label, []

def dumps(r):
    """the DUMP sections and the exceptions reported by the client"""
    ds, threw = [], []
    for l in r.out.decode(errors='replace').split('\n'):
        f = l.split()
        if l.startswith('DUMP '):
            ds.append(Dump(f[1]))
        elif l.startswith('P ') and ds and len(f) == 13:
            x = [float.fromhex(v) for v in f[3:]]
            ds[-1].parts.append({'id': int(f[1]), 'pdg': int(f[2]), 'x': x[:4], 'p': x[4:8], 'form': x[8], 'xs': x[9]})
        elif l.startswith('THREW '):
            threw.append(l[6:])
    return ds, threw

def well(r, what):
    if r.timeout:
        raise Violation('hang', '%s does not come to an end' % what)
    if core.crashed(r):
        raise Violation('crash', '%s: %s' % (what, core.crashed(r)))
    ds, threw = dumps(r)
    if threw or r.rc:
        raise Violation('failed', '%s fails: %s' % (what, (threw or ['exit %d' % r.rc])[0]))
    return ds

def close(a, b, tol=TOL):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))

def body(p):
    return (p['pdg'],) + tuple(p['x']) + tuple(p['p'])

def same_part(a, b, tol=TOL):
    return a['pdg'] == b['pdg'] and all(close(u, v, tol) for u, v in zip(a['x'] + a['p'], b['x'] + b['p']))

def tell(p):
    return '%d at (%s) momentum (%s)' % (p['pdg'], ', '.join('%.9g' % v for v in p['x']), ', '.join('%.9g' % v for v in p['p']))

def subsequence(rng, ts):
    return [t for t in ts if rng.random() < .5]

class C13(Check):
    id = 'C13'
    quick_n, thorough_n = 900, 30000
    rule = 'distinct histories of the events driven from outside'
    assumptions = ('the client is a script run inside the simulator, one event loop at a time', 'PYTHIA is replaced by a stub, so strings are switched off',
                   'additions and removals with one ensemble, as SMASH asks for')
    technique = ('deterministic simulation: generated client programs drive whole events through the library interface; seeded search over '
                 'divisions into calls and over sequences of additions and removals; compared with the stand-alone program, with each other and with a reference model')
    def gen(self, rng, i, tier):
        mode = rng.choice(['split', 'split', 'change', 'change', 'start'])
        big = tier == 'thorough' and rng.random() < .3
        if mode == 'split':
            case = gen.run_case(rng, {'n': 40 if big else 12, 'end': 10.0 if big else 3.0})
            case['features'] = features.add_features(rng, case) if rng.random() < .5 else []
            if rng.random() < .5:
                features.rich_outputs(rng, case['config'], keep_binary=rng.random() < .7)
            end = case['config']['General']['End_Time']
            ts = sorted(gen.r3(rng, -1 if rng.random() < .3 else 0, end, rng.choice([0, 1, 1, 3])) for _ in range(rng.choice([1, 2, 3, 6, 12, 40])))
            if rng.random() < .4:
                step = rng.choice([.1, .2, .25, .5, 1., case['config']['General']['Delta_Time']])
                ts = [round(k * step, 9) for k in range(int(end / step) + 1)]
            ts = [min(t, end) for t in ts]
            if rng.random() < .3:
                ts += [end] * rng.choice([1, 2])
            case['times'] = ts
            case['alone'] = rng.choice(['script', 'run'])
        else:
            modi = ['List', 'ListBox'] if mode == 'start' else ['Box', 'Sphere', 'Collider', 'List', 'ListBox']
            case = gen.run_case(rng, {'modi': modi, 'n': 30 if big else 10, 'end': 8.0 if big else 4.0, 'one_ensemble': True,
                                      'no_testparticles': rng.random() < .8})
            cfg = case['config']
            if cfg['General']['Modus'] not in ('List', 'ListBox') or mode == 'start':
                cfg['General']['Nevents'] = rng.choice([1, 1, 2])
            self.script(rng, case, mode)
        case['mode'] = mode
        case['weather'] = [runbase.weather(rng) for _ in range(3)]
        return case
    # ------------------------------------------------------------ client programs
    def new_particle(self, rng, case, t, L, exact=False):
        sp = core.species(case['universe'])
        pool = [p for p in (111, 211, -211, 2212, 2112, 213, 9000221, 2224, -2212, 113, 221) if p in sp.mass]
        pdg = rng.choice(pool)
        m = sp.mass[pdg]
        if sp.width[pdg] > 1e-3:
            m = round(m * rng.uniform(1., 1.1), 4)
        p = [gen.r3(rng, -.8, .8, 3) for _ in range(3)]
        e = math.sqrt(m * m + sum(v * v for v in p))
        how = rng.random()
        if how < .15 and sp.width[pdg] == 0:
            e *= rng.uniform(1.0, 1.3)                       # off its mass shell
        x = [gen.r3(rng, 0.4 * L, .6 * L, 4) if L else gen.r3(rng, -2, 2, 4) for _ in range(3)]
        if exact:
            tx = t + rng.choice([0, 0, 0, .125, .25, .5])
        else:
            tx = t + rng.choice([0, 0, rng.uniform(-.5, .5)])
        return [pdg, tx] + x + [e] + p
    def script(self, rng, case, mode):
        """A client program: per event a list of (time, additions, removals)."""
        cfg = case['config']
        g = cfg['General']
        modus = g['Modus']
        m = cfg['Modi'][modus]
        L = m.get('Length') if modus in ('Box', 'ListBox') else None
        end = g['End_Time']
        nev = g['Nevents']
        if mode == 'start':
            sp = core.species(case['universe'])
            case['start'] = []
            what = case['what'] = rng.choice(['add', 'add', 'remove'])
            txt, txt2 = gen.LIST_HEADER, gen.LIST_HEADER
            t0 = rng.choice([0., .5, 1.25, 2.])
            only = None
            for e in range(nev):
                ps = gen.list_particles(rng, sp, case['universe'], rng.randrange(1, 9), span=L or 3., tspread=False)
                for p in ps:
                    p['t'] = repr(t0)
                    if L:
                        for k in 'xyz':
                            p[k] = '%.17g' % (float(p[k]) + L / 2)
                add = [self.new_particle(rng, case, t0, L, exact=True) for _ in range(rng.choice([1, 2, 3, 6]) if what == 'add' else 1)]   # (several would leave holes in the container: another order)
                for a in add:       # on the mass shell, since both ways to provide them may correct it differently
                    m0 = sp.mass[a[0]] if sp.width[a[0]] <= 1e-3 else math.sqrt(max(a[5] ** 2 - sum(v * v for v in a[6:]), 0))
                    a[5] = math.sqrt(m0 * m0 + sum(v * v for v in a[6:]))
                # the list file gives the mass: what a client computes from the four-momentum may differ in the last digits,
                # so resonances take no part here
                add = [a for a in add if sp.width[a[0]] <= 1e-3] or [[211, t0] + add[0][2:5] + [math.sqrt(sp.mass[211] ** 2 + .01), .1, 0., 0.]]
                rows = []
                for k, a in enumerate(add):
                    rows.append(dict(t='%.17g' % a[1], x='%.17g' % a[2], y='%.17g' % a[3], z='%.17g' % a[4], mass='%.17g' % sp.mass[a[0]],
                                     p0='%.17g' % a[5], px='%.17g' % a[6], py='%.17g' % a[7], pz='%.17g' % a[8], pdg=str(a[0]),
                                     ID=str(len(ps) + k), charge=str(outputs.charge_of(a[0]))))
                txt += gen.list_event_text(e, ps)
                txt2 += gen.list_event_text(e, ps + rows)
                case['start'].append([add, len(ps)])
            case['files']['list0'] = txt
            case['both'] = txt2
            case['t0'] = t0
            case['times'] = [round(t0 + (end - t0) * k / 3, 3) for k in (1, 2)]
            cfg['Output']['Collisions']['Quantities'] = gen.QUANT
            return
        t0 = m.get('Start_Time', 0.) if modus in ('Box', 'Sphere') else 0.
        case['program'] = []
        for e in range(nev):
            steps = []
            for t in sorted(gen.r3(rng, t0, end, 2) for _ in range(rng.choice([1, 2, 3, 5, 8]))):
                acts = []
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    k = rng.randrange(8)
                    if k < 3:
                        acts.append(['add'] + self.new_particle(rng, case, t, L))
                    elif k < 6:
                        acts.append([rng.choice(['remove', 'remove', 'removet']), rng.randrange(1000), gen.r3(rng, -1, 1, 2)])
                    elif k == 6:
                        acts.append(['removex', rng.randrange(1000), 0])
                    else:
                        k = rng.randrange(1000)       # taken out and put back at once
                        acts += [['addback', k, 0], ['remove', k, 0]]
                steps.append([min(t, end), acts])
            case['program'].append(steps)
    def lines(self, case, detail):
        """the client program; detail: in separate calls with the state written down around each change"""
        end = case['config']['General']['End_Time']
        out = []
        for steps in case['program']:
            out.append('event')
            out.append('dump start')
            t = None
            for t, acts in steps:
                out.append('evolve %r' % t)
                out.append('dump before')
                for a in acts:
                    if a[0] == 'add':
                        out.append('add %d %s' % (a[1], ' '.join('%.17g' % v for v in a[2:])))
                    elif a[0] == 'removet':
                        out.append('removet %d %r' % (a[1], a[2]))
                    else:
                        out.append('%s %d' % (a[0], a[1]))
                if detail:
                    out.append('evolve %r' % t)
                    out.append('dump after')
            out += ['evolve %r' % end, 'dump end', 'final', 'dump final', 'output', 'next']
        return out
    # ------------------------------------------------------------ judging
    def model(self, before, acts, sp, t):
        """content after the additions and removals; None where the outcome is not specified (one particle named twice)"""
        now = [dict(p) for p in before.parts]
        n = len(before.parts)
        added = []
        gone = set()
        for a in acts:
            if a[0] == 'add':
                pdg, x, e, p = a[1], a[2:6], a[6], a[7:10]
                m2 = e * e - sum(v * v for v in p)
                m = sp.mass[pdg] if sp.width[pdg] <= 1e-5 else math.sqrt(m2)
                E = math.sqrt(m * m + sum(v * v for v in p))
                dt = t - x[0]
                added.append({'pdg': pdg, 'x': [t] + [x[k + 1] + p[k] / E * dt for k in range(3)], 'p': [E] + p, 'form': x[0], 'new': True})
            elif a[0] == 'addback' and n:
                q = dict(now[a[1] % n])
                q['new'], q['form'] = True, t
                added.append(q)
            elif a[0] in ('remove', 'removet') and n:
                if a[1] % n in gone:
                    return None
                gone.add(a[1] % n)
        keep = [p for k, p in enumerate(now) if k not in gone]
        return keep, added, len(gone)
    def check_changes(self, case, ds, st):
        """the dumps around each change against the model; returns the changes done, in order, per event"""
        sp = core.species(case['universe'])
        k = 0
        events = []
        for steps in case['program']:
            assert ds[k].label == 'start'
            k += 1
            done = []
            for t, acts in steps:
                b, a = ds[k], ds[k + 1]
                k += 2
                # the clock stands at the end of the step the call ended in; an empty system does not tell
                times = {p['x'][0] for p in b.parts}
                if len(times) > 1 and max(times) - min(times) > 1e-9:
                    raise Violation('times', 'particles at different times after a call: %s' % sorted(times)[:3])
                if not times:
                    if acts:
                        st['changes of an empty system'] = st.get('changes of an empty system', 0) + 1
                    tt = next((p['x'][0] for p in a.parts), t)
                else:
                    tt = max(times)
                if tt < t - 1e-6:
                    raise Violation('times', 'asked to evolve until %r, the particles are at %r' % (t, tt))
                want = self.model(b, acts, sp, tt)
                st['changes'] = st.get('changes', 0) + 1
                keep, added, ngone = want
                old = {p['id'] for p in b.parts}
                left = [p for p in a.parts if p['id'] in old]
                new = [p for p in a.parts if p['id'] not in old]
                where = 'at %g, after %s' % (tt, ', '.join('%s %s' % (x[0], x[1]) for x in acts) or 'nothing')
                if len(left) + len(new) != len(keep) + len(added):
                    raise Violation('content', '%s: %d particles, expected %d' % (where, len(left) + len(new), len(keep) + len(added)))
                # a particle put back next to its original is as good as the original: compare contents
                pool = list(a.parts)
                for p in keep + added:
                    q = next((q for q in pool if (q['id'] in old) != bool(p.get('new')) and same_part(p, q)), None) or \
                        next((q for q in pool if same_part(p, q)), None)
                    if q is None:
                        raise Violation('content', '%s: expected %s among the particles' % (where, tell(p)))
                    pool.remove(q)
                    if not p.get('new') and q['id'] in old:
                        b0 = next(x for x in b.parts if x['id'] == q['id'])
                        if body(b0) != body(q) or b0['form'] != q['form'] or b0['xs'] != q['xs']:
                            raise Violation('content', '%s: the particle with ID %d was changed: %s' % (where, q['id'], tell(q)))
                    elif p.get('new') and q['id'] not in old and not close(q['form'], p['form']) and not (p['form'] <= tt and q['form'] <= tt):
                        raise Violation('content', '%s: %s forms at %g, expected %g' % (where, tell(q), q['form'], p['form']))
                if len({p['id'] for p in a.parts}) != len(a.parts):
                    raise Violation('content', '%s: an ID occurs twice' % where)
                st['particles added'] = st.get('particles added', 0) + len(added)
                st['particles removed'] = st.get('particles removed', 0) + ngone
                if added:
                    done.append((0, len(added), [p for p in a.parts if p['id'] not in old], b, a))
                if ngone:
                    done.append((ngone, 0, None, b, a))
            k += 2
            events.append(done)
        return events
    def check_output(self, case, r, events, st):
        """additions and removals appear in the collision output, and the history there leads to the final particles"""
        q = case['config']['Output']['Collisions']['Quantities']
        bl = outputs.read_binary(r.path('collisions_custom.bin'), q)[3]
        evs = oracles.split_events(bl, 1)
        if len(evs) != len(events):
            raise Violation('output', '%d events in the output, %d driven' % (len(evs), len(events)))
        for n, (e, done) in enumerate(zip(evs, events)):
            free = [b for b in e.inter if b.type == FREE]
            got = [(len(b.parts), len(b.outp)) for b in free]
            want = [(x[0], x[1]) for x in done]
            if got != want:
                raise Violation('output', 'event %d: additions and removals in the collision output %s, done %s' % (n, got[:8], want[:8]))
            for b in free:
                ids = [p['ID'] for p in b.outp]
                if len(set(ids)) != len(ids):
                    raise Violation('output', 'event %d: an added particle is listed twice' % n)
        return evs
    def follow(self, evs, ds, case):
        """the collision output as a book: who is there at the end"""
        finals = [d for d in ds if d.label == 'final']
        starts = [d for d in ds if d.label == 'start']
        for n, (e, s, f) in enumerate(zip(evs, starts, finals)):
            live = {p['id']: p['pdg'] for p in s.parts}
            for b in e.inter:
                for p in b.parts:
                    if live.get(p['ID']) != p['pdg']:
                        raise Violation('history', 'event %d: particle %d (ID %d) takes part in process %d but is not there' % (n, p['pdg'], p['ID'], b.type))
                for p in b.parts:
                    live.pop(p['ID'], None)
                for p in b.outp:
                    live[p['ID']] = p['pdg']
            have = {p['id']: p['pdg'] for p in f.parts}
            if have != live:
                d = sorted(set(have.items()) ^ set(live.items()))[:4]
                raise Violation('history', 'event %d: the particles at the end are not those of the collision output: %s' % (n, d))
    def execute(self, case):
        st = {'runs': 0, 'mode ' + case['mode']: 1}
        for w in case['weather']:
            for k, v in runbase.weather_stats(w).items():
                st[k] = st.get(k, 0) + v
        runs = []
        def go(c, script, w):
            r = drive(c, script, case['weather'][w])
            runs.append(r)
            st['runs'] += 1
            return r
        try:
            g = case['config']['General']
            st['simulated time fm'] = runbase.sim_time(case)
            out = getattr(self, 'run_' + case['mode'])(case, go, st, runs)
            st['simulated time fm'] *= st['runs']
            return out
        finally:
            for r in runs:
                r.clean()
    def run_split(self, case, go, st, runs):
        g = case['config']['General']
        end = g['End_Time']
        alone = core.smash(case, env=case['weather'][0])
        runs.append(alone)
        st['runs'] += 1
        if alone.timeout or core.crashed(alone) or alone.rc:
            st['not a valid run'] = 1         # judged by other checks
            return Outcome(None, None, st)
        a, b = [], []
        n = g['Nevents']
        for _ in range(n):
            a += ['event', 'evolve %r' % end, 'final', 'dump final', 'output', 'next']
            b += ['event'] + ['evolve %r' % t for t in case['times']] + ['evolve %r' % end, 'final', 'dump final', 'output', 'next']
        if case['alone'] == 'run':
            a = ['run']
        ra = go(case, a, 1)
        da = well(ra, 'the event in one call')
        fs = alone.files()
        fs.pop('config.yaml', None)
        compare(fs, ra.files(), 'stand-alone program and library')
        rb = go(case, b, 2)
        db = well(rb, 'the event in %d calls' % (len(case['times']) + 1))
        compare(ra.files(), rb.files(), 'one call and %d calls per event' % (len(case['times']) + 1))
        if case['alone'] != 'run' and [[body(p) for p in d.parts] for d in da] != [[body(p) for p in d.parts] for d in db]:
            raise Violation('differs', 'the particles at the end differ between one call and %d calls' % (len(case['times']) + 1))
        st['calls'] = len(case['times']) + 1
        dig = hashlib.sha1(repr(sorted(fs.items())).encode()).hexdigest()[:12]
        return Outcome(None, dig, st, '%s in %d calls' % (g['Modus'], len(case['times']) + 1), dig)
    def run_change(self, case, go, st, runs):
        # two removals of the same particle are refused: leave such programs out
        a = go(case, self.lines(case, True), 0)
        try:
            ds = well(a, 'a client that adds and removes particles')
        except Violation as v:
            if v.cls == 'failed' and 'removed twice' in str(v) and self.names_twice(case, dumps(a)[0]):
                st['removal of one particle twice refused'] = 1
                return Outcome(None, 'twice', st, 'twice', 'twice')
            raise
        events = self.check_changes(case, ds, st)
        evs = self.check_output(case, a, events, st)
        self.follow(evs, ds, case)
        b = go(case, self.lines(case, False), 1)
        db = well(b, 'the same client with fewer calls')
        for x in ('end', 'final', 'before'):
            p, q = ([[(y['id'],) + body(y) for y in d.parts] for d in w if d.label == x] for w in (ds, db))
            if p != q:
                raise Violation('differs', 'particles at "%s" differ when additions and removals are made in the call that evolves further' % x)
        compare(a.files(), b.files(), 'changes in calls of their own and together with the evolution')
        dig = physics.history_key(evs)
        st['interactions'] = sum(len(e.inter) for e in evs)
        return Outcome(None, dig, st, '%s, %d changes' % (case['config']['General']['Modus'], sum(map(len, events))), dig)
    def names_twice(self, case, ds):
        """the program (up to where it was stopped) removes one particle twice, or one of two equal ones"""
        k = 0
        for steps in case['program']:
            k += 1
            for t, acts in steps:
                if k >= len(ds):
                    return False
                n = len(ds[k].parts)
                idx = [x[1] % n for x in acts if x[0] in ('remove', 'removet')] if n else []
                if len(set(idx)) < len(idx):
                    return True
                bodies = [body(ds[k].parts[i]) for i in idx]
                if any(same_part(ds[k].parts[i], ds[k].parts[j]) for i in idx for j in idx if i < j):
                    return True
                k += 2
            k += 2
        return False
    def run_start(self, case, go, st, runs):
        """particles added (removed) before the first step are as good as particles of (missing in) the initial state"""
        end = case['config']['General']['End_Time']
        both = copy.deepcopy(case)
        both['files']['list0'] = case['both']
        a, b = [], []
        times = ['evolve %r' % t for t in case['times']]
        t0 = case['t0']
        for add, n in case['start']:
            tail = sum((['evolve %r' % t, 'dump t'] for t in case['times']), []) + ['evolve %r' % end, 'dump end', 'final', 'dump final', 'output', 'next']
            a += ['event']
            b += ['event']
            if case['what'] == 'add':
                a += ['add %d %s' % (x[0], ' '.join('%.17g' % v for v in x[1:])) for x in add]
            else:
                a += ['remove %d' % (n + k) for k in range(len(add))]
            a += ['evolve %r' % t0, 'dump begin'] + tail
            b += ['dump begin'] + tail
        ra = go(case if case['what'] == 'add' else both, a, 0)
        da = well(ra, 'a client that changes the initial state')
        rb = go(both if case['what'] == 'add' else case, b, 1)
        db = well(rb, 'the changed initial state itself')
        q = case['config']['Output']['Collisions']['Quantities']
        ea, eb = (oracles.split_events(outputs.read_binary(r.path('collisions_custom.bin'), q)[3], 1) for r in (ra, rb))
        def hist(evs):
            return [[(x.type, [(p['pdg'], p['p0'], p['px'], p['x']) for p in x.parts], [(p['pdg'], p['p0'], p['px'], p['x']) for p in x.outp])
                     for x in e.inter if x.type != FREE] for e in evs]
        for d1, d2 in zip(da, db):
            p, q2 = [body(x) for x in d1.parts], [body(x) for x in d2.parts]
            if p != q2:
                raise Violation('differs', 'particles %s before the first step are not treated like %s initial state: at "%s" %d and %d particles%s'
                                % ('added' if case['what'] == 'add' else 'removed', 'those of the' if case['what'] == 'add' else 'missing ones in the', d1.label, len(p), len(q2),
                                   next((': %s, %s' % (tell(x), tell(y)) for x, y in zip(d1.parts, d2.parts) if body(x) != body(y)), '')))
        if hist(ea) != hist(eb):
            raise Violation('differs', 'the history of an event with a changed initial state differs')
        st['particles ' + {'add': 'added', 'remove': 'removed'}[case['what']]] = sum(len(x[0]) for x in case['start'])
        st['interactions'] = sum(len(e.inter) for e in ea)
        dig = physics.history_key(ea)
        return Outcome(None, dig, st, 'start ' + case['what'], dig)
    def shrink(self, case):
        if any(case['weather']):
            c = copy.deepcopy(case)
            c['weather'] = [{'SIM_SEED': 1}] * 3
            if c['weather'] != case['weather']:
                yield c
        if case['mode'] == 'split':
            for k in range(len(case['times'])):
                c = copy.deepcopy(case)
                del c['times'][k]
                yield c
        if case['mode'] == 'change':
            if len(case['program']) > 1:
                c = copy.deepcopy(case)
                c['program'] = c['program'][:1]
                c['config']['General']['Nevents'] = 1
                yield c
            for e, steps in enumerate(case['program']):
                for k in range(len(steps)):
                    c = copy.deepcopy(case)
                    del c['program'][e][k]
                    yield c
                    for j in range(len(steps[k][1])):
                        c = copy.deepcopy(case)
                        del c['program'][e][k][1][j]
                        yield c
        if case['mode'] == 'split':
            for c in runbase.shrink_run(case):
                if c['config']['General']['End_Time'] == case['config']['General']['End_Time']:
                    yield c
