"""C09 collision search (brute-force refinement of whole runs; the cell grid by itself), C10 the particle container."""
import copy, math, re
import core, gen, oracles, outputs, physics, runbase
from core import Check, Outcome, Violation
from oracles import show, vel, WALL

ELASTIC = 1

def world(args, timeout=120):
    root = core.fresh_root()
    try:
        return core.call(args, {'SIM_ROOT': root, 'SIM_SEED': 1}, root, timeout, root)
    finally:
        core.shutil.rmtree(root, ignore_errors=True)

def world_result(r, what):
    t = r.out.decode(errors='replace').strip()
    if r.sig or r.timeout:
        raise Violation('crash', '%s: %s' % (what, core.crashed(r) or 'did not finish'))
    if r.rc == 1 and 'FAIL' in t:
        m = re.search(r'FAIL seed (\d+) (.*)', t)
        raise Violation('model', '%s: %s' % (what, m.group(2)), int(m.group(1)))
    if r.rc or not t.startswith('OK'):
        raise Violation('crash', '%s: exit %d: %s' % (what, r.rc, (t + r.err.decode(errors='replace'))[-300:]))
    f = t.split()
    return {f[k]: f[k + 1] for k in range(1, len(f) - 1, 2)}

class WorldCheck(Check):
    """a case is a block of consecutive seeds of a driver inside the simulator"""
    def args(self, case):
        raise NotImplementedError
    def run_world(self, case):
        return world_result(world(self.args(case)), '%s world, seed %d' % (case['world'], case['seed']))
    def narrow(self, case):
        """the single failing seed of a block"""
        if case['nseeds'] == 1:
            return None
        try:
            self.run_world(case)
        except Violation as v:
            s = v.detail
            if s is None:       # a crash: search
                for s in range(case['seed'], case['seed'] + case['nseeds']):
                    c = dict(case, seed=s, nseeds=1)
                    try:
                        self.run_world(c)
                    except Violation:
                        return c
                return None
            return dict(case, seed=s, nseeds=1)
        return None
    def drop(self, case, n):
        """leave out stretches of operations, then single ones"""
        skip = set(case.get('skip', ()))
        left = [i for i in range(n) if i not in skip]
        size = max(1, len(left) // 2)
        while size:
            for k in range(0, len(left), size):
                yield dict(case, skip=sorted(skip | set(left[k:k + size])))
            if size == 1:
                break
            size //= 2

class C10(WorldCheck):
    id = 'C10'
    universes = ()
    quick_n, thorough_n = 1000, 30000
    rule = 'distinct states of the container (ordered ids and species) reached, summed over the blocks of seeds'
    real = 'class Particles, ParticleData and ParticleType from the working tree'
    stub = 'the simulation around the container is replaced by a random driver; memory allocation may fail (shim)'
    assumptions = ('an allocation failure is injected into insertions, creations and removals, not inside a reaction',)
    technique = ('deterministic simulation: seeded random operation histories with injected allocation failures on the real '
                 'container, compared after every operation with a reference model')
    def gen(self, rng, i, tier):
        return {'world': 'particles', 'seed': rng.randrange(1, 2**40), 'nseeds': 40 if tier == 'quick' else 60,
                'ops': rng.choice([40, 150, 400]), 'faults': i % 2}
    def args(self, case):
        a = ['particles', str(case['seed']), str(case['nseeds']), str(case['ops']), str(case['faults'])]
        if case.get('skip'):
            a.append(','.join(map(str, case['skip'])))
        return a
    def execute(self, case):
        f = self.run_world(case)
        st = {'runs': case['nseeds'], 'operations': case['nseeds'] * case['ops'], 'states': int(f['states'])}
        if case['faults']:
            st['fault: failed allocations'] = int(f['faults'])
        return Outcome(None, f['hash'], st, '%d histories of %d operations, allocation failures %s'
                       % (case['nseeds'], case['ops'], 'on' if case['faults'] else 'off'), f['hash'])
    def shrink(self, case):
        c = self.narrow(case)
        if c:
            yield c
            return
        if case['faults']:
            yield dict(case, faults=0)
        if case['ops'] > 5:
            yield dict(case, ops=case['ops'] // 2)
            yield dict(case, ops=case['ops'] - 1)
        if case['ops'] <= 60 or case.get('skip'):
            yield from self.drop(case, case['ops'])
        else:
            yield dict(case, skip=list(range(case['ops'] // 2)))

# ------------------------------------------------------------------------------------------ C09
def clock_times(start, dt, end):
    """the times of a step clock (resolution 1e-6 fm)"""
    r = lambda x: round(x * 1e6)
    s, d, e = r(start), r(dt), r(end)
    out, k = [s], 1
    while out[-1] < e:
        out.append(min(e, s + k * d))
        k += 1
    return [x / 1e6 for x in out]

class P:
    __slots__ = ('t', 'x', 'p', 'v', 'proc', 'ncoll', 'pdg', 'ft', 'xf', 'id', 'gen')
    def __init__(self, q, gen=0):
        self.t, self.x = q['t'], [q['x'], q['y'], q['z']]
        self.p = (q['p0'], q['px'], q['py'], q['pz'])
        self.v = vel(q)
        self.proc, self.ncoll, self.pdg, self.id = q['proc_id_origin'], q['ncoll'], q['pdg'], q['ID']
        self.ft, self.xf = q['form_time'], q['xsecfac']
        self.gen = gen
    def at(self, t):
        d = t - self.t
        return [self.x[k] + self.v[k] * d for k in range(3)]

def mdot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]

class Search:
    """What a step must and may find.  A candidate: [time, must, tolerance, generation of both particles]."""
    def __init__(self, case, ctx):
        cfg = case['config']
        ct, g = cfg['Collision_Term'], cfg['General']
        self.cov = ct['Collision_Criterion'] == 'Covariant'
        self.ntest = g.get('Testparticles', 1)
        sigma = ct['Elastic_Cross_Section']
        self.isotropic = ct.get('Isotropic', False)
        scale = ct.get('Cross_Section_Scaling', 1.0)
        self.sigma2 = (sigma + ct.get('Additional_Elastic_Cross_Section', 0.0)) * scale * 0.1 / self.ntest / math.pi
        self.cap2 = ct.get('Maximum_Cross_Section', 200.0) * scale * 0.1 / self.ntest / math.pi
        if case['universe'] == 'one' and self.isotropic:
            self.cap2 = self.sigma2         # a single constant cross section
        self.nn_cut = ct.get('Elastic_NN_Cutoff_Sqrts', 1.98)
        self.L = ctx.get('L')
        self.nproj = ctx.get('nproj')
        self.within = cfg['Modi'].get('Collider', {}).get('Collisions_Within_Nucleus', False)
        self.collider = g['Modus'] == 'Collider'
        self.power = None
    def range2(self, dt):
        return 4 * dt * dt + self.cap2
    def consider(self, a, b, xa, xb, t, dt, reach2=None):
        """candidate for particles a and b at positions xa, xb at time t in the interval [t, t+dt], or None"""
        dx = [xa[k] - xb[k] for k in range(3)]
        d2 = dx[0] * dx[0] + dx[1] * dx[1] + dx[2] * dx[2]
        pa, pb = a.p, b.p
        X = (0.0, dx[0], dx[1], dx[2])
        aa, bb, ab = mdot(pa, pa), mdot(pb, pb), mdot(pa, pb)
        ax, bx = mdot(pa, X), mdot(pb, X)
        den = ab * ab - aa * bb
        if den < 1e-10:
            if den < 1e-13 * ab * ab or den <= 0:
                return None
            sure = False
        else:
            sure = True
        b2 = d2 - (aa * bx * bx + bb * ax * ax - 2 * ab * ax * bx) / den
        rel = [a.v[k] - b.v[k] for k in range(3)]
        v2 = rel[0] ** 2 + rel[1] ** 2 + rel[2] ** 2
        if self.cov:
            t1 = (bb * ax - ab * bx) * pa[0] / den
            t2 = -(aa * bx - ab * ax) * pb[0] / den
            tau = (t1 + t2) / 2
            tol = 1e-8 + 1e-11 * (1 + math.sqrt(d2)) * pa[0] * pb[0] * (ab + 1) / den
        else:
            if v2 < 1e-13:
                return None
            tau = -(dx[0] * rel[0] + dx[1] * rel[1] + dx[2] * rel[2]) / v2
            tol = 1e-8 + 1e-12 * (1 + math.sqrt(d2)) / v2
            if v2 * (pa[0] * pb[0]) ** 2 < 1e-5:
                sure = False
        if tau < -tol or tau > dt + tol:
            return None
        # formation (a step at the formation time), judged at the time of the collision
        lo = hi = 1.0
        for q in (a, b):
            when = t + tau
            if when < q.ft - 1e-7:
                lo *= q.xf
                hi *= q.xf
            elif when < q.ft + 1e-7:
                lo *= min(q.xf, 1.0)
                hi *= max(q.xf, 1.0)
        if b2 >= self.sigma2 * hi * (1 + 1e-6) + 1e-9 or hi <= 0:
            return None
        if b2 >= self.cap2 * (1 + 1e-6) + 1e-9:
            return None
        if b2 >= min(self.sigma2 * lo, self.cap2) * (1 - 1e-6) - 1e-9:
            sure = False
        if tau < tol or tau > dt - tol:
            sure = False
        if abs(a.pdg) in (2212, 2112) and abs(b.pdg) in (2212, 2112) and a.pdg * b.pdg > 0:
            s = aa + bb + 2 * ab
            if math.sqrt(s) < self.nn_cut - 1e-7:
                return None
            if math.sqrt(s) < self.nn_cut + 1e-7:
                sure = False
        if a.proc > 0 and a.proc == b.proc:
            return None
        if self.collider and not self.within and a.ncoll == 0 and b.ncoll == 0 and \
                (a.id < self.nproj) == (b.id < self.nproj):
            return None
        if reach2 is not None and d2 >= reach2 * (1 - 1e-9):
            sure = False        # further apart than the range of the search
        return (t + tau, sure, tol)

def refine(case, evs, ctx, st):
    S = Search(case, ctx)
    g = case['config']['General']
    end = ctx['end']
    L = ctx.get('L')
    for e in evs:
        for k, ini in e.initial.items():
            if not ini:
                continue
            t0 = ini[0]['t']
            dt = g['Delta_Time'] if g['Time_Step_Mode'] == 'Fixed' else end - t0
            if dt > 0:
                refine_ensemble(S, e, k, [P(q) for q in ini], [b for b in e.inter if b.ens == k],
                                clock_times(t0, dt, end), L, st)

def refine_ensemble(S, e, k, parts, inter, times, L, st):
    live = {p.id: p for p in parts}
    j = 0
    for n in range(len(times) - 1):
        ta, tb = times[n], times[n + 1]
        dt = tb - ta
        ids = sorted(live)
        pos = {i: live[i].at(ta) for i in ids}
        cand = {}            # (id, id) -> list of [time, sure, tol, generations]
        reach2 = S.range2(dt)
        for u, i in enumerate(ids):
            a, xa = live[i], pos[i]
            for m in ids[u + 1:]:
                b, xb = live[m], pos[m]
                if L:
                    # the cells of a periodic grid offer the nearest image
                    sh = [xb[c] + L * round((xa[c] - xb[c]) / L) for c in range(3)]
                    near_edge = any(abs(abs(xa[c] - xb[c]) - L / 2) < 1e-6 for c in range(3))
                    got = S.consider(a, b, xa, sh, ta, dt, reach2)
                    images = [got] if got else []
                    if sh != xb:
                        images += [(x[0], False, x[2]) for x in [S.consider(a, b, xa, xb, ta, dt, reach2)] if x]
                    if near_edge:
                        images = [(x[0], False, x[2]) for x in images]
                else:
                    got = S.consider(a, b, xa, xb, ta, dt, reach2)
                    images = [got] if got else []
                for c in images:
                    cand.setdefault((i, m), []).append([c[0], c[1], c[2], (a.gen, b.gen)])
                    st['candidates'] = st.get('candidates', 0) + 1
        def overdue(limit, only=None):
            for (i, m), l in cand.items():
                if only is not None and i not in only and m not in only:
                    continue
                for c in l:
                    if c[1] and c[0] < limit - c[2] - 1e-9 and c[3] == (live[i].gen, live[m].gen):
                        raise Violation('overlooked', 'event %d ensemble %d step [%g, %g]: particles %d#%d and %d#%d come within '
                                        'reach at t=%.12g, but do not collide' % (e.number, k, ta, tb, live[i].pdg, i,
                                                                                  live[m].pdg, m, c[0]))
        while j < len(inter) and inter[j].parts[0]['t'] <= tb + 1e-9:
            b = inter[j]
            t = b.parts[0]['t']
            if t > tb - 1e-9 and b.type == WALL and n + 2 < len(times) and j + 1 < len(inter):
                pass
            pid = tuple(sorted(p['ID'] for p in b.parts))
            if b.type == ELASTIC:
                if len(pid) != 2:
                    raise Violation('structure', 'event %d: elastic scattering of %d particles' % (e.number, len(pid)))
                gens = (live[pid[0]].gen, live[pid[1]].gen)
                hit = [c for c in cand.get(pid, ()) if abs(c[0] - t) <= 2 * c[2] + 1e-7 and c[3] == gens]
                if not hit:
                    if t > tb - 1e-6:
                        break           # may belong to the next step
                    raise Violation('not within reach', 'event %d ensemble %d step [%g, %g]: %s and %s collide at t=%.12g, '
                                    'where they should not (candidates of this pair: %s)' % (
                                        e.number, k, ta, tb, show(b.parts[0]), show(b.parts[1]), t,
                                        [(c[0], c[1]) for c in cand.get(pid, ())]))
                cand.pop(pid)
                overdue(t, set(pid))
                st['collisions matched'] = st.get('collisions matched', 0) + 1
            elif b.type != WALL:
                raise Violation('structure', 'event %d: process type %d in a run with elastic scattering only'
                                % (e.number, b.type))
            # a crossing of a wall keeps what was found before
            fresh = []
            for q in b.outp:
                old = live[q['ID']]
                live[q['ID']] = P(q, old.gen + (1 if b.type == ELASTIC else 0))
                fresh.append(q['ID'])
            for i in fresh:
                a = live[i]
                for m in live:
                    if m in fresh:
                        continue
                    o = live[m]
                    xo = o.at(t)
                    c = S.consider(a, o, a.x, xo, t, tb - t)
                    got = [c] if c else []
                    if L:
                        sh = [xo[q] + L * round((a.x[q] - xo[q]) / L) for q in range(3)]
                        if sh != xo:
                            c = S.consider(a, o, a.x, sh, t, tb - t)
                            got += [(c[0], False, c[2])] if c else []
                    for c in got:
                        key = (i, m) if i < m else (m, i)
                        gens = (live[key[0]].gen, live[key[1]].gen)
                        cand.setdefault(key, []).append([c[0], c[1], c[2], gens])
                        st['candidates'] = st.get('candidates', 0) + 1
            j += 1
        overdue(tb)
        st['steps searched'] = st.get('steps searched', 0) + 1
    while j < len(inter):
        if inter[j].type == ELASTIC:
            raise Violation('not within reach', 'event %d ensemble %d: collision after the end at t=%.12g'
                            % (e.number, k, inter[j].parts[0]['t']))
        j += 1

class C09(WorldCheck):
    id = 'C09'
    universes = ('std', 'pi', 'one')
    quick_n, thorough_n = 700, 40000
    rule = 'distinct collision sequences of the runs compared with brute force, and distinct cell contents of the grid'
    profile = {'reactions': 'elastic', 'stable': True, 'no_stochastic': True, 'no_frozen': True, 'n': 30,
               'modi': ['Box', 'Box', 'ListBox', 'Sphere', 'List', 'Collider'], 'end': 6.0}
    technique = ('deterministic simulation: seeded runs of the real program with elastic scattering, refined step by step against '
                 'a brute-force search over all pairs; seeded particle arrangements through the real cell grid')
    real = 'all of SMASH from the working tree; in the grid part class Grid, Particles, ParticleData'
    assumptions = ('one constant elastic cross section, so that the total cross section is known',
                   'periodic images are searched at the beginning of a step (documented approximation of the code)')
    def gen(self, rng, i, tier):
        if i % 4 == 3:
            return {'world': 'grid', 'seed': rng.randrange(1, 2**40), 'nseeds': 60 if tier == 'quick' else 200}
        p = dict(self.profile)
        if i % 8 == 1:
            p['n'] = 80
            p['end'] = 3.0
        if i % 8 == 2:
            p['universe'] = 'one'
            p['modi'] = ['Box', 'Sphere', 'List']
        p['nevents'] = [1, 1, 2]
        case = gen.run_case(rng, p)
        cfg = case['config']
        g, ct = cfg['General'], cfg['Collision_Term']
        ct.pop('Decay_Initial_Particles', None)
        ct['Force_Decays_At_End'] = False
        if rng.random() < .3:
            ct['Cross_Section_Scaling'] = gen.r3(rng, .5, 1.5, 2)
        if rng.random() < .2 and not ct.get('Isotropic'):
            ct['Additional_Elastic_Cross_Section'] = gen.r3(rng, 1, 20, 1)
        if g['Modus'] == 'Box' and 'Jet' in cfg['Modi']['Box']:
            del cfg['Modi']['Box']['Jet']
        if g['Modus'] == 'Box':
            cfg['Modi']['Box'].pop('Equilibration_Time', None)
        if rng.random() < .4 and g['Time_Step_Mode'] == 'Fixed' and g['Modus'] not in ('Box', 'ListBox'):
            g['Delta_Time'] = gen.r3(rng, 0.2, 2.0, 2)
        gen.fit_box(cfg)
        mult = cfg['Modi'][g['Modus']].get('Init_Multiplicities')
        if mult:                # brute force over all pairs: not more than some hundred particles
            f = 300 / max(1, sum(mult.values()) * g.get('Testparticles', 1) * g.get('Ensembles', 1))
            if f < 1:
                for k in mult:
                    mult[k] = max(1, int(mult[k] * f))
        case['env'] = runbase.weather(rng, .4)
        case['world'] = 'run'
        return case
    def args(self, case):
        a = ['grid', str(case['seed']), str(case['nseeds'])]
        if case.get('skip'):
            a.append(','.join(map(str, case['skip'])))
        return a
    def shrink(self, case):
        if case['world'] == 'run':
            yield from runbase.shrink_run(case)
            return
        c = self.narrow(case)
        if c:
            yield c
        elif case['nseeds'] == 1:
            yield from self.drop(case, 200)
    def execute(self, case):
        if case['world'] == 'grid':
            f = self.run_world(case)
            st = {'runs': 0, 'grid: arrangements': case['nseeds'], 'grid: periodic': int(f['periodic']),
                  'grid: particles': int(f['particles']), 'grid: distinct cell contents': int(f['shapes'])}
            return Outcome(None, f['hash'], st, '%d arrangements in the cell grid' % case['nseeds'], f['hash'])
        st = runbase.weather_stats(case['env'])
        r = core.smash(case)
        try:
            physics.orderly(r)
            st['runs'] = 1
            if r.rc:
                raise Violation('failed', 'a valid run ends with exit %d: %s' % (r.rc, runbase.fatal(r)))
            st['simulated time fm'] = runbase.sim_time(case)
            ctx = physics.context(case)
            evs, _ = physics.load(case, r, ctx)
            oracles.replay(evs, ctx)
            refine(case, evs, ctx, st)
            key = physics.history_key(evs)
            n = sum(len(e.inter) for e in evs)
            g = case['config']['General']
            st['runs without grid' if g.get('Use_Grid') is False else 'runs with grid'] = 1
            return Outcome(None, key if n else None, st, '%s, %s, %d interactions' % (
                g['Modus'], case['config']['Collision_Term']['Collision_Criterion'], n), key)
        finally:
            r.clean()
