"""C18 every event starts from the configured initial state."""
import copy, itertools, math, random
import core, gen, oracles, outputs, physics
from core import Check, Outcome, Violation
from oracles import show, vel
from runbase import RunCheck, weather, fatal, weather_stats

QUANT = gen.QUANT + ['spin0', 'spinx', 'spiny', 'spinz']
SETUPS = ('thermal momenta', 'thermal momenta quantum', 'peaked momenta')
SPHERES = ('thermal momenta', 'thermal momenta quantum', 'IC_ES', 'IC_1M', 'IC_2M', 'IC_Massive')
M = {2212: .938, 2112: .938, 211: .138, -2212: .938, 321: .494, 3122: 1.116}

def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1., abs(a), abs(b))

def boost_rapidity(gamma):
    return math.acosh(max(1., gamma))

class C18(Check):
    id = 'C18'
    quick_n, thorough_n = 4000, 100000
    rule = 'distinct initial states (species and rounded positions of the first event)'
    technique = ('deterministic simulation: seeded search over configured initial states, several events and ensembles each; the states '
                 'are compared with an independent account of the configuration, and the first collisions of nuclei with the rule '
                 'against collisions within a nucleus')
    assumptions = ('distributions are not compared, only what holds for each sample',)

    # ------------------------------------------------------------------ generation
    def gen(self, rng, i, tier):
        modus = rng.choice(['Box', 'Sphere', 'Collider', 'Collider', 'Collider'])
        u = 'std' if modus == 'Collider' else rng.choice(['std', 'pi'])
        g = {'Modus': modus, 'Randomseed': rng.randrange(1, 2**62), 'Nevents': rng.choice([1, 2, 3, 4]), 'Delta_Time': 0.1,
             'Time_Step_Mode': 'Fixed'}
        if rng.random() < .35:
            g['Ensembles'] = rng.randrange(2, 4)
        if rng.random() < .3:
            g['Testparticles'] = rng.randrange(2, 4)
        ct = {'Strings': False, 'No_Collisions': True}
        if rng.random() < .3:
            ct['Spin_Interactions'] = 'On'
        cfg = {'Logging': gen.logging(), 'General': g, 'Collision_Term': ct,
               'Output': {'Output_Interval': 50., 'Particles': {'Format': ['Binary'], 'Quantities': QUANT, 'Only_Final': 'No'}}}
        case = {'universe': u, 'files': {}, 'config': cfg, 'env': weather(rng)}
        m = getattr(self, 'gen_' + modus.lower())(rng, cfg, case)
        cfg['Modi'] = {modus: m}
        return case
    def common(self, rng, cfg, case, m):
        u = case['universe']
        m['Temperature'] = gen.r3(rng, .05, .25)
        m['Start_Time'] = rng.choice([0., gen.r3(rng, -3, 5, 2)])
        cfg['General']['End_Time'] = round(max(m['Start_Time'], 0) + .05, 2)
        cfg['General']['Delta_Time'] = .05
        if rng.random() < .15 and u == 'std':
            m['Use_Thermal_Multiplicities'] = True
            m['Temperature'] = gen.r3(rng, .1, .15)
            if rng.random() < .3:
                m['Baryon_Chemical_Potential'] = gen.r3(rng, -.3, .3)
            if m['Initial_Condition'] == 'thermal momenta quantum':
                m['Initial_Condition'] = 'thermal momenta'
        else:
            k = dict(gen.PI if u == 'pi' else {**gen.MESONS, **gen.BARYONS})
            if m['Initial_Condition'].startswith('IC_ES'):
                pass
            m['Init_Multiplicities'] = {str(p): rng.choice([1, 2, 3, 7, 20, 34]) for p in rng.sample(sorted(k), rng.randrange(1, 5))}
        if m['Initial_Condition'] == 'thermal momenta quantum':
            # the effective chemical potential exists only below condensation, the solver needs not too few of them
            m['Temperature'] = gen.r3(rng, .1, .2)
            m['Init_Multiplicities'] = {'2212': rng.randrange(1, 12), '211': rng.randrange(1, 4)}
        if rng.random() < .3:
            m['Account_Resonance_Widths'] = rng.random() < .5
    def gen_box(self, rng, cfg, case):
        m = {'Length': gen.r3(rng, 4, 12, 2), 'Initial_Condition': rng.choice(SETUPS)}
        cfg['Collision_Term']['Maximum_Cross_Section'] = 20.
        self.common(rng, cfg, case, m)
        if m.get('Use_Thermal_Multiplicities'):
            m['Length'] = gen.r3(rng, 4, 7, 2)
        if rng.random() < .3:
            m['Jet'] = {'Jet_PDG': rng.choice([211, 2212, 113]), 'Jet_Momentum': gen.r3(rng, .5, 20, 2)}
        return m
    def gen_sphere(self, rng, cfg, case):
        m = {'Radius': gen.r3(rng, .5, 8, 2), 'Initial_Condition': rng.choice(SPHERES)}
        self.common(rng, cfg, case, m)
        if m.get('Use_Thermal_Multiplicities') or m['Initial_Condition'] == 'thermal momenta quantum':
            m['Radius'] = gen.r3(rng, 3, 4.5, 2)
        if rng.random() < .4:
            m['Add_Radial_Velocity'] = gen.r3(rng, .05, .95)
            if rng.random() < .5:
                m['Add_Radial_Velocity_Exponent'] = gen.r3(rng, 0, 2, 1)
        if rng.random() < .4:
            j = m['Jet'] = {'Jet_PDG': rng.choice([211, 2212, 113]), 'Jet_Momentum': gen.r3(rng, .5, 20, 2)}
            if rng.random() < .4:
                j['Jet_Position'] = [gen.r3(rng, -2, 2, 2) for _ in range(3)]
            if rng.random() < .6:
                j['Back_To_Back'] = True
                if rng.random() < .6:
                    j['Back_To_Back_Separation'] = gen.r3(rng, 0, 3, 2)
        return m
    NUC = [{2212: 1}, {2112: 1}, {2212: 1, 2112: 1}, {2212: 2, 2112: 2}, {2212: 6, 2112: 6}, {2212: 3, 2112: 4}, {2212: 8, 2112: 8},
           {211: 1}, {321: 1}, {-2212: 1}, {2212: 20, 2112: 20}, {2212: 2, 2112: 2, 3122: 1}, {2212: 29, 2112: 34}]
    def gen_collider(self, rng, cfg, case):
        c, g, ct = {}, cfg['General'], cfg['Collision_Term']
        n = {}
        for s in ('Projectile', 'Target'):
            n[s] = dict(rng.choice(self.NUC))
        if rng.random() < .3:
            n['Target'] = dict(n['Projectile'])
        if rng.random() < .12 and cfg['Collision_Term'].get('Spin_Interactions') is None:
            for s in ('Projectile', 'Target'):
                n[s] = {2212: 2, 2112: 2}
            g.pop('Testparticles', None)
            case['custom'] = True
        for s in ('Projectile', 'Target'):
            c[s] = {'Particles': {str(k): v for k, v in n[s].items()}}
            A = sum(n[s].values())
            if case.get('custom'):
                continue
            if A > 1 and rng.random() < .2:
                c[s].update({'Radius': gen.r3(rng, 1, 4, 1), 'Diffusiveness': gen.r3(rng, .2, .7, 2), 'Saturation_Density': 0.168})
            if A == 16 and rng.random() < .5:
                c[s]['Alpha_Clustered'] = {'Automatic': True} if rng.random() < .5 else {'Automatic': False, 'Side_Length': gen.r3(rng, 2, 5, 1)}
                for k in ('Radius', 'Diffusiveness', 'Saturation_Density'):
                    c[s].pop(k, None)
            elif A > 4 and rng.random() < .2:
                c[s]['Deformed'] = {'Automatic': False, 'Beta_2': gen.r3(rng, -.3, .4, 2)}
                if rng.random() < .5:
                    c[s]['Orientation'] = rng.choice([{'Random_Rotation': True}, {'Theta': gen.r3(rng, 0, 3, 2)}])
        e = rng.choice(['E_Kin', 'E_Tot', 'P_Lab', 'Sqrtsnn', 'E_Kin2', 'E_Tot2', 'P_Lab2'])
        mass = {s: sum(M[k] * v for k, v in n[s].items()) / sum(n[s].values()) for s in n}
        if e[-1] == '2':
            for s in ('Projectile', 'Target'):
                p = gen.r3(rng, .2, 6)
                if rng.random() < .15 and s == 'Target' and e != 'E_Tot2':
                    p = 0.
                E = math.sqrt(p * p + mass[s] ** 2)
                c[s][e[:-1]] = {'P': p, 'K': E - mass[s], 'T': E}[e[0] if e[0] == 'P' else e[2]]
        else:
            p = gen.r3(rng, .3, 30)
            E = math.sqrt(p * p + mass['Projectile'] ** 2)
            c[e] = {'P_Lab': p, 'E_Kin': E - mass['Projectile'], 'E_Tot': E,
                    'Sqrtsnn': math.sqrt(mass['Projectile'] ** 2 + mass['Target'] ** 2 + 2 * mass['Target'] * E)}[e]
        c['Calculation_Frame'] = rng.choice(['center of velocity', 'center of mass', 'fixed target'])
        c['Fermi_Motion'] = rng.choice(['off', 'off', 'on', 'frozen'])
        c['Initial_Distance'] = rng.choice([0., .5, 2., gen.r3(rng, 0, 8)])
        k = rng.random()
        if k < .3:
            c['Impact'] = {'Value': gen.r3(rng, 0, 6)}
        elif k < .6:
            c['Impact'] = {'Sample': rng.choice(['uniform', 'quadratic'])}
            if rng.random() < .5:
                c['Impact']['Max'] = gen.r3(rng, .5, 6)
            else:
                a = gen.r3(rng, 0, 3)
                c['Impact']['Range'] = [a, round(a + gen.r3(rng, 0, 4), 3)]
        elif k < .8:
            v = sorted({gen.r3(rng, 0, 6, 2) for _ in range(rng.randrange(2, 6))})
            if len(v) > 1:
                y = [gen.r3(rng, .1, 2, 2) for _ in v]
                c['Impact'] = {'Sample': 'custom', 'Values': v, 'Yields': y}
        if 'Impact' in c and rng.random() < .5:
            c['Impact']['Random_Reaction_Plane'] = True
        y = self.beams(c, n)
        slow = min(abs(math.tanh(v)) for v in y[:1])
        if slow < .05:         # the time until the nuclei meet, and with it the grid, would be without end
            c['Calculation_Frame'] = 'fixed target'
            y = self.beams(c, n)
        case['collide'] = rng.random() < .35
        if case['collide']:
            self.let_collide(rng, cfg, case, c)
        if case.get('custom'):
            self.custom_files(rng, case, c, n)
        start = -c['Initial_Distance'] / 2 / math.tanh(y[0])
        g['End_Time'] = .05 if not case['collide'] else gen.r3(rng, 2, 8, 1)
        if not case['collide']:
            g['Delta_Time'] = max(.1, -start)
        return c
    def let_collide(self, rng, cfg, case, c):
        """nuclei that go on to meet: their nucleons do not collide with each other before"""
        g, ct = cfg['General'], cfg['Collision_Term']
        ct.pop('No_Collisions')
        ct['Total_Cross_Section_Strategy'] = 'BottomUp'
        ct['NNbar_Treatment'] = 'no annihilation'
        ct['Elastic_Cross_Section'] = gen.r3(rng, 30, 150, 0)
        ct['Two_to_One'] = False
        ct['Included_2to2'] = ['Elastic']
        ct['Collision_Criterion'] = rng.choice(['Covariant', 'Geometric'])
        g.pop('Testparticles', None)
        cfg['Output']['Collisions'] = {'Format': ['Binary'], 'Quantities': gen.QUANT, 'Print_Start_End': True}
        if c.get('Impact', {}).get('Value', 0) > 2 or rng.random() < .3:
            c['Impact'] = {'Value': 1.}
        if rng.random() < .15:
            c['Collisions_Within_Nucleus'] = True
    def custom_files(self, rng, case, c, n):
        same = rng.random() < .5
        for j, s in enumerate(('Projectile', 'Target')):
            f = 'nuclei' if same else 'nuclei%d' % j
            c[s]['Custom'] = {'File_Directory': '@IN@', 'File_Name': f}
            if f in case['files']:
                continue
            lines = []
            for k in range(rng.choice([1, 2, 3, 5])):
                iso = [0] * n[s][2112] + [1] * n[s][2212]
                rng.shuffle(iso)
                for q in iso:
                    lines.append(' '.join('%.6f' % rng.uniform(-2, 2) for _ in range(3)) + ' %d %d' % (rng.randrange(2), q))
            case['files'][f] = '\n'.join(lines) + ('\n' if rng.random() < .6 else '')

    # ------------------------------------------------------------------ what the configuration means
    @staticmethod
    def beams(c, n):
        """rapidities of projectile and target in the calculation frame"""
        Pn, Tn = n['Projectile'], n['Target']
        mp = sum(M[int(k)] * v for k, v in Pn.items())
        mt = sum(M[int(k)] * v for k, v in Tn.items())
        a, b = mp / sum(Pn.values()), mt / sum(Tn.values())
        if 'Sqrtsnn' in c:
            g = (c['Sqrtsnn'] ** 2 - a * a - b * b) / (2 * a * b)
            y = boost_rapidity(g)
        elif 'E_Kin' in c:
            y = boost_rapidity(1 + c['E_Kin'] / a)
        elif 'E_Tot' in c:
            y = boost_rapidity(c['E_Tot'] / a)
        elif 'P_Lab' in c:
            y = math.asinh(c['P_Lab'] / a)
        else:
            y = 0
            for s, m in (('Projectile', a), ('Target', b)):
                s = c[s]
                y += (boost_rapidity(1 + s['E_Kin'] / m) if 'E_Kin' in s else boost_rapidity(s['E_Tot'] / m) if 'E_Tot' in s
                      else math.asinh(s['P_Lab'] / m))
        f = c['Calculation_Frame']
        if f == 'fixed target':
            return y, 0.
        if f == 'center of velocity':
            return y / 2, -y / 2
        # mp sinh(ya) = mt sinh(y - ya)
        ya = math.atanh(mt * math.sinh(y) / (mp + mt * math.cosh(y)))
        return ya, ya - y

    def execute(self, case):
        st = weather_stats(case['env'])
        self.mirrored = None
        r = core.smash(case)
        try:
            physics.orderly(r)
            st['runs'] = 1
            if r.rc:
                raise Violation('failed', 'a valid run ends with exit %d: %s' % (r.rc, fatal(r)))
            g = case['config']['General']
            _, _, _, pb = outputs.read_binary(r.path('particles_custom.bin'), QUANT)
            evs = oracles.split_particle_events(pb, g.get('Ensembles', 1))
            if len(evs) != g['Nevents']:
                raise Violation('events', '%d events instead of %d' % (len(evs), g['Nevents']))
            seen, key = set(), []
            modus = g['Modus']
            mem = {}
            for e in evs:
                for k in sorted(e.initial):
                    where = 'event %d ensemble %d' % (e.number, k)
                    ps = e.initial[k]
                    st['initial states'] = st.get('initial states', 0) + 1
                    self.generic(case, ps, where)
                    getattr(self, 'check_' + modus.lower())(case, ps, where, e, mem)
                    sig = tuple((p['pdg'], p['px'], p['x']) for p in ps)
                    if sig in seen and (modus != 'Collider' or len(ps) > 4):
                        raise Violation('repeated', '%s starts from the same state as an earlier one' % where)
                    seen.add(sig)
                    key.append(hash(tuple((p['pdg'], round(p['x'], 1), round(p['pz'], 1)) for p in ps)))
            if case.get('custom'):
                self.check_custom(case, evs)
                st['custom nuclei (runs)'] = 1
            if case.get('collide'):
                self.check_first(case, r, evs, st)
            if self.mirrored:
                # the one listed defect: judged last
                raise Violation('spin direction', '%s: the spin vector %r of %s is orthogonal to the mirrored momentum' % self.mirrored)
            dig = '%x' % (hash(tuple(key)) & 0xffffffffffff)
            return Outcome(None, dig, st, '%s, %d events, %d particles' % (modus, len(evs), len(evs[0].initial[min(evs[0].initial)])), dig)
        finally:
            r.clean()

    def generic(self, case, ps, where):
        sp = core.species(case['universe'])
        g = case['config']['General']
        spin = case['config']['Collision_Term'].get('Spin_Interactions') == 'On'
        ids = [p['ID'] for p in ps]
        if sorted(ids) != list(range(len(ids))):
            raise Violation('ids', '%s: IDs %r' % (where, sorted(ids)[:20]))
        t = ps[0]['t'] if ps else 0
        for p in ps:
            oracles.check_particle(p, sp, where)
            if p['t'] != t:
                raise Violation('time', '%s: %s starts at another time than %s' % (where, show(p), show(ps[0])))
            if not close(p['form_time'], t, 1e-12):
                raise Violation('formation', '%s: %s is formed at %.9g' % (where, show(p), p['form_time']))
            if p['ncoll'] or p['proc_type_origin'] or p['xsecfac'] != 1. or p['pdg_mother1'] or p['pdg_mother2']:
                raise Violation('history', '%s: %s has a history' % (where, show(p)))
            if not spin:
                continue
            s = [p['spin0'], p['spinx'], p['spiny'], p['spinz']]
            if not all(math.isfinite(x) for x in s):
                raise Violation('spin', '%s: %s has the spin vector %r' % (where, show(p), s))
            d = s[1] * p['px'] + s[2] * p['py'] + s[3] * p['pz']
            tol = 1e-6 * (1 + abs(s[0]) * p['p0'])
            if abs(s[0] * p['p0'] - d) > tol:
                if abs(s[0] * p['p0'] + d) <= tol:
                    self.mirrored = self.mirrored or (where, s, show(p))
                else:
                    raise Violation('spin', '%s: the spin vector %r of %s is not orthogonal to its momentum' % (where, s, show(p)))

    def multiplicities(self, case, ps, m, where):
        """the bulk, without jets"""
        nt = case['config']['General'].get('Testparticles', 1)
        jet = m.get('Jet')
        k = 0 if not jet else 2 if jet.get('Back_To_Back') else 1
        byid = sorted(ps, key=lambda p: p['ID'])
        bulk, jets = byid[:len(byid) - k], byid[len(byid) - k:]
        if 'Init_Multiplicities' in m:
            want = {int(a): b * nt for a, b in m['Init_Multiplicities'].items()}
            have = {}
            for p in bulk:
                have[p['pdg']] = have.get(p['pdg'], 0) + 1
            if have != want:
                raise Violation('multiplicity', '%s: particles %r instead of %r' % (where, have, want))
        for p in bulk:
            sp = core.species(case['universe'])
            sampled = m.get('Account_Resonance_Widths', True) and m['Initial_Condition'] == 'thermal momenta'
            if not sampled and abs(p['mass'] - sp.mass[p['pdg']]) > 1e-5:
                raise Violation('mass', '%s: %s has the mass %.9g' % (where, show(p), p['mass']))
        for c in ('px', 'py', 'pz'):
            tot = sum(p[c] for p in bulk)
            if abs(tot) > 1e-6 * (1 + sum(abs(p[c]) for p in bulk)):
                raise Violation('momentum', '%s: the total momentum %s is %.9g' % (where, c, tot))
        return bulk, jets
    def jets(self, case, m, jets, where):
        if not jets:
            return
        j = m['Jet']
        pdg, q = j['Jet_PDG'], j['Jet_Momentum']
        x0 = j.get('Jet_Position', [0., 0., 0.])
        d = j.get('Back_To_Back_Separation', .01) / 2 if j.get('Back_To_Back') else 0.
        anti = {211: -211, 2212: -2212, 113: 113}[pdg]
        for p, w, s in zip(jets, (pdg, anti), (1, -1)):
            if p['pdg'] != w:
                raise Violation('jet', '%s: %s instead of %d' % (where, show(p), w))
            if not (close(p['px'], s * q) and close(p['py'], 0) and close(p['pz'], 0)):
                raise Violation('jet', '%s: momentum of %s instead of %.9g' % (where, show(p), s * q))
            want = [x0[0] + s * d, x0[1], x0[2]]
            if not all(close(a, b) for a, b in zip(oracles.pos(p), want)):
                raise Violation('jet', '%s: %s instead of at %r' % (where, show(p), want))
    def check_box(self, case, ps, where, e, mem):
        m = case['config']['Modi']['Box']
        bulk, jets = self.multiplicities(case, ps, m, where)
        self.jets(case, m, jets, where)
        for p in ps:
            if p['t'] != m['Start_Time']:
                raise Violation('time', '%s: %s starts at %.9g' % (where, show(p), p['t']))
            if not all(0 <= x < m['Length'] for x in oracles.pos(p)):
                raise Violation('outside', '%s: %s is not in the box' % (where, show(p)))
    def check_sphere(self, case, ps, where, e, mem):
        m = case['config']['Modi']['Sphere']
        bulk, jets = self.multiplicities(case, ps, m, where)
        self.jets(case, m, jets, where)
        for p in ps:
            if p['t'] != m['Start_Time']:
                raise Violation('time', '%s: %s starts at %.9g' % (where, show(p), p['t']))
        for p in bulk:
            if sum(x * x for x in oracles.pos(p)) > m['Radius'] ** 2 * (1 + 1e-9):
                raise Violation('outside', '%s: %s is not in the sphere' % (where, show(p)))

    @staticmethod
    def surface(c, A, nt):
        """radius and diffusiveness; None if the user guide does not give them"""
        if 'Radius' in c:
            return c['Radius'] + max(0., c['Diffusiveness'])
        if 'Alpha_Clustered' in c or 'Deformed' in c:
            return None
        if A == 1:
            return 0. if nt == 1 else None
        if A <= 16:
            return 1.2 * A ** (1 / 3) + .545
        if A == 63:
            return 4.20641 + .5977
        return 1.12 * A ** (1 / 3) - .86 * A ** (-1 / 3) + .54

    def check_collider(self, case, ps, where, e, mem):
        cfg = case['config']
        c, nt = cfg['Modi']['Collider'], cfg['General'].get('Testparticles', 1)
        n = {s: {int(k): v for k, v in c[s]['Particles'].items()} for s in ('Projectile', 'Target')}
        ys = self.beams(c, n)
        byid = sorted(ps, key=lambda p: p['ID'])
        na = sum(n['Projectile'].values()) * nt
        t = ps[0]['t']
        dist = c['Initial_Distance']
        want = -dist / 2 / math.tanh(ys[0])
        if not close(t, want, 1e-6):
            raise Violation('time', '%s starts at %.9g instead of %.9g' % (where, t, want))
        centers, edges = [], []
        for s, y, part in (('Projectile', ys[0], byid[:na]), ('Target', ys[1], byid[na:])):
            have = {}
            for p in part:
                have[p['pdg']] = have.get(p['pdg'], 0) + 1
            w = {k: v * nt for k, v in n[s].items()}
            if have != w:
                raise Violation('multiplicity', '%s: %s %r instead of %r' % (where, s, have, w))
            g, b = math.cosh(y), math.tanh(y)
            tot = [0, 0, 0]
            for p in part:
                if c['Fermi_Motion'] == 'off' or p['pdg'] not in (2212, 2112) or len(part) == nt:
                    q = p['mass'] * math.sinh(y)
                    if abs(p['px']) + abs(p['py']) > 1e-9 or not close(p['pz'], q, 1e-6):
                        raise Violation('beam', '%s: %s: %s instead of pz=%.9g' % (where, s, show(p), q))
                else:
                    k = g * (p['pz'] - b * p['p0'])
                    kk = math.sqrt(k * k + p['px'] ** 2 + p['py'] ** 2)
                    if kk > .9:
                        raise Violation('fermi', '%s: %s: Fermi momentum %.4g of %s' % (where, s, kk, show(p)))
                    tot = [a + x for a, x in zip(tot, (p['px'], p['py'], k))]
                    if len(part) > 1 and kk == 0 and sum(n[s].get(i, 0) for i in (2212, 2112)) > 1:
                        raise Violation('fermi', '%s: %s: %s has no Fermi motion' % (where, s, show(p)))
            if any(abs(x) > 1e-6 * (1 + g) * len(part) for x in tot):
                raise Violation('fermi', '%s: %s: the Fermi momenta add up to %r' % (where, s, tot))
            centers.append([sum(p[k] for p in part) / len(part) for k in 'xyz'])
            edges.append(self.surface(c[s], len(part) // nt, nt))
        # contact of the contracted surfaces at t = 0
        for s, y, ctr, r, sgn in (('Projectile', ys[0], centers[0], edges[0], -1), ('Target', ys[1], centers[1], edges[1], 1)):
            if r is None:
                continue
            z = ctr[2] - math.tanh(y) * t
            w = sgn * r / math.cosh(y)
            if not close(z, w, 1e-6):
                raise Violation('position', '%s: %s would be at z=%.9g at time 0 instead of %.9g' % (where, s, z, w))
        dx, dy = centers[0][0] - centers[1][0], centers[0][1] - centers[1][1]
        if abs(centers[0][0] + centers[1][0]) + abs(centers[0][1] + centers[1][1]) > 1e-6:
            raise Violation('impact', '%s: the nuclei are not placed symmetrically: %r %r' % (where, centers[0], centers[1]))
        b = math.hypot(dx, dy)
        imp = c.get('Impact', {})
        if not imp.get('Random_Reaction_Plane') and (abs(dy) > 1e-6 or dx < -1e-6):
            raise Violation('impact', '%s: the reaction plane is rotated: %.9g %.9g' % (where, dx, dy))
        k = ('b', e.number)
        if k in mem and not close(mem[k], b):
            raise Violation('impact', '%s: impact parameter %.9g, but %.9g in another ensemble' % (where, b, mem[k]))
        mem[k] = b
        rep = e.end[min(e.end)].impact
        if rep is not None and not close(rep, b, 1e-6):
            raise Violation('impact', '%s: impact parameter %.9g, %.9g reported' % (where, b, rep))
        if 'Value' in imp:
            lo = hi = imp['Value']
        elif 'Max' in imp:
            lo, hi = 0, imp['Max']
        elif 'Range' in imp:
            lo, hi = imp['Range']
        elif 'Values' in imp:
            lo, hi = min(imp['Values']), max(imp['Values'])
        else:
            lo = hi = 0
        if not lo - 1e-6 <= b <= hi + 1e-6:
            raise Violation('impact', '%s: impact parameter %.9g is not in [%g, %g]' % (where, b, lo, hi))

    def check_custom(self, case, evs):
        """each nucleus is the next one of its file, turned and shifted"""
        c = case['config']['Modi']['Collider']
        n = {s: {int(k): v for k, v in c[s]['Particles'].items()} for s in ('Projectile', 'Target')}
        ys = self.beams(c, n)
        na = sum(n['Projectile'].values())
        def read(f):
            return [tuple(map(float, l.split())) for l in case['files'][f].split('\n') if l.strip()]
        pos = {}
        def nxt(s):
            f = c[s]['Custom']['File_Name']
            L = read(f)
            A = sum(n[s].values())
            k = pos.get(f, 0)
            pos[f] = k + A
            return [L[(k + j) % len(L)] for j in range(A)]
        for e in evs:
            for k in sorted(e.initial):
                byid = sorted(e.initial[k], key=lambda p: p['ID'])
                for s, y, part in (('Projectile', ys[0], byid[:na]), ('Target', ys[1], byid[na:])):
                    want = nxt(s)
                    where = 'event %d ensemble %d %s' % (e.number, k, s)
                    for p, w in zip(part, want):
                        if p['charge'] != int(w[4]):
                            raise Violation('custom', '%s: %s instead of a nucleon of charge %d' % (where, show(p), int(w[4])))
                    g = math.cosh(y)
                    x = [(p['x'], p['y'], p['z'] * g) for p in part]
                    for i, j in itertools.combinations(range(len(part)), 2):
                        d, q = math.dist(x[i], x[j]), math.dist(want[i][:3], want[j][:3])
                        if not close(d, q, 1e-5 * g):
                            raise Violation('custom', '%s: nucleons %d and %d are %.6g apart, in the file %.6g' % (where, i, j, d, q))

    def check_first(self, case, r, evs, st):
        cfg = case['config']
        c = cfg['Modi']['Collider']
        _, _, _, cb = outputs.read_binary(r.path('collisions_custom.bin'), gen.QUANT)
        cev = oracles.split_events(cb, cfg['General'].get('Ensembles', 1))
        na = sum(c['Projectile']['Particles'].values())
        n = 0
        for e in cev:
            for j, b in enumerate(e.inter):
                n += 1
                if len(b.parts) != 2:
                    continue
                a, d = b.parts
                if a['ncoll'] == 0 and d['ncoll'] == 0 and (a['ID'] < na) == (d['ID'] < na):
                    st['collisions within a nucleus'] = st.get('collisions within a nucleus', 0) + 1
                    if not c.get('Collisions_Within_Nucleus'):
                        raise Violation('within', 'event %d interaction %d: %s and %s of the same nucleus collide' % (e.number, j, show(a), show(d)))
        st['collisions'] = st.get('collisions', 0) + n

    def shrink(self, case):
        def variant():
            return copy.deepcopy(case)
        g = case['config']['General']
        if case['env']:
            v = variant(); v['env'] = {}
            yield v
        if g['Nevents'] > 1:
            v = variant(); v['config']['General']['Nevents'] -= 1
            yield v
        for k in ('Ensembles', 'Testparticles'):
            if k in g:
                v = variant(); del v['config']['General'][k]
                yield v
        m = case['config']['Modi'][g['Modus']]
        for k in ('Jet', 'Impact', 'Add_Radial_Velocity', 'Add_Radial_Velocity_Exponent', 'Account_Resonance_Widths'):
            if k in m and not (k == 'Add_Radial_Velocity' and 'Add_Radial_Velocity_Exponent' in m):
                v = variant(); del v['config']['Modi'][g['Modus']][k]
                yield v
        for k in list(m.get('Init_Multiplicities', {})):
            if len(m['Init_Multiplicities']) > 1:
                v = variant(); del v['config']['Modi'][g['Modus']]['Init_Multiplicities'][k]
                yield v
