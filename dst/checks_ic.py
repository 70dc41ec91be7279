"""C16 initial conditions on a hypersurface of constant proper time."""
import copy, math, re
import core, gen, oracles, outputs, physics
from core import Violation
from oracles import FLUID, show, vel
from runbase import RunCheck

M_NUCLEON = 0.938

def pt(p):
    return math.hypot(p['px'], p['py'])
def rap(p):
    return math.atanh(p['pz'] / p['p0'])

def crossing(t, z, v, tau):
    """time at which z + v (t' - t) reaches proper time tau in the forward light cone"""
    n = z - v * t
    g = 1 - v * v
    return (n * v + math.sqrt(g * tau * tau + n * n)) / g

class C16(RunCheck):
    id = 'C16'
    quick_n, thorough_n = 3000, 60000
    profile = {'modi': ['Collider'], 'end': 10.0, 'one_ensemble': True}
    rule = 'distinct sequences of (process type, incoming species) of runs in which particles crossed the hypersurface'
    technique = ('deterministic simulation: seeded search over simulated runs of colliding nuclei; every trajectory of the recorded '
                 'history is intersected with the hypersurface by an independent oracle')
    def adjust(self, case, rng, i):
        cfg = case['config']
        g, c, out = cfg['General'], cfg['Modi']['Collider'], cfg['Output']
        g.pop('Ensembles', None)
        ic = {'Type': 'Constant_Tau'}
        if rng.random() < .7:
            ic['Proper_Time'] = rng.choice([0.5, 1.0, 2.0, gen.r3(rng, 0.1, 6), gen.r3(rng, 0.01, 0.5)])
        else:
            if rng.random() < .6:
                ic['Lower_Bound'] = gen.r3(rng, 0.05, 3)
            if rng.random() < .4:
                ic['Proper_Time_Scaling'] = gen.r3(rng, 0.3, 2)
        if rng.random() < .35 and c['Calculation_Frame'] != 'fixed target':
            ic['Rapidity_Cut'] = gen.r3(rng, 0.1, 1.5)
        if rng.random() < .35:
            ic['pT_Cut'] = gen.r3(rng, 0.05, 1.0)
        c['Initial_Conditions'] = ic
        if any(k in c[s]['Particles'] for s in ('Projectile', 'Target') for k in ('211', '321')):
            ic.setdefault('Proper_Time', gen.r3(rng, 0.1, 6))      # no passing time below the energy of two nucleons
            for k in ('Lower_Bound', 'Proper_Time_Scaling'):
                ic.pop(k, None)
        if rng.random() < .6:
            e = rng.choice(gen.NUCLEI[3:5] + gen.NUCLEI[8:9])[0]
            for s in ('Projectile', 'Target'):
                c[s] = {'Particles': {str(k): v for k, v in e.items()}}
        if rng.random() < .1:
            c['Projectile']['Radius'] = gen.r3(rng, 1, 3, 1)
            c['Projectile']['Diffusiveness'] = 0.5
            c['Projectile']['Saturation_Density'] = 0.168
        if rng.random() < .3:
            g['Delta_Time'] = rng.choice([0.5, 1.0, 2.5])
        out['Initial_Conditions'] = {'Format': ['Binary'] + rng.sample(['For_vHLLE', 'Oscar2013', 'Oscar1999'][:rng.choice([2, 3])][:2]
                                     if rng.random() < .8 else ['For_vHLLE'], 1),
                                     'Quantities': gen.QUANT}
        cfg['Logging']['InitialConditions'] = 'INFO'
    def tau(self, case, r):
        """configured or computed proper time of the hypersurface, and its accuracy"""
        c = case['config']['Modi']['Collider']
        ic = c['Initial_Conditions']
        if 'Proper_Time' in ic:
            return ic['Proper_Time'], 0.
        lower = ic.get('Lower_Bound', 0.5) * ic.get('Proper_Time_Scaling', 1.)
        m = re.search(r'Nuclei passing time is ([-+.e\d]+) fm', r.log())
        if 'Sqrtsnn' in c:
            R = 0
            for s in ('Projectile', 'Target'):
                A = sum(c[s]['Particles'].values())
                R += c[s].get('Radius', 1.2 * A ** (1 / 3) if A > 1 else
                              1 - math.exp(-.1 * (case['config']['General'].get('Testparticles', 1) - 1)))
            t = ic.get('Proper_Time_Scaling', 1.) * R / math.sqrt(c['Sqrtsnn'] ** 2 / (4 * M_NUCLEON ** 2) - 1)
            if (t >= lower) != bool(m) and abs(t - lower) > 1e-9:
                raise Violation('tau', 'the nuclei pass in %g fm, lower bound %g fm, log says %s' % (t, lower, m and m.group(0)))
            return max(t, lower), 0.
        if m:
            t = float(m.group(1))
            if t < lower - 1e-4:
                raise Violation('tau', 'hypersurface at %g fm below the lower bound %g fm' % (t, lower))
            return t, 1e-4 * max(1, t)
        return lower, 0.
    def oracle(self, case, r, ctx, evs, pevs, st):
        cfg = case['config']
        ic = cfg['Modi']['Collider']['Initial_Conditions']
        tau, acc = self.tau(case, r)
        ycut, ptcut = ic.get('Rapidity_Cut', 0.), ic.get('pT_Cut', 0.)
        _, segs = oracles.replay(evs, ctx)
        oracles.intermediate(evs, pevs, ctx)
        oracles.beam_consistency(ctx, evs)
        def cut(p, eps):
            """+1 certainly inside the cuts, -1 certainly outside"""
            res = 1
            for c, v in ((ycut, abs(rap(p)) if ycut else 0), (ptcut, pt(p) if ptcut else 0)):
                if c > 0:
                    if v > c + eps:
                        return -1
                    if v > c - eps:
                        res = 0
            return res
        st['runs with cuts'] = int(ycut > 0 or ptcut > 0)
        emitted, seen = [], None
        for e in evs:
            for j, b in enumerate(e.inter):
                if b.type != FLUID:
                    continue
                w = 'event %d interaction %d' % (e.number, j)
                if len(b.parts) != 1 or b.outp:
                    raise Violation('crossing', '%s: emission of %d particles leaves %d' % (w, len(b.parts), len(b.outp)))
                p = b.parts[0]
                if not p['t'] > abs(p['z']):
                    raise Violation('surface', '%s: %s is emitted outside of the forward light cone' % (w, show(p)))
                x = math.sqrt((p['t'] - p['z']) * (p['t'] + p['z']))
                if seen is None and acc:
                    if abs(x - tau) > acc:
                        raise Violation('surface', '%s: %s is emitted at proper time %.9g instead of %.9g' % (w, show(p), x, tau))
                    tau, acc = x, 0.
                seen = x
                if abs(x - tau) > 1e-6 * (1 + p['t'] / tau):
                    raise Violation('surface', '%s: %s is emitted at proper time %.9g instead of %.9g' % (w, show(p), x, tau))
                if cut(p, 1e-9) < 0:
                    raise Violation('cut', '%s: %s is emitted although outside of the cuts' % (w, show(p)))
                emitted.append((e.number, p))
                st['crossings'] = st.get('crossings', 0) + 1
                if p['ncoll'] == 0:
                    st['crossings of untouched nucleons'] = st.get('crossings of untouched nucleons', 0) + 1
        # every trajectory against the surface
        end = cfg['General']['End_Time']
        if not acc:
            for e in evs:
                inter = e.inter
                for i, ss in segs[(e.number, 0)].items():
                    for s in ss:
                        p = s[0]
                        te, by = (end, None) if s[1] is None else (s[1], inter[s[2]])
                        v = vel(p)[2]
                        if ctx.get('frozen') and p['ncoll'] == 0:
                            v = ctx['vbeam'].get((e.number, p['ID']))
                            if v is None:
                                continue
                        ts, z = p['t'], p['z']
                        if ts > abs(z) and ts * ts - z * z >= tau * tau - 1e-9:
                            st['born beyond the surface'] = st.get('born beyond the surface', 0) + (by is None)
                            if by is not None and by.type == FLUID and ts * ts - z * z > tau * tau + 1e-6:
                                raise Violation('crossing', 'event %d: %s started beyond the surface and is emitted' % (e.number, show(p)))
                            continue
                        tc = crossing(ts, z, v, tau)
                        m = 1e-6 * (1 + abs(tc)) / (1 - abs(v))**.5
                        if by is not None and by.type == FLUID:
                            if abs(te - tc) > m:
                                raise Violation('crossing', 'event %d: %s crosses at t=%.9g, but is emitted at %.9g' % (
                                    e.number, show(p), tc, te))
                        elif tc < te - m and tc > ts + m and cut(p, 1e-9) > 0:
                            raise Violation('missed', 'event %d: %s crosses the surface of proper time %.6g at t=%.9g unnoticed (%s)' % (
                                e.number, show(p), tau, tc, 'it is left at the end' if by is None else
                                'interaction of type %d at %.9g' % (by.type, te)))
                        st['trajectories'] = st.get('trajectories', 0) + 1
        self.files(case, r, evs, emitted)
    def files(self, case, r, evs, emitted):
        out = case['config']['Output']['Initial_Conditions']
        import os
        blocks = outputs.read_binary(os.path.join(r.outdir, 'SMASH_IC_custom.bin'), gen.QUANT, ic=True)[3]
        k, ev = 0, 0
        for b in blocks:
            if b.kind == 'f':
                if b.event != evs[ev].number:
                    raise Violation('file', 'SMASH_IC_custom.bin: end of event %s in event %d' % (b.event, ev))
                if k < len(emitted) and emitted[k][0] == b.event:
                    raise Violation('file', 'SMASH_IC_custom.bin: event %d ends before %s' % (b.event, show(emitted[k][1])))
                ev += 1
                continue
            for p in b.parts:
                if k >= len(emitted) or emitted[k][0] != evs[ev].number or emitted[k][1] != p:
                    raise Violation('file', 'SMASH_IC_custom.bin: %s, the collision history has %s' % (
                        show(p), show(emitted[k][1]) if k < len(emitted) else 'nothing'))
                k += 1
        if k != len(emitted) or ev != len(evs):
            raise Violation('file', 'SMASH_IC_custom.bin: %d particles of %d in %d events of %d' % (k, len(emitted), ev, len(evs)))
        if 'For_vHLLE' in out['Format']:
            want = {}
            for n, p in emitted:
                if p['ncoll'] > 0:
                    want.setdefault(n, []).append(p)
            cur, got = None, {}
            for l in open(os.path.join(r.outdir, 'SMASH_IC_For_vHLLE.dat')):
                f = l.split()
                if f[0] == '#':
                    if len(f) > 5 and f[1] == 'event':
                        if f[5] == 'start':
                            cur = int(f[2])
                            if cur in got:
                                raise Violation('file', 'SMASH_IC_For_vHLLE.dat: event %d twice' % cur)
                            got[cur] = []
                        else:
                            cur = None
                    continue
                if cur is None or len(f) != 12:
                    raise Violation('file', 'SMASH_IC_For_vHLLE.dat: line %r' % l)
                got[cur].append(f)
            if sorted(got) != [e.number for e in evs]:
                raise Violation('file', 'SMASH_IC_For_vHLLE.dat: events %s' % sorted(got))
            for n in got:
                ps = want.get(n, [])
                if len(ps) != len(got[n]):
                    raise Violation('file', 'SMASH_IC_For_vHLLE.dat: event %d has %d particles, %d crossed after interactions' % (
                        n, len(got[n]), len(ps)))
                for f, p in zip(got[n], ps):
                    x = math.sqrt((p['t'] - p['z']) * (p['t'] + p['z']))
                    vals = [x, p['x'], p['y'], math.atanh(p['z'] / p['t']), math.sqrt(max(0, p['p0']**2 - p['pz']**2)), p['px'],
                            p['py'], rap(p)]
                    ints = [p['pdg'], p['charge'], p['baryon_number'], p['strangeness']]
                    for a, v in zip(f, vals):
                        if abs(float(a) - v) > 2e-5 * max(1, abs(v)):
                            raise Violation('file', 'SMASH_IC_For_vHLLE.dat: %s for %s, %r expected' % (' '.join(f), show(p), v))
                    if [int(a) for a in f[8:]] != ints:
                        raise Violation('file', 'SMASH_IC_For_vHLLE.dat: %s for %s' % (' '.join(f), show(p)))
        for name in ('SMASH_IC.oscar', 'SMASH_IC.oscar1999'):
            q = os.path.join(r.outdir, name)
            if os.path.exists(q):
                n = sum(1 for l in open(q) if l.strip() and not l.startswith('#') and len(l.split()) == 12)
                if name == 'SMASH_IC.oscar' and n != len(emitted):
                    raise Violation('file', '%s has %d particles, %d crossed' % (name, n, len(emitted)))
