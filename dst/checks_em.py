"""C19 dileptons and photons: every life and every radiating scattering is accounted for exactly once."""
import math
from collections import defaultdict
import core, gen, oracles, outputs
from core import Violation
from oracles import DECAY, ELASTIC, WALL, show
from runbase import RunCheck

HBARC = 0.197327053
# unstable species with dilepton decays: pole width, smallest mass at which a hadronic decay is surely open, two-body branching ratio
RES = {113: (.149, .29, 4.72e-5), 223: (8.49e-3, .15, 7.36e-5), 333: (4.25e-3, .15, 2.97e-4), 331: (1.96e-4, .02, None)}
SUM = {113: 1 + 4.72e-5, 223: .892 + .084 + .0153 + 7.36e-5 + 7.7e-4, 333: .492 + .34 + .152 + .013 + .00127 + 2.97e-4 + 1.08e-4 + 1.33e-5}
for k in SUM:       # the branching ratios of the file are normalised
    RES[k] = RES[k][:2] + (RES[k][2] / SUM[k],)
for k in (1114, 2114, 2214, 2224):
    RES[k] = RES[-k] = (.117, 1.08, None)
MODES = {113: [(-11, 11)], 223: [(-11, 11), (-11, 11, 111)], 333: [(-11, 11), (-11, 11, 221), (-11, 11, 111)], 331: [(-11, 11, 22)],
         2114: [(-11, 11, 2112)], 2214: [(-11, 11, 2212)], -2114: [(-2112, -11, 11)], -2214: [(-2212, -11, 11)],
         1114: [], 2224: [], -1114: [], -2224: []}
STABLE = {111: [(-11, 11, 22)], 221: [(-11, 11, 22)]}
POLE = {113: .776, 223: .783, 333: 1.019}
PHOTON = {}
for a, b, h in ((211, 111, 213), (-211, 111, -213), (211, 113, 211), (-211, 113, -211), (-211, 213, 111), (211, -213, 111),
                (111, 213, 211), (111, -213, -211), (211, -211, 113), (111, 113, 111)):
    PHOTON[frozenset((a, b))] = h
PIONS = (211, 111, -211)

def key(p):
    return (p['ID'], p['pdg'], p['px'], p['py'], p['pz'])

class C19(RunCheck):
    id = 'C19'
    universes = ('em',)
    quick_n, thorough_n = 1000, 40000
    profile = {'universe': 'std', 'modi': ['Box', 'Box', 'Sphere', 'Collider', 'List', 'ListBox'], 'n': 20, 'end': 5.0, 'no_frozen': True}
    technique = ('deterministic simulation: seeded runs of the whole program with dilepton and photon production; the emission records are '
                 'accounted for against the recorded life of every particle and against every scattering')
    assumptions = ('PYTHIA is replaced by a stub, so strings are switched off', 'one generated universe of 20 species with the dilepton decays of the shipped file',
                   'partial widths are compared with the data file at the pole masses only, elsewhere for consistency along a life')
    def adjust(self, case, rng, i):
        case['universe'] = 'em'
        cfg = case['config']
        ct, out, g = cfg['Collision_Term'], cfg['Output'], cfg['General']
        m = cfg['Modi'][g['Modus']]
        if 'Init_Multiplicities' in m and rng.random() < .6:
            pool = [211, 111, -211, 113, 213, -213, 223, 333, 331, 221, 2214, 2114, 2212]
            m['Init_Multiplicities'] = {str(k): rng.randrange(1, 7) for k in rng.sample(pool, rng.randrange(2, 7))}
        ct['Dileptons'] = {'Decays': True}
        out['Dileptons'] = {'Format': ['Binary'], 'Quantities': gen.QUANT}
        if i % 3 and not ct.get('No_Collisions'):
            ct['Photons'] = {'2to2_Scatterings': rng.random() < .8, 'Bremsstrahlung': rng.random() < .5, 'Fractional_Photons': rng.randrange(1, 5)}
            if ct['Photons']['2to2_Scatterings'] or ct['Photons']['Bremsstrahlung']:
                out['Photons'] = {'Format': ['Binary'], 'Quantities': gen.QUANT}
                ct.setdefault('Two_to_One', True)
            else:
                del ct['Photons']
        gen.fit_box(cfg)

    def oracle(self, case, r, ctx, evs, pevs, st):
        _, segs = oracles.replay(evs, ctx)
        n_ens = ctx['n_ens']
        ct = case['config']['Collision_Term']
        q = gen.QUANT
        dil = self.split(outputs.read_binary(r.path('Dileptons_custom.bin'), q)[3], evs, n_ens, 'dileptons')
        self.rates = {}
        for e, recs in zip(evs, dil):
            self.dileptons(case, e, recs, {k: segs[(e.number, k)] for k in range(n_ens)}, st)
        if 'Photons' in case['config']['Output']:
            pho = self.split(outputs.read_binary(r.path('Photons_custom.bin'), q)[3], evs, n_ens, 'photons')
            for e, recs in zip(evs, pho):
                self.photons(ct['Photons'], e, recs, st)

    def split(self, blocks, evs, n_ens, what):
        res, cur, ends = [], [], 0
        for b in blocks:
            if b.kind == 'i':
                cur.append(b)
            elif b.kind == 'f':
                ends += 1
                if ends == n_ens:
                    res.append(cur)
                    cur, ends = [], 0
            else:
                raise Violation('structure', '%s: particle list' % what)
        if cur or ends or len(res) != len(evs):
            raise Violation('structure', '%s of %d events, %d events run' % (what, len(res), len(evs)))
        return res

    def record(self, b, w):
        """one emission: conservation, place and time"""
        for k in ('p0', 'px', 'py', 'pz', 'charge', 'baryon_number'):
            a, c = sum(p[k] for p in b.parts), sum(p[k] for p in b.outp)
            if abs(a - c) > 1e-5 * (1 + sum(abs(p['p0']) for p in b.parts)):
                raise Violation('conservation', '%s: %s %.9g -> %.9g' % (w, k, a, c))
        for p in b.outp:
            m2 = p['p0'] ** 2 - p['px'] ** 2 - p['py'] ** 2 - p['pz'] ** 2
            if p['pdg'] in (11, -11, 22) and abs(m2) > 1e-5 * (1 + p['p0'] ** 2):
                raise Violation('mass shell', '%s: %s' % (w, show(p)))
        if not (math.isfinite(b.weight) and math.isfinite(b.partial)):
            raise Violation('weight', '%s: weight %r, partial %r' % (w, b.weight, b.partial))

    def dileptons(self, case, e, recs, segs, st):
        forced = case['config']['Collision_Term'].get('Force_Decays_At_End', True)
        weak = case['config']['Collision_Term'].get('Ignore_Minimum_Decay_Width_For_Decays_At_The_End')
        end = case['config']['General']['End_Time']
        # lives: one per (ensemble, particle, momentum); walls are passed without a change of momentum
        lives, at = {}, defaultdict(list)
        for k in segs:
            for L in segs[k].values():
                for s in L:
                    p, t1 = s[0], s[1]
                    if p['pdg'] not in RES and p['pdg'] not in STABLE:
                        continue
                    l = lives.setdefault((k, key(p)), [p, p['t'], None])
                    l[1] = min(l[1], p['t'])
                    l[2] = max(l[2], end if t1 is None else t1) if l[2] is not None else end if t1 is None else t1
        for k, q in lives:
            at[q].append(k)
        # which resonances are there at the end of the evolution
        seen = defaultdict(lambda: defaultdict(list))
        for j, b in enumerate(recs):
            w = 'event %d dilepton record %d' % (e.number, j)
            if len(b.parts) != 1:
                raise Violation('structure', '%s: %d incoming' % (w, len(b.parts)))
            p = b.parts[0]
            self.record(b, w)
            if b.type != DECAY:
                raise Violation('structure', '%s: process type %d' % (w, b.type))
            mode = tuple(sorted(x['pdg'] for x in b.outp))
            known = MODES.get(p['pdg'], STABLE.get(p['pdg']))
            if known is None or mode not in known:
                raise Violation('mode', '%s: %s -> %r' % (w, show(p), mode))
            if key(p) not in at:
                raise Violation('emitter', '%s: %s does not exist' % (w, show(p)))
            if b.weight < 0:
                raise Violation('weight', '%s: negative weight %.9g' % (w, b.weight))
            seen[key(p)][mode].append((p['t'], b.weight, j))
            st['dilepton records'] = st.get('dilepton records', 0) + 1
        # the times up to which the particles of an ensemble were moved, as far as records tell
        stops = defaultdict(set)
        for q, modes in seen.items():
            if len(at[q]) > 1:
                continue
            for rs in modes.values():
                stops[at[q][0]].update(t for t, _, _ in rs)
        for (k, q), (p, t0, t1) in lives.items():
            if len(at[q]) > 1 or p['form_time'] > p['t']:
                continue
            w = 'event %d ensemble %d: %s (until %.9g)' % (e.number, k, show(p), t1)
            mass = math.sqrt(max(0, p['p0'] ** 2 - p['px'] ** 2 - p['py'] ** 2 - p['pz'] ** 2))
            modes = MODES.get(p['pdg'], STABLE.get(p['pdg']))
            res = p['pdg'] in RES
            st['emitters'] = st.get('emitters', 0) + 1
            if not modes or (res and abs(mass - RES[p['pdg']][1]) < .02):
                continue
            light = res and mass < RES[p['pdg']][1]     # no hadronic decay is open
            # alive when the evolution ended; or born in the final decays
            last = t1 >= end - 1e-9 and p['t'] <= end + 1e-9
            final = last
            gamma = p['p0'] / mass
            for mode in modes:
                if mass < sum({11: .000511, -11: .000511, 22: 0, 111: .138, 221: .548}.get(x, .938) for x in mode) + 1e-4:
                    continue
                rs = seen.get(q, {}).get(mode, [])
                if res and t1 - t0 > 1e-9:       # steps of no length, by rounding
                    rs = [x for x in rs if x[0] - t0 > 1e-9]
                if res:
                    want = sorted(t for t in stops[k] if t0 + 1e-9 < t <= t1 + 1e-9 and not light)
                    n = len(want) + (1 if final else 0)
                else:
                    want, n = [], 1 if final else 0
                have = [t for t, _, _ in rs]
                if len(have) != n:
                    if __import__('os').environ.get('DBG'): print(have, want)
                    raise Violation('count', '%s: %d records of %r instead of %d (%d intervals%s)' % (
                        w, len(have), mode, n, len(want), ', end' if final else ''))
                if n == 0:
                    continue
                for a, b in zip(have, want):
                    if abs(a - b) > 1e-9:
                        raise Violation('time', '%s: record of %r at %.12g instead of %.12g' % (w, mode, a, b))
                st['lives accounted for'] = st.get('lives accounted for', 0) + 1
                if len(mode) != 2:
                    continue
                t = t0
                for (a, x, j), b in zip(rs, want):
                    width = x * gamma * HBARC / (a - t)
                    if abs(a - t) > 1e-5:
                        rk = (p['pdg'], round(mass, 9), mode)
                        if abs(mass - POLE[p['pdg']]) < 1e-9:
                            should = RES[p['pdg']][0] * RES[p['pdg']][2]
                        else:
                            should = self.rates.setdefault(rk, width)
                        if abs(width - should) > 1e-5 * should:
                            raise Violation('rate', '%s: the weight %.9g of the record %d from %.9g to %.9g means a width of %.9g instead of %.9g'
                                            % (w, x, j, t, a, width, should))
                    t = a
                if final and abs(mass - POLE[p['pdg']]) < 1e-9:
                    should = RES[p['pdg']][2]
                    if abs(rs[-1][1] - should) > 2e-3 * should:
                        raise Violation('rate', '%s: the weight at the end is %.9g instead of %.9g' % (w, rs[-1][1], should))

    @staticmethod
    def ends(e, k, q):
        """in the final list?"""
        return any(key(p) == q for p in e.final[k])

    def photons(self, conf, e, recs, st):
        n = conf['Fractional_Photons']
        i = 0
        def take(b, j, what, count, out):
            nonlocal i
            for c in range(count):
                w = 'event %d interaction %d (%s, photon %d of %d)' % (e.number, j, ' '.join(show(p) for p in b.parts), c + 1, count)
                if i >= len(recs):
                    raise Violation('count', '%s: no record of %s' % (w, what))
                x = recs[i]
                if sorted(key(p) + (p['t'],) for p in x.parts) != sorted(key(p) + (p['t'],) for p in b.parts):
                    raise Violation('count', '%s: the next record is one of %s' % (w, ' '.join(show(p) for p in x.parts)))
                self.record(x, w)
                got = sorted(p['pdg'] for p in x.outp)
                if out and got != sorted(out):
                    raise Violation('mode', '%s: outgoing %r' % (w, got))
                if got.count(22) != 1:
                    raise Violation('mode', '%s: outgoing %r' % (w, got))
                if x.weight < 0:
                    raise Violation('weight', '%s: negative weight %.9g' % (w, x.weight))
                i += 1
                st['photon records'] = st.get('photon records', 0) + 1
        for j, b in enumerate(e.inter):
            if len(b.parts) != 2:
                continue
            pair = frozenset(p['pdg'] for p in b.parts)
            E = sum(p['p0'] for p in b.parts)
            s = math.sqrt(max(0, E * E - sum(sum(p[k] for p in b.parts) ** 2 for k in ('px', 'py', 'pz'))))
            if conf['2to2_Scatterings'] and pair in PHOTON:
                h = PHOTON[pair]
                # whether a rho can be made is decided at its smallest mass
                here = s > .2761 if abs(h) in (213, 113) else True
                st['radiating scatterings'] = st.get('radiating scatterings', 0) + 1
                if here:
                    take(b, j, 'photon', n, [h, 22])
            if conf['Bremsstrahlung'] and all(p['pdg'] in PIONS for p in b.parts):
                take(b, j, 'bremsstrahlung', n, None)
        if i != len(recs):
            raise Violation('count', 'event %d: photon record %d of %s belongs to no scattering' % (e.number, i, ' '.join(show(p) for p in recs[i].parts)))
