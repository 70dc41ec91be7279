"""C01 conservation, C02 causal history, C11 times and counts, C14 periodic box, C15 decays."""
import copy, math, os, re
import core, gen, oracles, outputs, physics
from core import Outcome, Violation
from oracles import DECAY, WALL, near, show, vel
from runbase import RunCheck, fatal

class C01(RunCheck):
    id = 'C01'
    quick_n, thorough_n = 2000, 60000
    def oracle(self, case, r, ctx, evs, pevs, st):
        sp = core.species(case['universe'])
        st['balances checked'] = oracles.conservation(evs, sp, ctx)
        for pe in pevs:
            for rnd in pe.steps:
                for ps in rnd.values():
                    for p in ps:
                        oracles.check_particle(p, sp, 'list at t=%.9g of event %d' % (p['t'], pe.number))
            if not ctx.get('weak'):
                for k in pe.initial:
                    for rnd in pe.steps:
                        oracles.check_balance(pe.initial[k], rnd[k], 'event %d ensemble %d, initial to intermediate list'
                                              % (pe.number, k), 1e-5)

class C02(RunCheck):
    id = 'C02'
    quick_n, thorough_n = 2000, 60000
    def oracle(self, case, r, ctx, evs, pevs, st):
        s, _ = oracles.replay(evs, ctx)
        st['interactions replayed'] = s['interactions']
        st['lists replayed'] = oracles.intermediate(evs, pevs, ctx)
        oracles.beam_consistency(ctx, evs)

# ------------------------------------------------------------------------------------------ C11
def resol(x):
    return round(x * 1e6)

def output_times(cfg, start):
    """configured times strictly between start and end"""
    end = cfg['General']['End_Time']
    out = cfg['Output']
    if 'Output_Times' in out:
        ts = sorted(out['Output_Times'])
    else:
        dt = resol(out.get('Output_Interval', end))
        k = math.floor(resol(start) / dt)
        ts = []
        while (k + 1) * dt < resol(end):
            k += 1
            ts.append(k * dt / 1e6)
    return [t for t in ts if t > start + 5e-7 and t < end - 5e-7]

class C11(RunCheck):
    id = 'C11'
    quick_n, thorough_n = 1500, 40000
    rule = 'distinct (modus, start, end, step, output times, events, ensembles) with their interaction sequences'
    def adjust(self, case, rng, i):
        cfg = case['config']
        g, out = cfg['General'], cfg['Output']
        kind = i % 4
        start = cfg['Modi'][g['Modus']].get('Start_Time', 0.0) if g['Modus'] in ('Box', 'Sphere') else 0.0
        if rng.random() < .4:
            # times on round numbers, where rounding decides on which side of a boundary they fall
            q = rng.choice([0.1, 0.2, 0.3, 0.05, 0.7, 0.01])
            if g['Modus'] in ('Box', 'Sphere') and rng.random() < .5:
                cfg['Modi'][g['Modus']]['Start_Time'] = start = round(q * rng.randrange(0, 12 if q > 0.01 else 80), 6)
            g['End_Time'] = round(start + q * rng.randrange(5, 30) * (1 if q > 0.01 else 7), 6)
            if g['Modus'] in ('List', 'ListBox'):
                g['End_Time'] = max(g['End_Time'], 4.2)
            if 'Output_Interval' in out:
                out['Output_Interval'] = round(q * (rng.randrange(1, 4) if q > 0.01 else rng.choice([1, 2, 7])), 6)
            if rng.random() < .5:
                g['Delta_Time'] = min(q, 0.4) if g['Modus'] not in ('Box', 'ListBox') else g['Delta_Time']
        if rng.random() < .15 and 'Equilibration_Time' not in cfg['Modi'][g['Modus']]:
            out.pop('Output_Interval', None)
            out['Output_Times'] = [round(rng.uniform(-1, g['End_Time'] + 2), rng.choice([1, 3, 7])) for _ in
                                   range(rng.randrange(1, 9))]
        if kind == 1 and 'Jet' not in cfg['Modi'][g['Modus']] and g['Modus'] not in ('List', 'ListBox'):
            n = rng.randrange(1, 4)
            g['Nevents'] = {'Minimum_Nonempty_Ensembles': {'Number': n, 'Maximum_Ensembles_Run': n + rng.randrange(0, 6)}}
            g['Nevents'] = None
            g.pop('Nevents')
            g['Minimum_Nonempty_Ensembles'] = {'Number': n, 'Maximum_Ensembles_Run': n + rng.randrange(0, 6)}
        gen.fit_box(cfg)
        if rng.random() < .3 and g.get('Time_Step_Mode') == 'Fixed' and kind != 1 and 'Ensembles' not in g:
            # (ensembles share one stream of random numbers and take turns at each output time)
            case['twin'] = {'Output_Interval': round(rng.uniform(0.2, 2.0), 3)}
    def oracle(self, case, r, ctx, evs, pevs, st):
        cfg = case['config']
        g = cfg['General']
        modus = g['Modus']
        log = r.log()
        n_ens = ctx['n_ens']
        if len(evs) != len(pevs):
            raise Violation('count', 'collision output has %d events, particle output %d' % (len(evs), len(pevs)))
        for j, (e, pe) in enumerate(zip(evs, pevs)):
            if e.number != j or pe.number != j:
                raise Violation('count', 'event %d is numbered %d/%d' % (j, e.number, pe.number))
        mn = g.get('Minimum_Nonempty_Ensembles')
        if mn:
            st['minimum-nonempty runs'] = 1
            nonempty = []
            for e in evs:
                # an ensemble is empty if nothing happened in it: its 'empty event' flag
                nonempty.append(sum(1 for k in range(n_ens) if not self.empty(e, k)))
            tot = 0
            maxev = math.ceil(mn['Maximum_Ensembles_Run'] / n_ens)
            for j, n in enumerate(nonempty):
                if tot >= mn['Number']:
                    raise Violation('count', 'event %d simulated although %d non-empty ensembles were already there (%d asked)'
                                    % (j, tot, mn['Number']))
                tot += n
            if len(evs) > maxev or (tot < mn['Number'] and len(evs) != maxev):
                raise Violation('count', '%d events simulated with %d non-empty ensembles of %d asked, at most %d events'
                                % (len(evs), tot, mn['Number'], maxev))
        elif len(evs) != g['Nevents']:
            raise Violation('count', '%d events simulated, %d configured' % (len(evs), g['Nevents']))
        end = g['End_Time']
        for e, pe in zip(evs, pevs):
            ctx['event'] = e.number
            for k in range(n_ens):
                ini, fin = pe.initial[k], pe.final[k]
                if not ini:
                    continue
                start = ini[0]['t']
                if modus in ('Box', 'Sphere'):
                    want = cfg['Modi'][modus].get('Start_Time', 0.0)
                    if abs(start - want) > 1e-6:
                        raise Violation('time', 'event %d starts at %.9g, configured %.9g' % (e.number, start, want))
                for p in fin:
                    if abs(p['t'] - end) > 2e-6:
                        raise Violation('time', 'event %d ends at %.9g, configured %.9g: %s' % (e.number, p['t'], end, show(p)))
                times = []
                for rnd in pe.steps:
                    if rnd[k]:
                        ts = {p['t'] for p in rnd[k]}
                        if max(ts) - min(ts) > 0:
                            raise Violation('time', 'event %d: one output at several times %s' % (e.number, sorted(ts)[:3]))
                        times.append(next(iter(ts)))
                want = output_times(cfg, start)
                eq = cfg['Modi'][modus].get('Equilibration_Time')
                if eq is not None:
                    # before equilibration nothing is written (documented)
                    amb = [t for t in want if abs(t - eq) < 1e-6]
                    want = [t for t in want if t >= eq or t in amb]
                    if amb and len(times) == len(want) - len(amb):
                        want = [t for t in want if t not in amb]
                if modus == 'Collider':
                    pass
                if len(times) != len(want) or any(abs(a - b) > 1.1e-6 for a, b in zip(times, want)):
                    if all(rnd[k] for rnd in pe.steps):
                        raise Violation('output times', 'event %d ensemble %d (%.9g to %.9g): output at %s, configured %s' % (
                            e.number, k, start, end, ' '.join('%.9g' % t for t in times), ' '.join('%.9g' % t for t in want)))
                st['output times checked'] = st.get('output times checked', 0) + len(times)
            start = min([ps[0]['t'] for ps in e.initial.values() if ps] or [0])
            seen_final = False
            for j, b in enumerate(e.inter):
                t = b.parts[0]['t']
                if t < start - 1e-9 or t > end + 1e-6:
                    raise Violation('time', 'event %d interaction %d at t=%.12g outside [%g, %g]' % (e.number, j, t, start, end))
        if case.get('twin'):
            self.twin(case, evs, pevs, st)
    def empty(self, e, k):
        # what the event end says; checked here against the history for single ensembles
        return e.end[k].empty
    def twin(self, case, evs, pevs, st):
        """the same run with other output times: the same physics, up to rounding"""
        c = copy.deepcopy(case)
        c['config']['Output'].pop('Output_Times', None)
        c['config']['Output']['Output_Interval'] = case['twin']['Output_Interval']
        r2 = core.smash(c)
        try:
            physics.orderly(r2)
            st['runs'] = 2
            if r2.rc:
                raise Violation('failed', 'with another output interval the run fails: %s' % fatal(r2))
            evs2, _ = physics.load(c, r2, physics.context(c))
        finally:
            r2.clean()
        if len(evs2) != len(evs):
            raise Violation('count', 'another output interval gives %d events instead of %d' % (len(evs2), len(evs)))
        eq = 'Equilibration_Time' in case['config']['Modi'][case['config']['General']['Modus']]
        for a, b in zip(evs, evs2):
            n = 0
            hits = {}
            for j, (x, y) in enumerate(zip(a.inter, b.inter)):
                # rounding differs between the two runs and grows with every scattering of a particle: compare the
                # beginning of the history only
                deep = max([p['ncoll'] for p in x.parts] + [0])
                if deep > 5 or j > 40:
                    break
                if len(x.parts) == 2 and [p['ID'] for p in x.parts] == [p['ID'] for p in y.parts][::-1]:
                    # the same pair found twice (in the grid through the wall, and after the crossing): rounding decides
                    # which of the two comes first, and the outgoing particles are exchanged
                    break
                if x.type != y.type or [p['pdg'] for p in x.parts + x.outp] != [p['pdg'] for p in y.parts + y.outp] or \
                        abs(x.parts[0]['t'] - y.parts[0]['t']) > 1e-6:
                    raise Violation('output dependence', 'event %d interaction %d depends on the output interval: type %d at '
                                    't=%.9g (%s) against type %d at t=%.9g (%s)' % (
                                        a.number, j, x.type, x.parts[0]['t'], show(x.parts[0]),
                                        y.type, y.parts[0]['t'], show(y.parts[0])))
                n += 1
            if n == len(a.inter) and len(b.inter) > n or n == len(b.inter) and len(a.inter) > n:
                raise Violation('output dependence', 'event %d: %d interactions, with another output interval %d'
                                % (a.number, len(a.inter), len(b.inter)))
            st['interactions compared with other output times'] = st.get('interactions compared with other output times', 0) + n

# ------------------------------------------------------------------------------------------ C14
class C14(RunCheck):
    id = 'C14'
    quick_n, thorough_n = 1300, 40000
    profile = {'modi': ['Box', 'Box', 'Box', 'ListBox'], 'end': 14.0}
    rule = 'distinct sequences of (process type, incoming species) in boxes'
    def adjust(self, case, rng, i):
        cfg = case['config']
        if cfg['General']['Modus'] == 'Box' and rng.random() < .5:
            m = cfg['Modi']['Box']
            m['Length'] = round(rng.uniform(2.0, 5.0), rng.choice([0, 1, 3]))
            m['Temperature'] = round(rng.uniform(.1, .4), 3)
            dt = round(m['Length'] / 10.5, 3)
            cfg['General']['Delta_Time'] = min(cfg['General']['Delta_Time'], dt)
            if cfg['Collision_Term']['Collision_Criterion'] == 'Stochastic':
                cfg['Collision_Term']['Fixed_Min_Cell_Length'] = round(m['Length'] / 2.5, 2)
            gen.few_particles(cfg)
            gen.fit_box(cfg)
    def oracle(self, case, r, ctx, evs, pevs, st):
        L = ctx['L']
        tol = 1e-9 * max(1, L)
        oracles.replay(evs, ctx)
        def inside(p, where):
            for c in 'xyz':
                if not (-tol <= p[c] <= L + tol):
                    raise Violation('outside', '%s: %s is outside the box of %g fm' % (where, show(p), L))
        for e, pe in zip(evs, pevs):
            for k in pe.initial:
                for rnd in [pe.initial] + pe.steps + [pe.final, e.final]:
                    for p in rnd[k]:
                        inside(p, 'event %d ensemble %d list' % (e.number, k))
            last = {k: {p['ID']: p for p in e.initial[k]} for k in e.initial}
            for j, b in enumerate(e.inter):
                w = 'event %d interaction %d' % (e.number, j)
                m = last[b.ens]
                for p in b.parts:
                    q = m.pop(p['ID'])
                    v = vel(q)
                    dt = p['t'] - q['t']
                    # since it was last seen the particle must not have met a wall without the crossing being reported
                    for c, vc in zip('xyz', v):
                        x = q[c] + vc * dt
                        if not -1e-7 <= x <= L + 1e-7:
                            raise Violation('missed wall', '%s type %d: %s left the box at %s=%.9g unreported (left as %s)'
                                            % (w, b.type, show(p), c, x, show(q)))
                for p in b.outp:
                    m[p['ID']] = p
                if b.type == WALL:
                    self.wall(b, w, L)
                    st['walls'] = st.get('walls', 0) + 1
                elif b.type == DECAY or b.type == 1:
                    for p in b.outp:
                        if b.type == DECAY:
                            inside(p, w)
            for k, m in last.items():
                for p in e.final[k]:
                    q = m[p['ID']]
                    for c, vc in zip('xyz', vel(q)):
                        x = q[c] + vc * (p['t'] - q['t'])
                        if not -1e-7 <= x <= L + 1e-7:
                            raise Violation('missed wall', 'event %d: %s left the box at %s=%.9g unreported (left as %s)'
                                            % (e.number, show(p), c, x, show(q)))
    def wall(self, b, w, L):
        if len(b.parts) != 1 or len(b.outp) != 1:
            raise Violation('wall', '%s: wall crossing with %d -> %d particles' % (w, len(b.parts), len(b.outp)))
        p, q = b.parts[0], b.outp[0]
        for f in ('pdg', 'ID', 'mass', 'p0', 'px', 'py', 'pz', 'ncoll', 'form_time', 'xsecfac', 'proc_id_origin',
                  'proc_type_origin', 'time_last_coll', 'pdg_mother1', 'pdg_mother2', 'perturbative_weight', 't'):
            if p[f] != q[f]:
                raise Violation('wall', '%s: crossing a wall changes %s of %s to %s' % (w, f, show(p), q[f]))
        moved = 0
        for c, pc in zip('xyz', ('px', 'py', 'pz')):
            d = q[c] - p[c]
            if abs(d) < 1e-9:
                continue
            moved += 1
            if abs(abs(d) - L) > 1e-8:
                raise Violation('wall', '%s: %s moved by %.12g along %s, box length %g' % (w, show(p), d, c, L))
            if d * p[pc] > 0:
                raise Violation('wall', '%s: %s moved against its direction of leaving' % (w, show(p)))
            edge = 0 if d > 0 else L
            if abs(p[c] - edge) > 1e-7:
                raise Violation('wall', '%s: crossing of %s at %s=%.12g, not at the wall' % (w, show(p), c, p[c]))
        if moved < 1 or moved > 3:
            raise Violation('wall', '%s: a wall crossing that does not move %s' % (w, show(p)))
        if moved > 1:
            raise Violation('wall', '%s: one crossing moves %s along %d axes' % (w, show(p), moved))

# ------------------------------------------------------------------------------------------ C15
SUP = {'⁺': 1, '⁻': -1, '⁰': 0}
def conj(pdg):
    if pdg in (111, 113, 221, 331, 333, 223, 9000221, 22, 10223):
        return pdg
    return -pdg

class Channels:
    """Decay channels of a universe, read from its decaymodes file."""
    def __init__(self, universe):
        pf, df = core.universe_files(universe)
        self.byname = {}
        for l in open(pf, encoding='utf8'):
            f = l.split('#')[0].split()
            if f:
                codes = [int(c) for c in f[4:]]
                full = set(codes) | {conj(c) for c in codes}
                n = f[0].rstrip('⁺⁻⁰')
                self.byname[n] = full
        self.modes = {}
        cur = None
        for l in open(df, encoding='utf8'):
            f = l.split('#')[0].split()
            if not f:
                continue
            if len(f) == 1:
                cur = f[0]
                self.modes[cur] = []
            else:
                if float(f[0]) > 0:
                    self.modes[cur].append((float(f[0]), f[2:]))
        self.parent = {}
        for n in self.modes:
            for c in self.allowed(n):
                self.parent[c] = n
    def allowed(self, name):
        """pdg codes a name in a decay mode stands for, either sign of the particle"""
        base = name.rstrip('⁺⁻⁰')
        q = None
        s = name[len(base):]
        if s:
            q = sum(SUP[x] for x in s)
        base = base.replace('̅', '')
        codes = self.byname.get(base, set())
        if not codes:
            codes = self.byname.get(name, set())
        if q is None:
            return set(codes)
        # the individual, and its antiparticle
        return {c for c in codes if outputs.charge_of(c) == q or outputs.charge_of(conj(c)) == q}
    def fits(self, parent, products):
        n = self.parent.get(parent)
        if n is None:
            return False
        for _, names in self.modes[n]:
            if len(names) == len(products) and self.match([self.allowed(x) for x in names], list(products)):
                return True
        return False
    def match(self, sets, prods):
        if not sets:
            return True
        for i, p in enumerate(prods):
            if p in sets[0] and self.match(sets[1:], prods[:i] + prods[i + 1:]):
                return True
        return False

_ch = {}
def channels(u):
    if u not in _ch:
        _ch[u] = Channels(u)
    return _ch[u]

class C15(RunCheck):
    id = 'C15'
    quick_n, thorough_n = 1300, 40000
    profile = {'end': 4.0}
    def adjust(self, case, rng, i):
        ct = case['config']['Collision_Term']
        if rng.random() < .7:
            ct['Force_Decays_At_End'] = rng.random() < .65
        if rng.random() < .3:
            ct['Ignore_Minimum_Decay_Width_For_Decays_At_The_End'] = True
    def oracle(self, case, r, ctx, evs, pevs, st):
        u = case['universe']
        sp, ch = core.species(u), channels(u)
        ct = case['config']['Collision_Term']
        # without 2->1 reactions there are no decays either (documented)
        force = ct.get('Force_Decays_At_End', True) and ct.get('Two_to_One', True)
        weak = bool(ct.get('Ignore_Minimum_Decay_Width_For_Decays_At_The_End'))
        nocoll = False
        end = case['config']['General']['End_Time']
        WMIN = 1e-5
        for e in evs:
            fin = 0
            for j, b in enumerate(e.inter):
                t = b.parts[0]['t']
                w = 'event %d interaction %d' % (e.number, j)
                if b.type == DECAY:
                    p = b.parts[0]
                    if len(b.parts) != 1 or len(b.outp) < 2:
                        raise Violation('decay', '%s: decay of %d into %d particles' % (w, len(b.parts), len(b.outp)))
                    if not ch.fits(p['pdg'], [x['pdg'] for x in b.outp]):
                        raise Violation('channel', '%s: %s -> %s is not a configured decay channel' %
                                        (w, show(p), ' '.join(str(x['pdg']) for x in b.outp)))
                    if sp.width[p['pdg']] < WMIN and not (weak and abs(t - end) < 1e-6):
                        raise Violation('channel', '%s: stable %s decays' % (w, show(p)))
                    for x in b.outp:
                        for c in 'xyz':
                            if abs(x[c] - p[c]) > 1e-9 * (1 + abs(p[c])):
                                raise Violation('decay', '%s: product %s does not start where %s decayed' % (w, show(x), show(p)))
                        if x['t'] != p['t']:
                            raise Violation('decay', '%s: product %s does not start when %s decayed' % (w, show(x), show(p)))
                    st['decays'] = st.get('decays', 0) + 1
                if abs(t - end) < 1e-7:
                    fin += 1
            # final stage: trailing interactions at exactly the end time
            if force or weak:
                st['final decays'] = st.get('final decays', 0) + fin
            for k, ps in e.final.items():
                for p in ps:
                    n = ch.parent.get(p['pdg'])
                    wd = sp.width[p['pdg']]
                    if force and n is not None and ch.modes[n]:
                        if wd >= WMIN:
                            raise Violation('undecayed', 'event %d: %s is left at the end in spite of forced decays' % (e.number, show(p)))
                        if weak and self.open(ch, sp, p):
                            raise Violation('undecayed', 'event %d: %s is left although weak and electromagnetic decays are to be '
                                            'performed' % (e.number, show(p)))
            if not force:
                late = [b for b in e.inter if abs(b.parts[0]['t'] - end) < 1e-9 and b.type == DECAY]
                if len(late) > 1:
                    raise Violation('late decay', 'event %d: %d decays exactly at the end time although final decays are off'
                                    % (e.number, len(late)))
            for b in e.inter:
                if force and abs(b.parts[0]['t'] - end) < 1e-12 and b.type not in (DECAY, WALL):
                    st['others at end'] = st.get('others at end', 0) + 1
    def open(self, ch, sp, p):
        """some channel of p is open for certain (its heaviest final state fits)"""
        for _, names in ch.modes[ch.parent[p['pdg']]]:
            m = 0
            for x in names:
                a = ch.allowed(x)
                if not a or any(sp.width[c] > 1e-5 for c in a):
                    m = 1e9
                    break
                m += max(sp.mass[c] for c in a)
            q = outputs.charge_of(p['pdg'])
            if m < p['mass'] - 1e-3 and abs(q) <= 1:
                # a mode written for named charges may not fit this member of the multiplet
                if self.charge_ok(ch, p['pdg'], names):
                    return True
        return False
    def charge_ok(self, ch, pdg, names):
        import itertools
        sets = [ch.allowed(x) for x in names]
        for combo in itertools.product(*sets):
            if sum(outputs.charge_of(c) for c in combo) == outputs.charge_of(pdg) and \
                    sum(outputs.baryon_of(c) for c in combo) == outputs.baryon_of(pdg) and \
                    all(x.rstrip('⁺⁻⁰') == x for x in names):
                return True
        return False
