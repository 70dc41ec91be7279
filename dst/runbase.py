"""Shared by the checks that search over whole simulated runs."""
import copy, hashlib, math
import core, gen, oracles, outputs, physics
from core import Check, Outcome, Violation

def weather(rng, strong=0.7):
    """Surroundings a run must not depend on: memory contents and layout, short writes and reads, interrupted
    calls, clock behaviour.  All injected by the shim."""
    e = {'SIM_SEED': rng.randrange(1, 10**6)}
    if rng.random() < strong:
        if rng.random() < .6:
            e['SIM_FILL'] = rng.choice([0, 1, 127, 165, 255])
        if rng.random() < .5:
            e['SIM_JITTER'] = rng.choice([64, 512, 4096])
        if rng.random() < .4:
            e['SIM_SHORTW'] = rng.choice([2, 3, 7])
        if rng.random() < .4:
            e['SIM_SHORTR'] = rng.choice([2, 3, 7])
        if rng.random() < .4:
            e['SIM_CLOCK'] = rng.choice([1, 2])
    return e

def weather_stats(env):
    names = {'SIM_FILL': 'fault: dirty memory', 'SIM_JITTER': 'fault: heap layout', 'SIM_SHORTW': 'fault: short writes',
             'SIM_SHORTR': 'fault: short reads', 'SIM_EINTR': 'fault: interrupted calls', 'SIM_CLOCK': 'fault: clock jumps'}
    return {names[k] + ' (runs)': 1 for k in env if k in names}

def sim_time(case, r=None):
    g = case['config']['General']
    n = g.get('Nevents', 1)
    return (g['End_Time'] * n * g.get('Ensembles', 1)) if isinstance(n, int) else 0.

def shrink_run(case):
    """smaller variants of a generated run"""
    def variant():
        return copy.deepcopy(case)
    cfg = case['config']
    g, ct = cfg['General'], cfg.get('Collision_Term', {})
    if case.get('env'):
        c = variant()
        c['env'] = {}
        yield c
    if isinstance(g.get('Nevents'), int) and g['Nevents'] > 1:
        for n in {1, g['Nevents'] - 1}:
            c = variant()
            c['config']['General']['Nevents'] = n
            yield c
    for k in ('Ensembles', 'Testparticles', 'Use_Grid'):
        if k in g:
            c = variant()
            del c['config']['General'][k]
            yield c
    modus = g['Modus']
    m = cfg.get('Modi', {}).get(modus, {})
    mult = m.get('Init_Multiplicities')
    if isinstance(mult, dict):
        for k in sorted(mult):
            if len(mult) > 1:
                c = variant()
                del c['config']['Modi'][modus]['Init_Multiplicities'][k]
                yield c
            if mult[k] > 1:
                c = variant()
                c['config']['Modi'][modus]['Init_Multiplicities'][k] = max(1, mult[k] // 2)
                yield c
    for k in ('Jet', 'Equilibration_Time'):
        if k in m:
            c = variant()
            del c['config']['Modi'][modus][k]
            yield c
    for k in sorted(ct):
        if k in ('Use_AQM', 'Additional_Elastic_Cross_Section', 'Cross_Section_Scaling', 'Isotropic', 'Pseudoresonance',
                 'Force_Decays_At_End', 'Decay_Initial_Particles', 'Resonance_Lifetime_Modifier', 'Multi_Particle_Reactions',
                 'Ignore_Minimum_Decay_Width_For_Decays_At_The_End'):
            c = variant()
            del c['config']['Collision_Term'][k]
            yield c
    end = g['End_Time']
    start = m.get('Start_Time', 0.0)
    if modus not in ('List', 'ListBox') and end - start > 0.6:
        c = variant()
        c['config']['General']['End_Time'] = round(start + (end - start) / 2, 3)
        yield c

class RunCheck(Check):
    """One simulated run (one or more events) per case, judged by an oracle over its recorded history."""
    profile = {}
    must_finish = True
    timeout = 60
    rule = 'distinct sequences of (process type, incoming species) over the whole run'
    assumptions = ('PYTHIA is replaced by a stub, so strings are switched off',
                   'generated universes of 20 and 5 particle species instead of the full table')
    def gen(self, rng, i, tier):
        p = dict(self.profile)
        if tier == 'thorough' and rng.random() < .3:
            p['n'] = 60
            p['end'] = 12.0
        case = gen.run_case(rng, p)
        self.adjust(case, rng, i)
        case['env'] = weather(rng)
        return case
    def adjust(self, case, rng, i):
        pass
    def oracle(self, case, r, ctx, evs, pevs, st):
        raise NotImplementedError
    def shrink(self, case):
        return shrink_run(case)
    def execute(self, case):
        st = weather_stats(case.get('env', {}))
        r = core.smash(case, timeout=self.timeout)
        try:
            physics.orderly(r)
            st['runs'] = 1
            if r.rc != 0:
                raise Violation('failed', 'a valid run ends with exit %d: %s' % (r.rc, fatal(r)))
            st['simulated time fm'] = sim_time(case)
            ctx = physics.context(case)
            try:
                evs, pevs = physics.load(case, r, ctx)
            except (outputs.Bad, OSError, UnicodeError) as e:
                raise Violation('malformed output', str(e))
            key = physics.history_key(evs)
            for e in evs:
                st['events'] = st.get('events', 0) + 1
                for b in e.inter:
                    st['interactions'] = st.get('interactions', 0) + 1
                    k = 'process type %d' % b.type
                    st[k] = st.get(k, 0) + 1
            self.oracle(case, r, ctx, evs, pevs, st)
            n = sum(len(e.inter) for e in evs)
            sample = '%s, %s, %d events, %d interactions' % (case['config']['General']['Modus'],
                      case['config']['Collision_Term'].get('Collision_Criterion'), len(evs), n)
            return Outcome(None, key if n else None, st, sample, key)
        finally:
            r.clean()

def fatal(r):
    l = r.log().split('\n')
    for i, x in enumerate(l):
        if 'FATAL' in x:
            return ' '.join(y.strip() for y in l[i:i + 4])[:400]
    return ' '.join(l[-4:])[-400:]
