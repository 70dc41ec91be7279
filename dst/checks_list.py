"""C12 particle lists read from files."""
import copy, errno, hashlib, math, os, random
import core, features, gen, outputs, runbase
from core import Check, Outcome, Violation
from checks_repro import compare

OPT = ['ID', 'charge', 'ncoll', 'form_time', 'xsecfac', 'proc_type', 'time_last_coll', 'pdg_mother1', 'pdg_mother2',
       'perturbative_weight', 'spin0', 'spinx', 'spiny', 'spinz']
BASE = ['t', 'x', 'y', 'z', 'mass', 'p0', 'px', 'py', 'pz', 'pdg']
PROC = ['0', '1', '2', '3', '5']
OUTQ = ['t', 'x', 'y', 'z', 'mass', 'p0', 'px', 'py', 'pz', 'pdg', 'ID', 'charge', 'ncoll', 'form_time', 'xsecfac',
        'proc_id_origin', 'proc_type_origin', 'time_last_coll', 'pdg_mother1', 'pdg_mother2', 'baryon_number', 'strangeness',
        'perturbative_weight', 'spin0', 'spinx', 'spiny', 'spinz']
BREAK = ['column', 'word', 'nan', 'inf', 'pdg', 'charge', 'ncoll', 'xsecfac', 'proc_type', 'time_last_coll', 'mother', 'weight',
         'same place', 'no file', 'too few', 'no directory', 'number cut']
FAULTS = [('read', errno.EIO), ('read', errno.EIO), ('read', errno.EINTR), ('open', errno.EACCES), ('open', errno.EMFILE),
          ('open', errno.EINTR), ('stat', errno.EACCES)]

def number(rng, v, nd):
    """one of the ways to write a number; returns text"""
    k = rng.randrange(6)
    if k == 0:
        return '%.17g' % v
    if k == 1:
        return '%.*g' % (nd, v)
    if k == 2:
        return '%.*e' % (nd, v)
    if k == 3:
        return '%+.*g' % (nd, v)
    if k == 4:
        return '%.*f' % (nd + 2, v)
    return '%.*E' % (nd + 3, v)

def make_event(rng, sp, L, opts, n):
    pool = [111, 211, -211, 2212, 2112, 213, 9000221, 2224, -2212, 113] if 2224 in sp.mass else [111, 211, -211, 2212]
    pool = [p for p in pool if p in sp.mass]
    ps = []
    spread = rng.random() < .6
    t0 = gen.r3(rng, -1, 2, 2)
    for i in range(n):
        pdg = rng.choice(pool)
        stable = sp.width[pdg] <= 1e-3 or sp.width[pdg] < 1e-5
        m = sp.mass[pdg]
        if sp.width[pdg] >= 1e-3:
            m = round(m * rng.uniform(.99, 1.1), 4)
        elif rng.random() < .15:
            m = round(m * rng.uniform(.99, 1.01), 4)
        p = [rng.uniform(-1, 1) * 10 ** rng.choice([0, 0, 0, -2, 1]) for _ in range(3)]
        nd = rng.choice([5, 6, 9, 12])
        q = {c: number(rng, v, nd) for c, v in zip(('px', 'py', 'pz'), p)}
        q['mass'] = number(rng, m, 9)
        e = math.sqrt(float(q['mass']) ** 2 + sum(float(q[c]) ** 2 for c in ('px', 'py', 'pz')))
        if rng.random() < .1:
            e *= rng.uniform(.9, 1.1)
        q['p0'] = number(rng, e, nd)
        t = gen.r3(rng, t0, t0 + 1.5, 3) if spread else t0
        q['t'] = '%.17g' % t
        for c in 'xyz':
            v = rng.uniform(-4, 4)
            if L:
                v = rng.uniform(0, L) if rng.random() < .8 else rng.uniform(-L, 2 * L)
            q[c] = number(rng, v, rng.choice([6, 9]))
        q['pdg'] = str(pdg)
        for o in opts:
            q[o] = {'ID': str(rng.choice([i, 7, i + 100])), 'charge': str(outputs.charge_of(pdg)), 'ncoll': str(rng.randrange(5)),
                    'form_time': number(rng, t + rng.choice([-.5, 0, .3, 2.]), 6), 'xsecfac': number(rng, rng.choice([0, .25, .5, 1]), 6),
                    'proc_type': rng.choice(PROC), 'time_last_coll': number(rng, t - rng.random(), 6),
                    'pdg_mother1': rng.choice(['0', '211', '2212']), 'pdg_mother2': rng.choice(['0', '111']),
                    'perturbative_weight': number(rng, rng.choice([0, .5, 1]), 6), 'spin0': number(rng, rng.uniform(-1, 1), 6),
                    'spinx': number(rng, rng.uniform(-1, 1), 6), 'spiny': number(rng, rng.uniform(-1, 1), 6),
                    'spinz': number(rng, rng.uniform(-1, 1), 6)}[o]
            if o == 'time_last_coll' and float(q[o]) > t:
                q[o] = '%.17g' % (t - 1)
        if rng.random() < .03:
            q['pdg'] = rng.choice(['3334', '4122', '521'])    # not in the table of particles: left out with a warning
            if 'charge' in q:
                q['charge'] = '0'
        ps.append(q)
    return ps

def text_of(rng, ps, ev, opts, style, last):
    s = ''
    if style['out']:
        s += '# event %d%s\n' % (ev, rng.choice(['', ' out %d' % len(ps), ' ensemble 0 out %d' % len(ps)]))
    for q in ps:
        if style['messy'] and rng.random() < .2:
            s += rng.choice(['\n', '   \n', '# a remark\n', '\t\n'])
        sep = rng.choice(['  ', '\t', ' ', '    ']) if style['messy'] else ' '
        s += (rng.choice(['', ' ', '\t']) if style['messy'] else '') + sep.join(q[c] for c in BASE + opts)
        if style['extra']:
            s += sep + '17 42'
        if style['messy'] and rng.random() < .1:
            s += rng.choice([' # a remark', '   ', '\t#end'])
        s += '\n'
    if style['end']:
        s += '# event %d%s\n' % (ev, style['end'])
    return s

def columns(line):
    return line.split('#')[0].split()

class C12(Check):
    id = 'C12'
    quick_n, thorough_n = 1800, 40000
    rule = 'distinct initial states read, and distinct (damage or fault, outcome)'
    assumptions = ('a file cut between two lines is a shorter file: SMASH has no way to tell', 'PYTHIA is replaced by a stub')
    technique = ('deterministic simulation with fault injection: generated list files, whole, damaged, and on a disk with failing, short '
                 'and interrupted reads; the initial state written out is compared with an independent reading of the file')
    def gen(self, rng, i, tier):
        uni = rng.choice(['std', 'std', 'pi'])
        sp = core.species(uni)
        modus = rng.choice(['List', 'List', 'ListBox'])
        case = gen.run_case(rng, {'modi': [modus], 'universe': uni, 'n': 4, 'no_stochastic': True, 'end': 5.0})
        cfg = case['config']
        g = cfg['General']
        g.pop('Testparticles', None)
        L = cfg['Modi'][modus].get('Length')
        opts = rng.choice([['ID', 'charge'], ['ID', 'charge'], None, rng.sample(OPT, rng.randrange(len(OPT) + 1))])
        m = cfg['Modi'][modus]
        if opts is not None:
            m['Optional_Quantities'] = list(opts)
            if opts == ['ID', 'charge'] and rng.random() < .5:
                del m['Optional_Quantities']
        else:
            opts = ['ID', 'charge']
        nev = rng.choice([1, 1, 2, 3, 5])
        have = nev + rng.choice([0, 0, 1, 2])
        g['Nevents'] = nev
        evs = []
        for e in range(have):
            n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 14])
            evs.append(make_event(rng, sp, L, opts, n))
        g['End_Time'] = 4.2
        per_file = rng.random() < .5
        style = {'out': rng.random() < .8, 'end': rng.choice([' end', ' end 0', ' ensemble 0 end 0 impact   0.000 scattering_projectile_target yes',
                                                            ' end 0 impact 1.5']),
                 'messy': rng.random() < .4, 'extra': rng.random() < .15, 'header': rng.random() < .8, 'newline': rng.random() < .9}
        files = []
        if per_file:
            m.pop('Filename', None)
            m['File_Prefix'] = 'part'
            shift = rng.choice([0, 0, 1, 7, 99])
            if shift or rng.random() < .5:
                m['Shift_Id'] = shift
            e = 0
            while e < have:
                k = min(have - e, rng.choice([1, 1, 2, 3]))
                files.append(('part%d' % (shift + len(files)), list(range(e, e + k))))
                e += k
        else:
            m['Filename'] = 'list0'
            files.append(('list0', list(range(have))))
        case['files'] = {}
        case['where'] = {}
        for name, es in files:
            st = dict(style)
            if len(es) == 1 and rng.random() < .3 and evs[es[0]]:
                st['end'] = ''
                st['out'] = rng.random() < .5
                st['header'] = rng.random() < .5
            txt = gen.LIST_HEADER if st['header'] else ''
            for e in es:
                txt += text_of(rng, evs[e], e, opts, st, e == es[-1])
                case['where'][str(e)] = name
            if not st['newline']:
                txt = txt[:-1]
            elif rng.random() < .15:
                txt += '\n\n'
            case['files'][name] = txt
        # an event without particles needs its markers to be an event
        case['events'] = evs
        case['opts'] = opts
        cfg['Output'] = {'Particles': {'Format': ['Binary'], 'Quantities': OUTQ}}
        cfg['Output']['Particles']['Only_Final'] = 'No'
        case['mode'] = mode = rng.choice(['plain', 'plain', 'broken', 'broken', 'fault', 'fault'])
        case['weather'] = runbase.weather(rng)
        case['weather'].pop('SIM_SHORTW', None)
        if mode == 'broken':
            case['broken'] = rng.choice(BREAK)
            case['pick'] = rng.randrange(10 ** 9)
        elif mode == 'fault':
            kind, err = rng.choice(FAULTS)
            case['fault'] = [kind, rng.choice(sorted(case['files'])), err, rng.random(), rng.random() < .5]
        return case
    def shrink(self, case):
        if case['weather']:
            yield dict(case, weather={})
        for k in ('Additional_Elastic_Cross_Section', 'Cross_Section_Scaling', 'Use_AQM'):
            if k in case['config']['Collision_Term']:
                c = copy.deepcopy(case)
                del c['config']['Collision_Term'][k]
                yield c
        if case['mode'] == 'plain' and case['config']['General']['Nevents'] > 1:
            c = copy.deepcopy(case)
            c['config']['General']['Nevents'] -= 1
            yield c
    def damage(self, case):
        """changes the case; returns (what, must it be refused)"""
        rng = random.Random(case['pick'])
        c = copy.deepcopy(case)
        k = case['broken']
        g = c['config']['General']
        nev = g['Nevents']
        m = c['config']['Modi'][g['Modus']]
        if k == 'too few':
            g['Nevents'] = len(case['events']) + rng.choice([1, 2])
            return c, True
        if k == 'no file':
            need = sorted({c['where'][str(e)] for e in range(nev)})
            del c['files'][rng.choice(need)]
            return c, True
        if k == 'no directory':
            m['File_Directory'] = '@IN@/nowhere'
            return c, True
        es = [e for e in range(nev) if any(q['pdg'] not in ('3334', '4122', '521') for q in case['events'][e])]
        if not es:
            return None, False
        e = rng.choice(es)
        name = c['where'][str(e)]
        j = rng.choice([j for j, q in enumerate(case['events'][e]) if q['pdg'] not in ('3334', '4122', '521')])
        # locate the line: the j-th particle line of this event in its file
        first = min(int(x) for x, f in c['where'].items() if f == name)
        nth = sum(len(case['events'][x]) for x in range(first, e)) + j
        L = c['files'][name].split('\n')
        idx = [i for i, l in enumerate(L) if columns(l)][nth]
        col = columns(L[idx])
        names = BASE + case['opts']
        if k == 'column':
            i = rng.randrange(len(names))
            if len(col) > len(names):
                col = col[:len(names)]
            del col[i]
        elif k == 'number cut':
            i = rng.randrange(9)
            col[i] = rng.choice(['-', '+', '.', 'e5', '1e'])
        elif k == 'word':
            col[rng.randrange(9)] = rng.choice(['abc', 'x1', '--1', '?'])
        elif k == 'nan':
            col[rng.choice([0, 1, 2, 3, 5, 6, 7, 8])] = 'nan'
        elif k == 'inf':
            col[rng.randrange(9)] = rng.choice(['inf', '1e999'])
        elif k == 'pdg':
            col[9] = rng.choice(['abc', '2x', '99999999999', '21.5', '-'])
        elif k == 'same place':
            if len(case['events'][e]) < 3:
                return None, False
            lines = [i for i, l in enumerate(L) if columns(l)][nth - j:nth - j + len(case['events'][e])]
            ok = [i for i, q in zip(lines, case['events'][e]) if q['pdg'] not in ('3334', '4122', '521')]
            if len(ok) < 3:
                return None, False
            ref = columns(L[ok[0]])[:4]
            for i in ok[:3]:
                x = columns(L[i])
                L[i] = ' '.join(ref + x[4:])
            c['files'][name] = '\n'.join(L)
            return c, True
        else:
            o = {'mother': 'pdg_mother1', 'weight': 'perturbative_weight'}.get(k, k)
            if o not in case['opts']:
                return None, False
            t = float(col[0])
            bad = {'charge': str(int(float(col[names.index(o)])) + 1) if o == 'charge' else '', 'ncoll': rng.choice(['-1', 'many']),
                   'xsecfac': rng.choice(['1.5', '-0.1', 'abc']), 'proc_type': rng.choice(['99', '-3', 'x']),
                   'time_last_coll': rng.choice(['%.9g' % (t + .5), 'late']), 'pdg_mother1': rng.choice(['3334', 'abc']),
                   'perturbative_weight': rng.choice(['1.5', '-1', 'z'])}[o]
            col[names.index(o)] = bad
        L[idx] = ' '.join(col)
        c['files'][name] = '\n'.join(L)
        return c, True
    # -- the independent reading
    def expected(self, case, e, sp, L):
        opts = case['opts']
        ps = []
        for q in case['events'][e]:
            if int(q['pdg']) not in sp.mass:
                continue
            pdg = int(q['pdg'])
            f = {c: float(q[c]) for c in BASE[:-1]}
            pole = sp.mass[pdg]
            p2 = f['px'] ** 2 + f['py'] ** 2 + f['pz'] ** 2
            E = f['p0']
            if sp.width[pdg] < 1e-5 and abs(f['mass'] - pole) > 1e-6:
                E = math.sqrt(pole * pole + p2)
            elif abs(E * E - p2 - f['mass'] ** 2) > 1e-6:
                E = math.sqrt(f['mass'] ** 2 + p2)
            d = dict(pdg=pdg, px=f['px'], py=f['py'], pz=f['pz'], p0=E, t=f['t'], x=f['x'], y=f['y'], z=f['z'], form_time=f['t'],
                     charge=outputs.charge_of(pdg), ncoll=0, proc_type_origin=0, time_last_coll=f['t'], pdg_mother1=0, pdg_mother2=0,
                     baryon_number=outputs.baryon_of(pdg), perturbative_weight=1.)
            for o in opts:
                if o == 'ncoll':
                    d[o] = int(q[o])
                elif o == 'proc_type':
                    d['proc_type_origin'] = int(q[o])
                elif o in ('pdg_mother1', 'pdg_mother2'):
                    d[o] = int(q[o])
                elif o not in ('ID', 'charge', 'xsecfac'):
                    d[o] = float(q[o])
            ps.append(d)
        if ps:
            t0 = min(p['t'] for p in ps)
            if any(p['t'] != t0 for p in ps):
                for p in ps:
                    for c, k in zip('xyz', ('px', 'py', 'pz')):
                        p[c] += (t0 - p['t']) * p[k] / p['p0']
                    p['form_time'] = p['t']
                    p['t'] = t0
            if L:
                for p in ps:
                    for c in 'xyz':
                        p[c] %= L
        for i, p in enumerate(ps):
            p['ID'] = i
        return ps
    def states(self, case, r):
        q = case['config']['Output']['Particles']['Quantities']
        bl = outputs.read_binary(r.path('particles_custom.bin'), q)[3]
        first, n = [], -1
        seen = set()
        for b in bl:
            if b.kind == 'p' and b.event not in seen:
                seen.add(b.event)
                first.append(b)
        ends = [b.event for b in bl if b.kind == 'f']
        return first, ends
    def check_states(self, case, r, st):
        g = case['config']['General']
        L = case['config']['Modi'][g['Modus']].get('Length')
        sp = core.species(case['universe'])
        first, ends = self.states(case, r)
        if ends != list(range(g['Nevents'])) or [b.event for b in first] != ends:
            raise Violation('events', 'events %s of %d' % (ends, g['Nevents']))
        for e, b in enumerate(first):
            want = self.expected(case, e, sp, L)
            if len(want) != len(b.parts):
                raise Violation('particles', 'event %d starts with %d particles, the list has %d' % (e, len(b.parts), len(want)))
            st['particles read'] = st.get('particles read', 0) + len(want)
            for w, p in zip(want, b.parts):
                for k, v in w.items():
                    x = p[k]
                    if k in ('x', 'y', 'z'):
                        d = abs(x - v)
                        if L:
                            d = min(d, abs(L - d))
                        ok = d <= 1e-9 * (1 + abs(v))
                    elif k == 'p0':
                        ok = abs(x - v) <= 1e-9 * (1 + v)
                    elif k in ('t', 'form_time'):
                        ok = abs(x - v) <= 1e-12 * (1 + abs(v))
                    else:
                        ok = x == v
                    if not ok:
                        raise Violation('particle', 'event %d, particle %d (%d): %s is %r, the list says %r' % (e, p['ID'], p['pdg'], k, x, v))
    def execute(self, case):
        st = {'runs': 1, 'mode ' + case['mode']: 1}
        runs = []
        try:
            env = dict(case['weather'])
            if case['mode'] == 'broken':
                c, bad = self.damage(case)
                if c is None:
                    return Outcome(None, None, st)
                r = core.smash(c, env=env)
                runs.append(r)
                what = 'damage: ' + case['broken']
                st['fault: ' + what] = 1
                # a number beyond the range of double ends the run by the floating point trap, with its message
                trapped = case['broken'] == 'inf' and 'Floating point trap' in r.log()
                if r.timeout or core.crashed(r) and not trapped:
                    raise Violation('crash', '%s: %s' % (what, core.crashed(r) or 'hang'))
                if bad and r.rc == 0:
                    raise Violation('accepted', '%s is accepted without an error' % what)
                if bad and [n for n in r.files() if n.endswith('.bin')]:
                    raise Violation('accepted', '%s: the refused run left finished output' % what)
                for k, v in runbase.weather_stats(case['weather']).items():
                    st[k] = v
                return Outcome(None, what, st, what, '%d' % r.rc)
            r = core.smash(case, env=env)
            runs.append(r)
            if r.timeout or core.crashed(r):
                raise Violation('crash', core.crashed(r) or 'hang')
            if r.rc:
                raise Violation('refused', 'a well-formed list is refused: %s' % runbase.fatal(r))
            self.check_states(case, r, st)
            for k, v in runbase.weather_stats(case['weather']).items():
                st[k] = v
            st['simulated time fm'] = runbase.sim_time(case)
            key = hashlib.sha1(r.files()['particles_custom.bin']).hexdigest()[:12]
            dig = key
            if case['mode'] == 'fault':
                kind, name, err, x, sticky = case['fault']
                ops, _, _ = r.trace_ops()
                sel = [o for o in ops if o[2].endswith('in/' + name) and (o[1] == kind or (kind == 'open' and o[1] == 'openr'))]
                if not sel:
                    st['fault never reached'] = 1
                    return Outcome(None, key, st, 'list', dig)
                o = sel[int(x * len(sel))]
                nth = sum(1 for q in sel if q[0] <= o[0] and q[1] == o[1])
                f = core.smash(case, env={'SIM_SEED': case['weather']['SIM_SEED'] if case['weather'] else 1,
                                          'SIM_PLAN': '%s %s %d err %d %d;' % (o[1], o[2], nth, err, int(sticky and err != errno.EINTR))})
                runs.append(f)
                st['runs'] += 1
                what = '%s at %s' % (errno.errorcode[err], o[1])
                _, hit, _ = f.trace_ops()
                if not hit:
                    st['fault never reached'] = 1
                else:
                    st['fault: ' + what] = 1
                if f.timeout or core.crashed(f):
                    raise Violation('crash', '%s: %s' % (what, core.crashed(f) or 'hang'))
                if f.rc == 0:
                    compare(r.files(), f.files(), 'run with %s on %s' % (what, name), ['particles_custom.bin'])
                elif err == errno.EINTR and kind == 'read':
                    raise Violation('interrupted', 'an interrupted read makes the run fail: ' + runbase.fatal(f))
                key = '%s %d' % (what, f.rc)
                dig += ' %d' % f.rc
            return Outcome(None, key, st, '%d events' % case['config']['General']['Nevents'], dig)
        finally:
            for x in runs:
                x.clean()
