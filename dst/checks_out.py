"""C03 all output formats tell the same story."""
import copy, os, random, re, struct
import core, features, gen, outputs, physics, runbase
from core import Check, Outcome, Violation
from outputs import STD, EXT, O1999
from checks_repro import compare, digest, finished, blown_up

FULL = [q for q in features.CUSTOM if q != 'eta']
MOM = {'p0', 'px', 'py', 'pz'}
NAMES = {'Particles': ('particles', 'particle_lists'), 'Collisions': ('collisions', 'full_event_history'),
         'Dileptons': ('Dileptons', 'Dileptons'), 'Photons': ('Photons', 'Photons'), 'Initial_Conditions': ('SMASH_IC', 'SMASH_IC')}

def same_number(text, val, digits):
    """text is val, rounded to at least this many digits"""
    try:
        t = float(text)
    except ValueError:
        return False
    if t == val or (t != t and val != val):
        return True
    return any(float('%.*g' % (k, val)) == t for k in range(digits, 18))

def same_fixed(text, val, decimals, slack=0):
    try:
        t = float(text)
    except ValueError:
        return False
    return abs(t - val) <= 0.5000001 * 10**-decimals + slack + abs(val) * 1e-15

def compare_particles(w, a, b, text):
    """a: all quantities at full precision"""
    if len(a) != len(b):
        raise Violation('disagree', '%s: %d particles, %d in the full binary' % (w, len(b), len(a)))
    for k, (p, q) in enumerate(zip(a, b)):
        for n, v in q.items():
            if n == '0':
                ok = float(v) == 0
            elif n not in p:
                continue
            elif not text:
                ok = v == p[n] or (v != v and p[n] != p[n])
            elif n in ('ID', 'pdg') or n in outputs.INTS:
                ok = v == str(p[n])
            else:
                ok = same_number(v, p[n], 9 if n in MOM else 6)
            if not ok:
                raise Violation('disagree', '%s, particle %d: %s is %s, %r in the full binary' % (w, k, n, v, p[n] if n in p else 0))

def compare_blocks(name, truth, other, text, kind):
    """kind: 'o' Oscar2013 like, '9' Oscar1999, 'b' binary"""
    for i in range(max(len(truth), len(other))):
        if i >= len(truth) or i >= len(other):
            raise Violation('disagree', '%s has %d blocks, the full binary %d' % (name, len(other), len(truth)))
        a, b = truth[i], other[i]
        w = '%s, block %d of kind %s' % (name, i, b.kind)
        if a.kind != b.kind:
            raise Violation('disagree', '%s: kind %s in the full binary' % (w, a.kind))
        if a.kind in 'pf' and (a.event, a.ens) != (b.event, b.ens):
            raise Violation('disagree', '%s: event %s ensemble %s, in the full binary %s, %s' % (w, b.event, b.ens, a.event, a.ens))
        if a.kind == 'f':
            if text:
                if not same_fixed(b.impact, a.impact, 3):
                    raise Violation('disagree', '%s: impact parameter %s, %r' % (w, b.impact, a.impact))
            elif a.impact != b.impact:
                raise Violation('disagree', '%s: impact parameter %s, %r' % (w, b.impact, a.impact))
            if kind != '9' and a.empty != b.empty:
                raise Violation('disagree', '%s: empty event flag %s, %r' % (w, b.empty, a.empty))
            continue
        compare_particles(w, a.parts, b.parts, text)
        if a.kind == 'i':
            compare_particles(w + ', outgoing', a.outp, b.outp, text)
            if a.type != b.type:
                raise Violation('disagree', '%s: process %s, %s' % (w, b.type, a.type))
            for n in ('rho', 'weight', 'partial'):
                x, y = getattr(a, n), getattr(b, n)
                if text:
                    ok = same_number(y, x, 7) if n == 'weight' and kind == 'o' else same_fixed(y, x, 7)
                else:
                    ok = x == y
                if not ok:
                    raise Violation('disagree', '%s: %s %s, %r in the full binary' % (w, n, y, x))

def event_order(name, blocks, nev, nens, ends_only=False):
    """one end per event and ensemble, in order; nothing of an event before the end of the previous one"""
    seen = [(b.event, b.ens) for b in blocks if b.kind == 'f']
    want = [(e, k) for e in range(nev) for k in range(nens)]
    if seen != want:
        raise Violation('incomplete', '%s: ends of events %s..., expected one for each of %d events and %d ensembles in order' % (
            name, seen[:6], nev, nens))
    done = -1
    for b in blocks:
        if b.kind == 'f':
            done = b.event if b.ens == nens - 1 else done
        elif b.kind == 'p' and b.event is not None and not done < b.event <= done + 1:
            raise Violation('incomplete', '%s: a block of event %d after the end of event %d' % (name, b.event, done))

def read_vtk(path):
    L = open(path).read().split('\n')
    d, i = {}, 0
    if L[:1] != ['# vtk DataFile Version 2.0'] or L[2:4] != ['ASCII', 'DATASET UNSTRUCTURED_GRID']:
        raise outputs.Bad(path + ': bad VTK header')
    i = 4
    n = None
    while i < len(L):
        f = L[i].split()
        i += 1
        if not f:
            continue
        if f[0] == 'POINTS':
            n = int(f[1])
            d['points'] = [l.split() for l in L[i:i + n]]
            i += n
        elif f[0] in ('CELLS', 'CELL_TYPES'):
            if int(f[1]) != n:
                raise outputs.Bad(path + ': counts differ')
            i += n
        elif f[0] == 'POINT_DATA':
            if int(f[1]) != n:
                raise outputs.Bad(path + ': counts differ')
        elif f[0] == 'SCALARS':
            d[f[1]] = [l.strip() for l in L[i + 1:i + 1 + n]]
            i += n + 1
        elif f[0] == 'VECTORS':
            d[f[1]] = [l.split() for l in L[i:i + n]]
            i += n
        else:
            raise outputs.Bad('%s: unexpected line %r' % (path, L[i - 1][:50]))
    for k, v in d.items():
        if len(v) != n or any(x in ('', []) for x in v):
            raise outputs.Bad('%s: %s is cut' % (path, k))
    return n, d

def read_grid_vtk(path):
    L = open(path).read().split('\n')
    dims, fields, i = None, {}, 0
    while i < len(L):
        f = L[i].split()
        i += 1
        if not f:
            continue
        if f[0] == 'DIMENSIONS':
            dims = [int(x) for x in f[1:]]
        elif f[0] == 'SPACING':
            fields['spacing'] = [float(x) for x in f[1:]]
        elif f[0] == 'ORIGIN':
            fields['origin'] = [float(x) for x in f[1:]]
        elif f[0] in ('SCALARS', 'VECTORS'):
            name = f[1]
            vals = []
            if f[0] == 'SCALARS':
                i += 1
            while i < len(L) and not L[i].startswith(('SCALARS', 'VECTORS')):
                vals += L[i].split()
                i += 1
            n = dims[0] * dims[1] * dims[2] * (3 if f[0] == 'VECTORS' else 1)
            if len(vals) != n:
                raise outputs.Bad('%s: %s has %d of %d values' % (path, name, len(vals), n))
            fields[name] = vals
    return dims, fields

NCOMP = {0: 1, 1: 10, 2: 10, 3: 3, 4: 12}

def read_lattice_bin(path):
    b = open(path, 'rb').read()
    if len(b) < 72:
        raise outputs.Bad(path + ': header cut')
    ver, q, nx, ny, nz = struct.unpack_from('<diiii', b)
    rest = struct.unpack_from('<6d', b, 24)
    n = nx * ny * nz * NCOMP.get(q, 1)
    body = b[72:]
    if len(body) % (8 * (n + 1)):
        raise outputs.Bad('%s: %d bytes are no whole number of blocks' % (path, len(b)))
    v = struct.unpack('<%dd' % (len(body) // 8), body)
    return {'version': ver, 'q': q, 'n': [nx, ny, nz], 'geo': rest, 'blocks': [v[i:i + n + 1] for i in range(0, len(v), n + 1)]}

def read_lattice_ascii(path):
    h, vals = {}, []
    t = open(path).read()
    if not t.endswith('\n'):
        raise outputs.Bad(path + ': cut')
    for l in t.split('\n'):
        if l.startswith('#'):
            k, v = l[1:].split(':', 1)
            h[k] = v.split()
        else:
            vals += l.split()
    return h, vals

VTK_COLS = [
    ({'x', 'y', 'z'}, lambda v, j, p: all(same_number(x, p[c], 6) for x, c in zip(v['points'][j], 'xyz'))),
    ({'px', 'py', 'pz'}, lambda v, j, p: all(same_number(x, p[c], 6) for x, c in zip(v['momentum'][j], ('px', 'py', 'pz')))),
    ({'pdg'}, lambda v, j, p: v['pdg_codes'][j] == str(p['pdg'])),
    ({'ncoll'}, lambda v, j, p: v['N_coll'][j] == str(p['ncoll'])),
    ({'ID'}, lambda v, j, p: v['particle_ID'][j] == str(p['ID'])),
    ({'mass'}, lambda v, j, p: same_number(v['mass'][j], p['mass'], 4)),
    ({'baryon_number'}, lambda v, j, p: v['baryon_number'][j] == str(p['baryon_number'])),
    ({'strangeness'}, lambda v, j, p: v['strangeness'][j] == str(p['strangeness'])),
    ({'xsecfac'}, lambda v, j, p: same_number(v['cross_section_scaling_factor'][j], p['xsecfac'], 6)),
    ({'form_time', 't'}, lambda v, j, p: v['is_formed'][j] == ('0' if p['form_time'] > p['t'] else '1')),
]

class C03(Check):
    id = 'C03'
    quick_n, thorough_n = 1200, 40000
    rule = 'distinct contents of all output files'
    assumptions = ('VTK files of particles start with the initial state of an event and do not have the final one',
                   'HepMC, Rivet and ROOT outputs are not compiled in here', 'PYTHIA is replaced by a stub, so strings are switched off')
    technique = ('deterministic simulation: whole runs of generated configurations that ask for many formats at once under seeded '
                 'short writes, interrupted calls and dirty memory; every file is parsed independently and compared with the full binary '
                 'one, and with the same run asking for other outputs')
    def gen(self, rng, i, tier):
        case = gen.run_case(rng, {'n': 14 if tier == 'quick' else 40, 'end': 3.0 if tier == 'quick' else 8.0})
        cfg = case['config']
        got = features.add_features(rng, case)
        if 'thermodynamics' not in got and rng.random() < .25:
            features.thermo(rng, cfg)
        if 'Potentials' in cfg:
            cfg['Output'].get('Thermodynamics', {}).pop('Only_Participants', None)
        case['features'] = got
        out = cfg['Output']
        q = list(FULL)
        rng.shuffle(q)
        if rng.random() < .3:
            q[q.index('ID')] = 'id'
        if rng.random() < .1:
            q[q.index('eta_s')] = 'eta'
        for c in ('Particles', 'Collisions', 'Dileptons', 'Photons'):
            if c not in out:
                continue
            fm = ['Binary'] + [f for f in ('ASCII', 'Oscar2013_bin') if rng.random() < .6]
            fm += rng.choice([[], ['Oscar2013'], ['Oscar2013'], ['Oscar1999']])
            if c == 'Particles' and rng.random() < .4:
                fm.append('VTK')
            rng.shuffle(fm)
            o = out[c]
            o['Format'] = fm
            o['Quantities'] = list(q)
            o['Extended'] = rng.random() < .5
            if c == 'Particles':
                o['Only_Final'] = rng.choice(['No', 'No', 'Yes', 'IfNotEmpty'])
            elif c == 'Collisions':
                o['Print_Start_End'] = rng.random() < .6
        case['weather'] = runbase.weather(rng)
        case['second'] = rng.randrange(10**9) if rng.random() < .5 else None
        return case
    def shrink(self, case):
        if case['weather']:
            yield dict(case, weather={})
        if case['second'] is not None:
            yield dict(case, second=None)
        out = case['config']['Output']
        for c in list(out):
            if isinstance(out[c], dict):
                if sum(isinstance(v, dict) for v in out.values()) > 1:
                    k = copy.deepcopy(case)
                    del k['config']['Output'][c]
                    yield k
                for f in out[c].get('Format', []):
                    if f != 'Binary' and len(out[c]['Format']) > 1:
                        k = copy.deepcopy(case)
                        k['config']['Output'][c]['Format'].remove(f)
                        yield k
        yield from runbase.shrink_run(case)
    def execute(self, case):
        st = {'runs': 1}
        runs = []
        try:
            r = core.smash(case, env=case['weather'])
            runs.append(r)
            if blown_up(case, r):
                return Outcome(None, None, st)
            finished(r, 'run')
            fs = r.files()
            self.judge_files(case, case['config']['Output'], r, fs, st)
            for k, v in runbase.weather_stats(case['weather']).items():
                st[k] = st.get(k, 0) + v
            if case['second'] is not None:
                st['runs'] += 1
                c2, touched = self.other(case)
                r2 = core.smash(c2)
                runs.append(r2)
                finished(r2, 'run with other outputs')
                f2 = r2.files()
                self.judge_files(c2, c2['config']['Output'], r2, f2, st)
                keep = [n for n in fs if n in f2 and n != 'config.yaml' and not any(t in n for t in touched)]
                compare(fs, f2, 'the same run with other outputs requested', keep)
                st['files compared across runs'] = len(keep)
            d = digest({n: b for n, b in fs.items() if n != 'config.yaml'})
            st['simulated time fm'] = runbase.sim_time(case) * st['runs']
            return Outcome(None, d, st, ' '.join(sorted(fs))[:200], d)
        finally:
            for x in runs:
                x.clean()
    def other(self, case):
        """the same run with other formats; returns names of files that legitimately change"""
        rng = random.Random(case['second'])
        c = copy.deepcopy(case)
        out = c['config']['Output']
        touched = ['_custom.bin', '.dat']
        for k in ('Particles', 'Collisions', 'Dileptons', 'Photons'):
            if k not in out:
                continue
            o = out[k]
            if k in ('Particles', 'Collisions') and rng.random() < .25 and sum(
                    x in out for x in ('Particles', 'Collisions')) > 1:
                del out[k]
                continue
            fm = [f for f in o['Format'] if rng.random() < .5] or ['Oscar2013_bin']
            if rng.random() < .5:
                x = rng.choice(['Oscar2013', 'Oscar1999', 'ASCII', 'Oscar2013_bin', 'Binary'] + (['VTK'] if k == 'Particles' else []))
                if x not in fm and not (x.startswith('Oscar') and x != 'Oscar2013_bin' and {'Oscar2013', 'Oscar1999'} & set(fm)):
                    fm.append(x)
            o['Format'] = fm
            if {'ASCII', 'Binary'} & set(fm):
                o['Quantities'] = rng.sample(o['Quantities'], rng.randrange(1, len(o['Quantities']) + 1))
                o['Quantities'] += [s for s in features.SPIN if c['config']['Collision_Term'].get('Spin_Interactions') and
                                    s not in o['Quantities']]
                if set(o['Quantities']) == set(STD) or set(o['Quantities']) == set(EXT):
                    o['Quantities'].append('tau')
            else:
                o.pop('Quantities')
        if 'Thermodynamics' in out and 'Lattice' in case['config'] and rng.random() < .4:
            t = out['Thermodynamics']
            t['Format'] = [f for f in t['Format'] if rng.random() < .5] or [t['Format'][0]]
        return c, touched
    def judge_files(self, case, out, r, fs, st):
        g = case['config']['General']
        nens = g.get('Ensembles', 1)
        nev = g['Nevents'] if isinstance(g.get('Nevents'), int) else len(re.findall(r'random number seed: ', r.log()))
        box_eq = case['config']['Modi'].get('Box', {}).get('Equilibration_Time', 0) or 0
        for c, (bn, tn) in NAMES.items():
            if c not in out:
                continue
            o = out[c]
            fm = o['Format']
            q = o.get('Quantities', [])
            truth, tname = None, None
            files = []
            ext = o.get('Extended', False)
            if 'Binary' in fm:
                files.append((bn + '_custom.bin', 'b', q))
            if 'Oscar2013_bin' in fm:
                files.append((bn + ('_oscar2013_extended.bin' if ext else '_oscar2013.bin'), 'b', EXT if ext else STD))
            if 'ASCII' in fm:
                files.append((tn + '.dat', 'o', q))
            if 'Oscar2013' in fm:
                files.append((tn + '.oscar', 'o', EXT if ext else STD))
            if 'Oscar1999' in fm:
                files.append((tn + '.oscar1999', '9', O1999))
            for name, kind, cols in files:
                if name not in fs:
                    raise Violation('incomplete', 'requested file %s is missing (there: %s)' % (name, sorted(fs)))
                p = r.path(name)
                if kind == 'b':
                    ver, var, sv, bl = outputs.read_binary(p, cols, data=fs[name])
                elif kind == 'o':
                    fmt, cont, hq, units, sv, bl = outputs.read_oscar2013(p)
                    if [x for x in hq] != list(cols):
                        raise Violation('disagree', '%s: header lists %s, the lines have %s' % (name, hq, cols))
                    if cont != tn:
                        raise Violation('disagree', '%s: content %s in the header' % (name, cont))
                else:
                    bl = outputs.read_oscar1999(p)
                event_order(name, bl, nev, nens)
                st['files checked'] = st.get('files checked', 0) + 1
                if truth is None:
                    truth, tname, tkind = bl, name, kind
                    st['blocks'] = st.get('blocks', 0) + len(bl)
                    if kind != 'b':
                        truth = None
                elif tkind == 'b':
                    compare_blocks('%s and %s' % (name, tname), truth, bl, kind != 'b', kind)
            if c == 'Particles' and 'VTK' in fm:
                self.vtk(case, o, r, fs, truth, nev, nens, st)
        if 'Thermodynamics' in out:
            self.thermo(case, out['Thermodynamics'], r, fs, nev, st)
    def vtk(self, case, o, r, fs, truth, nev, nens, st):
        got = {}
        for n in fs:
            m = re.fullmatch(r'pos_ev(\d+)_ens(\d+)_tstep(\d+)\.vtk', n)
            if m:
                e, k, t = map(int, m.groups())
                got.setdefault((e, k), {})[t] = n
        if sorted(got) != [(e, k) for e in range(nev) for k in range(nens)]:
            raise Violation('incomplete', 'VTK files for events and ensembles %s of %d events and %d ensembles' % (
                sorted(got), nev, nens))
        for (e, k), d in got.items():
            if sorted(d) != list(range(len(d))):
                raise Violation('incomplete', 'VTK files of event %d: steps %s' % (e, sorted(d)))
            parsed = {t: read_vtk(r.path(n)) for t, n in d.items()}
            st['files checked'] = st.get('files checked', 0) + len(d)
            if truth is None or o['Only_Final'] != 'No':
                continue
            bl = [b for b in truth if b.kind == 'p' and (b.event, b.ens) == (e, k)]
            if len(d) != len(bl) - 1:
                raise Violation('disagree', 'event %d ensemble %d: %d VTK files, %d particle blocks (with the final one) in the binary' % (
                    e, k, len(d), len(bl)))
            for t in range(len(d)):
                n, v = parsed[t]
                ps = bl[t].parts
                w = d[t]
                if n != len(ps):
                    raise Violation('disagree', '%s: %d particles, %d in the binary file' % (w, n, len(ps)))
                for j, p in enumerate(ps):
                    ok = all(f(v, j, p) for need, f in VTK_COLS if need <= set(p))
                    if not ok:
                        raise Violation('disagree', '%s, particle %d: %s, in the binary %s' % (
                            w, j, {c: v[c][j] for c in v}, dict(p)))
    def thermo(self, case, t, r, fs, nev, st):
        bins = {n[:-4]: read_lattice_bin(r.path(n)) for n in fs if n.endswith('.bin') and re.search(r'_\d{7}\.bin$', n)}
        asc = {n[:-4]: read_lattice_ascii(r.path(n)) for n in fs if n.endswith('.dat') and re.search(r'_\d{7}\.dat$', n)}
        st['files checked'] = st.get('files checked', 0) + len(bins) + len(asc)
        want = len(t['Quantities']) * nev
        for f, have in (('Lattice_Binary', bins), ('Lattice_ASCII', asc)):
            if f in t['Format'] and len(have) != want:
                raise Violation('incomplete', '%d %s files for %d quantities and %d events' % (len(have), f, len(t['Quantities']), nev))
        if bins and asc:
            for n, b in bins.items():
                if n not in asc:
                    raise Violation('incomplete', '%s.dat is missing' % n)
                h, vals = asc[n]
                flat = [x for bl in b['blocks'] for x in bl]
                if [int(x) for x in h['Grid dimensions']] != b['n']:
                    raise Violation('disagree', '%s: grid %s and %s' % (n, h['Grid dimensions'], b['n']))
                for k, q in (('Grid spacing', b['geo'][:3]), ('Grid origin', b['geo'][3:])):
                    if not all(same_fixed(x, y, 6) for x, y in zip(h[k], q)):
                        raise Violation('disagree', '%s: %s %s and %s' % (n, k, h[k], q))
                if len(vals) != len(flat):
                    raise Violation('disagree', '%s: %d values in text, %d in binary' % (n, len(vals), len(flat)))
                for x, y in zip(vals, flat):
                    if not same_number(x, y, 13) and abs(float(x) - y) > 1e-14 * abs(y):
                        raise Violation('disagree', '%s: %s in text, %r in binary' % (n, x, y))
        if 'VTK' in t['Format'] and bins:
            for n, b in bins.items():
                base, ev = n.rsplit('_', 1)
                vt = {}
                for f in fs:
                    m = re.fullmatch(re.escape(base) + r'_(\d{5})_tstep(\d{5})\.vtk', f)
                    if m and int(m.group(1)) == int(ev):
                        vt[int(m.group(2))] = f
                if b['q'] == 4:
                    continue    # not available as VTK
                if sorted(vt) != list(range(len(b['blocks']))):
                    raise Violation('disagree', '%s: %d blocks, VTK steps %s' % (n, len(b['blocks']), sorted(vt)))
                N = b['n'][0] * b['n'][1] * b['n'][2]
                for k, f in vt.items():
                    dims, fields = read_grid_vtk(r.path(f))
                    st['files checked'] = st.get('files checked', 0) + 1
                    if dims != b['n']:
                        raise Violation('disagree', '%s: grid %s, %s' % (f, dims, b['n']))
                    val = b['blocks'][k][1:]
                    names = [x for x in fields if x not in ('spacing', 'origin')]
                    for j, x in enumerate(names):
                        want = val if b['q'] in (0, 3) else val[j * N:(j + 1) * N]
                        for p, q in zip(fields[x], want):
                            if not same_fixed(p, q, 3, abs(q) * 1e-12):
                                raise Violation('disagree', '%s, %s: %s, %r in the binary lattice file' % (f, x, p, q))
        if 'ASCII' in t['Format']:
            n = [x for x in fs if x.startswith('thermodynamics') and x.endswith('.dat')]
            if len(n) != 1:
                raise Violation('incomplete', 'thermodynamics files: %s' % n)
            L = fs[n[0]].decode().split('\n')
            evs = [int(l.split()[2]) for l in L if l.startswith('# event ')]
            if evs != list(range(nev)):
                raise Violation('incomplete', '%s: events %s' % (n[0], evs))
            cols = sum({'rho_eckart': 1, 'tmn': 10, 'tmn_landau': 10, 'landau_velocity': 3, 'j_QBS': 12}[x] for x in t['Quantities'])
            rows = [l.split() for l in L if l and not l.startswith('#')]
            for x in rows:
                if len(x) != cols + 1:
                    raise Violation('incomplete', '%s: a line of %d columns, %d are expected' % (n[0], len(x), cols + 1))
            per = []
            for l in L:
                if l.startswith('# event '):
                    per.append(0)
                elif l and not l.startswith('#'):
                    per[-1] += 1
            for x, b in bins.items():
                e = int(x.rsplit('_', 1)[1])
                if len(b['blocks']) != per[e]:
                    raise Violation('disagree', '%s: %d lines for event %d, %s has %d times' % (n[0], per[e], e, x, len(b['blocks'])))
