"""C17 configurations: echo, overrides, other ways to write them, unknown and invalid entries, damaged documents."""
import copy, hashlib, json, os, random
import core, features, gen, outputs, physics, runbase
from core import Check, Outcome, Violation
from checks_repro import compare, finished

# ---------------------------------------------------------------- writing YAML in other ways
def scalar(rng, v):
    if v is True or v is False:
        return rng.choice({True: ['true', 'True', 'yes', 'on', 'TRUE'], False: ['false', 'False', 'no', 'off', 'NO']}[v]) if rng else str(v).lower()
    if isinstance(v, (int, float)):
        t = repr(v)
        if rng and isinstance(v, float):
            k = rng.randrange(4)
            if k == 0:
                t = '%.17e' % v
            elif k == 1 and 'e' not in t and 'n' not in t:
                t = t + '000'
            elif k == 2 and v > 0:
                t = '+' + t
        return t
    k = rng.randrange(3) if rng else 1
    s = str(v)
    if k == 0 and s and all(c.isalnum() or c in '_-./ ' for c in s) and s[0].isalpha() and s.lower() not in ('yes', 'no', 'on', 'off', 'true', 'false', 'null', 'y', 'n') and s == s.strip():
        return s
    if k == 2 and "'" not in s and '\n' not in s:
        return "'%s'" % s
    return json.dumps(s, ensure_ascii=False)

def write_yaml(rng, d, ind=0, step=2):
    """block style with the keys in another order, remarks and flow style here and there"""
    ks = list(d)
    rng.shuffle(ks)
    out = []
    for k in ks:
        v = d[k]
        pad = ' ' * ind
        key = k if str(k).replace('_', '').isalnum() and rng.random() < .7 and not str(k)[0].isdigit() else json.dumps(str(k))
        tail = rng.choice(['', '', '', '   # a remark', ' #'])
        if rng.random() < .1:
            out.append(rng.choice(['', pad + '# a remark: with a colon', '#']))
        if isinstance(v, dict) and v:
            if rng.random() < .2:
                out.append('%s%s: %s' % (pad, key, json.dumps(v, ensure_ascii=False)))
            else:
                out.append('%s%s:%s' % (pad, key, tail))
                out += write_yaml(rng, v, ind + step, step)
        elif isinstance(v, list) and v and not any(isinstance(x, (dict, list)) for x in v) and rng.random() < .5:
            out.append('%s%s:' % (pad, key))
            out += ['%s%s- %s' % (pad, rng.choice(['', '  ']) if False else ' ' * step, scalar(rng, x)) for x in v]
        elif isinstance(v, (list, dict)):
            out.append('%s%s: %s%s' % (pad, key, json.dumps(v, ensure_ascii=False), tail))
        else:
            out.append('%s%s: %s%s' % (pad, key, scalar(rng, v), tail))
    return out

# ---------------------------------------------------------------- trees
def leaves(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict) and v and k not in ('Init_Multiplicities', 'Particles') and not (k == 'Lambda'):
            yield from leaves(v, pre + (k,))
        elif pre and pre[0] == 'Output' and k == 'Particles' and isinstance(v, dict):
            yield from leaves(v, pre + (k,))
        else:
            yield pre + (k,)

def sections(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict) and v and (k != 'Init_Multiplicities') and not (k == 'Particles' and pre[:1] != ('Output',)):
            yield pre + (k,)
            yield from sections(v, pre + (k,))

def get(d, path):
    for k in path:
        d = d[k]
    return d

def put(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v

def drop(d, path):
    if len(path) == 1:
        del d[path[0]]
        return
    drop(d[path[0]], path[1:])
    if d[path[0]] == {}:
        del d[path[0]]

def decoy(rng, v):
    """another value of the same kind: what an override hides has no effect"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.randrange(1, 5)
    if isinstance(v, float):
        return round(v * rng.uniform(.3, 3) + .01, 3)
    return v

TYPES = {}
def typ(path, cfg):
    v = get(cfg, path)
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int) and path[-1] in INT:
        return 'int'
    if isinstance(v, (int, float)) and path[-1] not in INT:
        return 'double'
    if isinstance(v, str) and path[-1] in ENUM:
        return 'enum'
    if isinstance(v, list):
        return 'list'
    return None

INT = {'Nevents', 'Ensembles', 'Testparticles', 'Randomseed', 'Jet_PDG', 'Event_Spacing'}
ENUM = {'Modus', 'Time_Step_Mode', 'Collision_Criterion', 'Total_Cross_Section_Strategy', 'NNbar_Treatment', 'Pseudoresonance',
        'Initial_Condition', 'Calculation_Frame', 'Fermi_Motion', 'Sample', 'Only_Final', 'Spin_Interactions'}
BAD = {'bool': ['maybe', 2, 0.5, [], [True], {'a': True}, ''],
       'int': ['many', 1.5, [], [1], {'a': 1}, '1 2', '0x', ''],
       'double': ['much', [], [1.0], {'a': 1.0}, '1,5', '1.5 fm', ''],
       'enum': ['Nonsense', 3, [], {'a': 'b'}, ''],
       'list': [{'a': 1}]}
RANGE = {('General', 'Delta_Time'): [0.0, -0.1, 1e-7], ('General', 'Ensembles'): [0, -2],
         ('General', 'Testparticles'): [0, -3], ('General', 'End_Time'): [-1.0],
         ('Output', 'Output_Interval'): [0.0, -1.0, 1e-7], ('Lattice', 'Sizes'): [[-1., 2., 2.]] if False else [[1., 2.]],
         ('Output', 'Particles', 'Format'): [['Nonsense'], ['Binary', 'Nonsense'], []], ('Output', 'Collisions', 'Format'): [['Nonsense'], []],
         ('Output', 'Collisions', 'Quantities'): [['Nonsense'], []], ('Collision_Term', 'Included_2to2'): [['Nonsense']],
         ('Collision_Term', 'Multi_Particle_Reactions'): [['Nonsense']]}
REQUIRED = [('General', 'Modus'), ('General', 'End_Time'), ('General', 'Nevents'), ('General', 'Randomseed'), ('Modi', 'Box', 'Length'), ('Modi', 'Box', 'Temperature'),
            ('Modi', 'Box', 'Initial_Condition'), ('Modi', 'Box', 'Start_Time'), ('Modi', 'Sphere', 'Radius'), ('Modi', 'Sphere', 'Temperature'),
            ('Modi', 'Sphere', 'Start_Time'), ('Modi', 'List', 'File_Directory'), ('Modi', 'Collider', 'Projectile'),
            ('Modi', 'Collider', 'Target'), ('Output', 'Particles', 'Format')]
CONTRADICTIONS = ['two output clocks', 'two energies', 'two event counts', 'box without time steps', 'stochastic without grid', 'photon output alone',
                  'dilepton output alone', 'dileptons without output', 'same file twice', 'ensembles of lists', 'nnbar', 'end before start',
                  'no formats', 'interval', 'stochastic without time steps', 'only final and times', 'no motion', 'energy below mass',
                  'quantum and thermal']
def contradiction(rng, c, f):
    g, ct, out = c['General'], c['Collision_Term'], c['Output']
    m = c['Modi'][g['Modus']]
    if f == 'two output clocks':
        out.pop('Output_Times', None)
        out['Output_Interval'], out['Output_Times'] = 1.0, [.5, 1.0]
    elif f == 'two energies' and g['Modus'] == 'Collider':
        m.update({'E_Kin': 1.0, 'Sqrtsnn': 3.0, 'P_Lab': 2.0} if rng.random() < .5 else {'E_Tot': 3.0, 'E_Kin': 1.0})
    elif f == 'two event counts':
        g['Minimum_Nonempty_Ensembles'] = {'Number': 2, 'Maximum_Ensembles_Run': 5}
    elif f == 'box without time steps' and g['Modus'] in ('Box', 'ListBox'):
        g['Time_Step_Mode'] = 'None'
    elif f == 'stochastic without grid' and ct.get('Collision_Criterion') == 'Stochastic':
        g['Use_Grid'] = False
    elif f == 'stochastic without time steps' and ct.get('Collision_Criterion') == 'Stochastic':
        g['Time_Step_Mode'] = 'None'
    elif f == 'photon output alone':
        ct.pop('Photons', None)
        out['Photons'] = {'Format': ['Oscar2013']}
    elif f == 'dilepton output alone':
        ct.pop('Dileptons', None)
        out['Dileptons'] = {'Format': ['Oscar2013']}
    elif f == 'dileptons without output':
        out.pop('Dileptons', None)
        ct['Dileptons'] = {'Decays': True}
    elif f == 'same file twice':
        out['Particles'] = {'Format': ['Oscar1999', 'Oscar2013']}
    elif f == 'ensembles of lists' and g['Modus'] in ('List', 'ListBox'):
        g['Ensembles'] = 2
    elif f == 'nnbar' and ct.get('NNbar_Treatment') == 'no annihilation' and 'Included_2to2' in ct:
        ct['NNbar_Treatment'] = 'resonances'
        ct['Included_2to2'] = ['Elastic', 'NN_to_NR']
    elif f == 'end before start' and g['Modus'] in ('Box', 'Sphere'):
        m['Start_Time'] = g['End_Time'] + 1
    elif f == 'lattice missing' and 'Lattice' not in c:
        out['Thermodynamics'] = {'Format': ['Lattice_ASCII'], 'Quantities': ['rho_eckart'], 'Type': 'hadron'}
    elif f == 'no formats':
        out['Collisions'] = {'Print_Start_End': True}
    elif f == 'no motion' and g['Modus'] == 'Collider':
        for k in ('E_Kin', 'E_Tot', 'P_Lab', 'Sqrtsnn'):
            m.pop(k, None)
            m['Projectile'].pop(k, None)
            m['Target'].pop(k, None)
        if rng.random() < .5:
            m[rng.choice(['E_Kin', 'P_Lab'])] = 0.0
        else:
            k = rng.choice(['E_Kin', 'P_Lab'])
            m['Projectile'][k] = m['Target'][k] = 0.0
    elif f == 'energy below mass' and g['Modus'] == 'Collider':
        for k in ('E_Kin', 'E_Tot', 'P_Lab', 'Sqrtsnn'):
            m.pop(k, None)
            m['Projectile'].pop(k, None)
            m['Target'].pop(k, None)
        k = rng.randrange(3)
        if k == 0:
            m['E_Tot'] = gen.r3(rng, 0, .1)
        elif k == 1:
            m['Sqrtsnn'] = gen.r3(rng, 0, .2)
        else:
            m['Projectile']['E_Tot'], m['Target']['E_Tot'] = (gen.r3(rng, 0, .1), 2.) if rng.random() < .5 else (2., gen.r3(rng, 0, .1))
    elif f == 'quantum and thermal' and g['Modus'] in ('Box', 'Sphere'):
        m['Use_Thermal_Multiplicities'], m['Initial_Condition'] = True, 'thermal momenta quantum'
        m.pop('Init_Multiplicities', None)
    elif f == 'interval':
        out.pop('Output_Times', None)
        out['Output_Interval'] = -1.0
    else:
        return None
    return f
WORDS = ['Foo', 'Nevent', 'Delta_time', 'Seed', 'x', 'Output', 'General', 'Format', '1', 'Modus', 'ä', 'Length', 'Sqrtsnn', 'Time', '']

def misspell(rng, k):
    j = rng.randrange(len(k))
    return rng.choice([k[:j] + k[j + 1:], k[:j] + k[j] + k[j:], k.lower(), k + 's', k + ' ', k.replace('_', ' '), k[:j] + 'q' + k[j + 1:]])

PREFIXES = ('Logging',)

class C17(Check):
    id = 'C17'
    quick_n, thorough_n = 1500, 60000
    rule = 'distinct outputs of accepted and distinct messages of refused configurations'
    assumptions = ('PYTHIA is replaced by a stub, so strings are switched off', 'which values are out of range is taken from the user guide for a fixed list of keys')
    technique = ('deterministic simulation: generated configurations, written, layered, damaged and cut in many ways, run through the whole program; '
                 'equivalent ones have to give identical output, wrong ones an orderly refusal before any event')
    def gen(self, rng, i, tier):
        mode = rng.choice(['echo', 'effect', 'layers', 'layers', 'unknown', 'unknown', 'invalid', 'invalid', 'damage', 'options'])
        case = gen.run_case(rng, {'n': 10, 'end': 2.0})
        case['config']['Output']['Particles']['Format'] = ['Binary']
        if rng.random() < .5:
            case['features'] = features.add_features(rng, case)
        if rng.random() < .4:
            features.rich_outputs(rng, case['config'], keep_binary=rng.random() < .5)
        case['mode'] = mode
        case['weather'] = runbase.weather(rng)
        cfg = case['config']
        if mode == 'layers':
            self.gen_layers(rng, case)
        elif mode == 'unknown':
            self.gen_unknown(rng, case)
        elif mode == 'invalid':
            self.gen_invalid(rng, case)
        elif mode == 'damage':
            self.gen_damage(rng, case)
        elif mode == 'effect':
            self.gen_effect(rng, case)
        elif mode == 'options':
            case['bad'] = rng.choice([['-e', 'soon'], ['-e', ''], ['-e', '1.5x'], ['-m', 'Nonsense'], ['-m', ''], ['-i', '@IN@/nowhere.yaml'], ['-i', '@IN@'], ['-p', '@IN@/nowhere'],
                                      ['-d', '@IN@/nowhere'], ['stray'], ['-Z'], ['--nonsense'], ['-c', 'General: {Nevents: 1'], ['-c', 'a'], ['-c', '[1, 2]'], ['-c'], ['-o'],
                                      ['-c', 'General:\n  Foo: 1'], ['-e', 'nan'], ['-c', 'General: {Nevents: none}']])
        else:
            if rng.random() < .3:
                cfg['General']['Randomseed'] = -1
            case['cli'] = []
            if rng.random() < .3:
                case['cli'] = ['-e', repr(cfg['General']['End_Time'] + rng.random() / 7)]
            if rng.random() < .3:
                m = cfg['Modi'][cfg['General']['Modus']]
                for k in ('Temperature', 'Radius', 'Initial_Distance'):
                    if isinstance(m.get(k), float):
                        m[k] += rng.random() * 1e-9
            if rng.random() < .3:
                case['cli'] += ['-c', json.dumps({'General': {'Delta_Time': cfg['General']['Delta_Time'] * rng.uniform(.8, 1)}})]
        return case
    def gen_effect(self, rng, case):
        """one entry is changed in a way the particles cannot stay the same"""
        cfg = case['config']
        out = cfg['Output']
        out['Particles'] = {'Format': ['Binary'], 'Quantities': ['t', 'x', 'y', 'z', 'mass', 'p0', 'px', 'py', 'pz', 'pdg', 'ID', 'charge'], 'Only_Final': 'No'}
        g = cfg['General']
        modus = g['Modus']
        gen_ = [('General', 'Nevents'), ('General', 'End_Time')]
        per = {'Box': [('General', 'Randomseed'), ('Modi', 'Box', 'Temperature'), ('Modi', 'Box', 'Start_Time'), ('Modi', 'Box', 'Length'), ('Modi', 'Box', 'Init_Multiplicities')],
               'Sphere': [('General', 'Randomseed'), ('Modi', 'Sphere', 'Temperature'), ('Modi', 'Sphere', 'Radius'), ('Modi', 'Sphere', 'Start_Time'),
                          ('Modi', 'Sphere', 'Init_Multiplicities')],
               'Collider': [('Modi', 'Collider', k) for k in ('E_Kin', 'Sqrtsnn', 'P_Lab', 'Initial_Distance')] + [('Modi', 'Collider', 'Impact', 'Value')]}.get(modus, [])
        per = [p for p in per if self.has(cfg, p)]
        if 'Use_Thermal_Multiplicities' in cfg['Modi'][modus]:
            per = [p for p in per if p[-1] != 'Init_Multiplicities']
        if modus in ('List', 'ListBox'):
            gen_ = [('General', 'End_Time')]
        if rng.random() < .6 and 'Ensembles' not in g and modus not in ('List', 'ListBox'):
            gen_.append(('General', 'Ensembles'))
        p = rng.choice(gen_ + per)
        c = copy.deepcopy(cfg)
        v = get(cfg, p) if self.has(cfg, p) else None
        k = p[-1]
        if k == 'Nevents' or k == 'Randomseed':
            v += rng.randrange(1, 3)
        elif k == 'Ensembles':
            v = 2
        elif k == 'Init_Multiplicities':
            v = dict(v)
            n = rng.choice(sorted(v))
            v[n] += 1
        elif k == 'Start_Time':
            v = v + (g['End_Time'] - v) / 3
        else:
            v = v + rng.choice([1e-3, .1, .5])
        put(c, p, v)
        case['changed'] = c
        case['path'] = list(p)
    def run_effect(self, case, st, runs):
        r = self.plain(case, st, runs)
        if r is None or 'particles_custom.bin' not in r.files():
            return Outcome(None, None, st)
        o = dict(case, config=case['changed'])
        s = core.smash(o, env=case['weather'])
        runs.append(s)
        st['runs'] += 1
        if s.rc or s.timeout:
            st['not a valid run'] = 1
            return Outcome(None, None, st)
        a, b = (x.files()['particles_custom.bin'] for x in (r, s))
        what = '%s: %r or %r' % (': '.join(case['path']), get(case['config'], case['path']) if self.has(case['config'], case['path']) else None, get(case['changed'], case['path']))
        if not any(blk.parts for blk in outputs.read_binary(r.path('particles_custom.bin'), case['config']['Output']['Particles']['Quantities'])[3]):
            st['no particles'] = 1
            return Outcome(None, None, st)
        if a == b:
            raise Violation('ignored', '%s makes no difference' % what)
        dig = hashlib.sha1(a + b).hexdigest()[:12]
        return Outcome(None, case['path'][-1] + dig, st, what, dig)
    def gen_layers(self, rng, case):
        """the same configuration, written differently and spread over the file and -c, -m, -e"""
        cfg = case['config']
        base = copy.deepcopy(cfg)
        extra = []
        opts = []
        ls = [p for p in leaves(cfg) if not (p[0] == 'Modi' and p[-1] in ('Filename', 'File_Directory'))]
        for p in rng.sample(ls, rng.randrange(0, min(len(ls), 9))):
            v = get(cfg, p)
            hide = rng.choice(['gone', 'decoy', 'wrong', 'twice'])
            if isinstance(v, dict):
                continue                  # maps are merged, not replaced
            if hide == 'gone':
                drop(base, p)
            elif hide == 'decoy':
                put(base, p, decoy(rng, v))
            elif hide == 'wrong':
                put(base, p, 'nonsense')
            d = {}
            if hide == 'twice':
                put(d, p, decoy(rng, v))
                extra.append(d)
                d = {}
            put(d, p, v)
            extra.append(d)
        if rng.random() < .3:
            opts += [rng.choice(['-m', '--modus']), cfg['General']['Modus']]
            if rng.random() < .5:
                base.get('General', {}).pop('Modus', None)
        if rng.random() < .3:
            t = cfg['General']['End_Time']
            opts += [rng.choice(['-e', '--endtime']), repr(t)]
            if rng.random() < .5 and base.get('General'):
                base['General']['End_Time'] = decoy(rng, t)
        # some overrides in one document
        docs = []
        while extra:
            n = 1 if rng.random() < .7 else rng.randrange(1, 4)
            d = {}
            for e in extra[:n]:
                core_merge(d, e)
            extra = extra[n:]
            docs.append(d)
        style = rng.choice(['json', 'block'])
        case['layers'] = {'base': '\n'.join(write_yaml(rng, base)) + '\n' if rng.random() < .8 else json.dumps(base, ensure_ascii=False),
                          'docs': [json.dumps(d, ensure_ascii=False) if style == 'json' else '\n'.join(write_yaml(rng, d)) for d in docs],
                          'opts': opts, 'order': rng.random() < .5}
    def gen_unknown(self, rng, case):
        cfg = case['config']
        c = copy.deepcopy(cfg)
        how = rng.choice(['new', 'new', 'misspelt', 'section', 'deep', 'other'])
        secs = [()] + [s for s in sections(cfg)]
        s = rng.choice(secs)
        if how == 'new':
            put(c, s + (rng.choice(WORDS[:6]) if rng.random() < .7 else rng.choice(WORDS),), rng.choice([1, 'a', 0.5, True, [1, 2], {'a': 1}]))
        elif how == 'misspelt':
            p = rng.choice(list(leaves(cfg)))
            k = rng.randrange(len(p))
            new = misspell(rng, str(p[k]))
            d = get(c, p[:k])
            if new in d:
                new += 'x'
            d[new] = d.pop(p[k])
        elif how == 'section':
            put(c, s + ('Extra', 'Deeper', 'Key'), 1)
        elif how == 'deep':
            p = rng.choice(list(leaves(cfg)))
            put(c, p, {'Value': get(cfg, p)})
        else:     # a key of another modus or of something switched off
            put(c, rng.choice([('Modi', 'Collider', 'Foo'), ('Modi', 'Box', 'Radius'), ('Modi', 'Sphere', 'Length'), ('General', 'Length'), ('Modus',), ('End_Time',),
                               ('Output', 'Format'), ('Output', 'Particles', 'Interval'), ('Output', 'Nonsense', 'Format'), ('Collision_Term', 'Photons', 'Foo'),
                               ('Collision_Term', 'String_Parameters', 'Foo'), ('Potentials', 'Foo'), ('Potentials', 'Skyrme', 'Foo'), ('Lattice', 'Foo'),
                               ('Logging', 'Nonsense'), ('Forced_Thermalization', 'Foo'), ('Collision_Term', 'Pauli_Blocking', 'Foo')]), 1)
        case['wrong'] = c
        case['where'] = 'file' if rng.random() < .7 else 'override'
        case['how'] = how
    def gen_invalid(self, rng, case):
        cfg = case['config']
        c = copy.deepcopy(cfg)
        k = rng.random()
        if k < .6:
            ls = [(p, typ(p, cfg)) for p in leaves(cfg) if typ(p, cfg)]
            p, t = rng.choice(ls)
            v = rng.choice(BAD[t])
            put(c, p, v)
            case['how'] = '%s for %s' % (type(v).__name__ if v != '' else 'nothing', t)
        elif k < .85:
            ps = [p for p in RANGE if self.has(cfg, p)]
            p = rng.choice(ps)
            v = rng.choice(RANGE[p])
            put(c, p, v)
            case['how'] = 'range'
        elif k < .92:
            ps = [p for p in REQUIRED if self.has(cfg, p)]
            p, v = rng.choice(ps), None
            drop(c, p)
            case['how'] = 'missing'
        else:
            for f in rng.sample(CONTRADICTIONS, len(CONTRADICTIONS)):
                p, v = ('contradiction', f), contradiction(rng, c, f)
                if v:
                    break
            case['how'] = 'contradiction'
        case['path'] = list(p)
        case['value'] = v
        case['wrong'] = c
        case['where'] = 'file'
    def gen_damage(self, rng, case):
        """arbitrary damage to the text: anything goes but a crash or a hang"""
        t = '\n'.join(write_yaml(rng, case['config'])) + '\n' if rng.random() < .7 else json.dumps(case['config'], ensure_ascii=False, indent=1)
        for _ in range(rng.choice([1, 1, 2, 5])):
            k = rng.randrange(9)
            j = rng.randrange(len(t) or 1)
            ls = t.split('\n')
            n = rng.randrange(len(ls))
            if k == 0:
                t = t[:j]
            elif k == 1:
                t = t[:j] + t[j + 1:]
            elif k == 2:
                t = t[:j] + rng.choice([':', '-', '{', '}', '[', ']', '\t', '"', "'", '&a', '*a', '!x', '|', '>', '%', '@', '\x00', '\xe9', '\u2028', '\r', '#', ',', '?', ': ', '- ']) + t[j:]
            elif k == 3:
                ls.insert(rng.randrange(len(ls)), ls[n])
                t = '\n'.join(ls)
            elif k == 4:
                del ls[n]
                t = '\n'.join(ls)
            elif k == 5:
                ls[n] = rng.choice([' ', '  ', '\t', '']) + ls[n].lstrip() if rng.random() < .5 else ' ' + ls[n]
                t = '\n'.join(ls)
            elif k == 6:
                t = t[:j] + t[j:j + rng.randrange(60)] + t[j:]
            elif k == 7:
                t = rng.choice(['', '\n', '---\n', '42', '[1, 2]', 'a', 'General: {}', 'General:', 'Modi: {Box: }', 'Modi: {Box: 5}', 'Modi: 3', 'Output: {Particles: 3}', '{}', '? a\n: b',
                                'General:\n  Modus: Box\n', t + '---\n' + t, t + t])
            else:
                w = rng.choice(['.nan', '.inf', '-.inf', '1e-320', '~', 'null', '-0.0', '0', '1e308', '-1', '99999999999999999999', 'true'])
                ps = [p for p in leaves(case['config']) if isinstance(get(case['config'], p), (int, float)) and p[-1] not in BIG]
                c = copy.deepcopy(case['config'])
                p = rng.choice(ps)
                put(c, p, '@@')
                t = json.dumps(c, ensure_ascii=False, indent=1).replace('"@@"', w)
                case['number'] = [list(p), w]
        case['text'] = t
    def has(self, cfg, p):
        try:
            get(cfg, p)
            return True
        except (KeyError, TypeError):
            return False
    # ------------------------------------------------------------ running
    def text_run(self, case, text, args=(), timeout=60):
        """the program with a configuration given as text"""
        root = core.fresh_root()
        ind = core.write_case(case, root)
        with open(os.path.join(ind, 'config.yaml'), 'w', encoding='utf-8', newline='', errors='surrogatepass') as h:
            h.write(text.replace('@IN@', ind))
        core.put_tabs(root, case['universe'])
        pf, df = core.universe_files(case['universe'])
        out = os.path.join(root, 'out')
        a = ['smash', '-i', os.path.join(ind, 'config.yaml'), '-p', pf, '-d', df, '-o', out] + [x.replace('@IN@', ind) for x in args]
        r = core.call(a, dict({'SIM_ROOT': root, 'SIM_SEED': 1}, **case['weather']), root, timeout, root)
        r.outdir, r.trace = out, ''
        return r
    def execute(self, case):
        st = {'runs': 1, 'mode ' + case['mode']: 1}
        for k, v in runbase.weather_stats(case['weather']).items():
            st[k] = v
        runs = []
        try:
            return getattr(self, 'run_' + case['mode'])(case, st, runs)
        finally:
            for r in runs:
                r.clean()
    def plain(self, case, st, runs):
        r = core.smash(case, env=case['weather'])
        runs.append(r)
        if r.timeout or core.crashed(r) or r.rc:
            st['not a valid run'] = 1
            return None
        st['simulated time fm'] = runbase.sim_time(case)
        return r
    def run_echo(self, case, st, runs):
        r = core.smash(case, env=case['weather'], extra=case['cli'])
        runs.append(r)
        if r.timeout or core.crashed(r) or r.rc:
            st['not a valid run'] = 1
            return Outcome(None, None, st)
        st['simulated time fm'] = runbase.sim_time(case)
        a = r.files()
        echo = a['config.yaml']
        root = core.fresh_root()
        ind = core.write_case(case, root)
        old = os.path.join(r.root, 'in').encode()
        with open(os.path.join(root, 'echo.yaml'), 'wb') as h:
            h.write(echo.replace(old, ind.encode()))
        core.put_tabs(root, case['universe'])
        out = os.path.join(root, 'out')
        s = core.call(['smash', '-i', os.path.join(root, 'echo.yaml'), '-o', out], dict({'SIM_ROOT': root, 'SIM_SEED': 5}), root, 60, root)
        s.outdir, s.trace = out, ''
        runs.append(s)
        st['runs'] += 1
        finished(s, 'the run from the echoed configuration')
        b = s.files()
        a.pop('config.yaml')
        e2 = b.pop('config.yaml').replace(ind.encode(), old)
        compare(a, b, 'run and its repetition from the echoed configuration')
        if sorted(l for l in e2.split(b'\n')) != sorted(l for l in echo.split(b'\n')):
            raise Violation('echo', 'the echo of the echo differs from it')
        dig = hashlib.sha1(repr(sorted(a.items())).encode()).hexdigest()[:12]
        if case['config']['General']['Randomseed'] == -1:
            st['seed drawn by the program'] = 1
        return Outcome(None, dig, st, 'echo', dig if case['config']['General']['Randomseed'] != -1 else '')
    def run_layers(self, case, st, runs):
        r = self.plain(case, st, runs)
        if r is None:
            return Outcome(None, None, st)
        l = case['layers']
        args = []
        for d in l['docs']:
            args += ['-c', d]
        args = l['opts'] + args if l['order'] else args + l['opts']
        s = self.text_run(case, l['base'], args)
        runs.append(s)
        st['runs'] += 1
        finished(s, 'the same configuration written differently')
        a, b = r.files(), s.files()
        a.pop('config.yaml')
        b.pop('config.yaml')
        compare(a, b, 'the same configuration in one file and spread over file and command line')
        st['overrides'] = len(l['docs']) + len(l['opts']) // 2
        dig = hashlib.sha1(repr(sorted(a.items())).encode()).hexdigest()[:12]
        return Outcome(None, dig, st, '%d overrides' % len(l['docs']), dig)
    def refused(self, case, r, what, st):
        if r.timeout:
            raise Violation('hang', '%s does not come to an end' % what)
        if core.crashed(r):
            raise Violation('crash', '%s: %s' % (what, core.crashed(r)))
        if r.rc == 0:
            raise Violation('accepted', '%s is accepted without a word' % what)
        log = r.log()
        if 'FATAL' not in log and 'ERROR' not in log:
            raise Violation('silent', '%s is refused without a message' % what)
        if 'Event 0' in log and what.find('end before start') < 0:   # the start time is known only once an event is set up
            raise Violation('late', '%s is refused only after the first event was started: %s' % (what, runbase.fatal(r)))
        done = [n for n in r.files() if n != 'config.yaml' and '.unfinished' not in n and n != 'smash.lock'] if os.path.isdir(r.outdir) else []
        if done:
            raise Violation('late', '%s is refused but left %s' % (what, done[:3]))
    def run_unknown(self, case, st, runs):
        if case['where'] == 'file':
            text, args = json.dumps(case['wrong'], ensure_ascii=False), []
        else:
            text, args = json.dumps(case['config'], ensure_ascii=False), ['-c', json.dumps(diff(case['config'], case['wrong']), ensure_ascii=False)]
        if case['where'] == 'override' and args[1] == '{}':
            return Outcome(None, None, st)
        r = self.text_run(case, text, args)
        runs.append(r)
        what = 'a configuration with an unknown entry (%s)' % json.dumps(diff(case['config'], case['wrong']), ensure_ascii=False)
        self.refused(case, r, what, st)
        st['fault: unknown key'] = 1
        m = message(r)
        return Outcome(None, m, st, 'unknown', m)
    def run_invalid(self, case, st, runs):
        r = self.text_run(case, json.dumps(case['wrong'], ensure_ascii=False))
        runs.append(r)
        what = 'a configuration %s %s' % ('without' if case['how'] == 'missing' else 'with', ': '.join(map(str, case['path'])) + ('' if case['how'] == 'missing' else ': ' + json.dumps(case['value'])))
        self.refused(case, r, what, st)
        st['fault: invalid value (%s)' % case['how'].split(' ')[0]] = 1
        m = message(r)
        return Outcome(None, m, st, case['how'], m)
    def run_options(self, case, st, runs):
        r = self.text_run(case, json.dumps(case['config'], ensure_ascii=False), case['bad'])
        runs.append(r)
        st['fault: bad option'] = 1
        what = 'the option %s' % ' '.join(case['bad'])
        if r.timeout or core.crashed(r):
            raise Violation('crash', '%s: %s' % (what, core.crashed(r) or 'hang'))
        if r.rc == 0:
            raise Violation('accepted', '%s is accepted without a word' % what)
        if 'Event 0' in r.log():
            raise Violation('late', '%s is refused only after the first event was started' % what)
        m = ' '.join(case['bad']) + ': ' + message(r)
        return Outcome(None, m, st, what, m)
    def run_damage(self, case, st, runs):
        r = self.text_run(case, case['text'], timeout=30)
        runs.append(r)
        st['fault: damaged document'] = 1
        if r.timeout:
            if case.get('number'):
                st['long run'] = 1
                return Outcome(None, None, st)
            raise Violation('hang', 'a damaged configuration does not come to an end')
        if core.crashed(r) and 'Floating point trap' not in r.log() and 'Pythia stub reached' not in r.log():
            raise Violation('crash', 'a damaged configuration %s: %s' % (case.get('number', ''), core.crashed(r)))
        m = message(r) if r.rc else 'accepted'
        return Outcome(None, m, st, 'damage', m)
    def shrink(self, case):
        if len(case['weather']) > 1:
            yield dict(copy.deepcopy(case), weather={'SIM_SEED': 1})
        if case['mode'] == 'layers':
            for k in range(len(case['layers']['docs'])):
                pass
        if case['mode'] == 'damage':
            ls = case['text'].split('\n')
            for k in range(len(ls)):
                yield dict(copy.deepcopy(case), text='\n'.join(ls[:k] + ls[k + 1:]))
        if case['mode'] == 'echo':
            yield from runbase.shrink_run(case)

BIG = {'Nevents', 'Ensembles', 'Testparticles', 'Randomseed', 'End_Time'}

def core_merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            core_merge(a[k], v)
        else:
            a[k] = v

def diff(a, b):
    """what has to be merged into a to get the new entries of b"""
    d = {}
    for k, v in b.items():
        if k not in a:
            d[k] = v
        elif isinstance(v, dict) and isinstance(a[k], dict):
            x = diff(a[k], v)
            if x:
                d[k] = x
        elif v != a[k] or type(v) is not type(a[k]):
            d[k] = v
    return d

def message(r):
    import re
    t = runbase.fatal(r)
    return re.sub(r'[0-9./]+', '#', core.strip_root(t))[:160]
