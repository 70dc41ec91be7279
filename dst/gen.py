"""Seeded generation of whole SMASH runs (configuration, universe, input files)."""
import math, random
import outputs

QUANT = outputs.EXT + ['perturbative_weight']     # a custom binary list: doubles and int32

MESONS = {'211': 8, '111': 6, '-211': 8, '213': 2, '113': 2, '221': 2, '331': 1, '9000221': 1, '333': 1,
          '321': 3, '-321': 3, '311': 2, '313': 1, '223': 1}
BARYONS = {'2212': 6, '2112': 6, '2224': 2, '1114': 1, '2214': 1, '3122': 2, '3212': 1, '3114': 1,
           '-2212': 2, '-2112': 2, '-2224': 1, '12212': 1, '22112': 1, '3124': 1, '3312': 1}
PI = {'211': 8, '111': 6, '-211': 8, '213': 3, '113': 3, '9000221': 2, '2212': 4, '2112': 4, '2224': 2,
      '-2212': 2}

def r3(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)

def pick_species(rng, universe, total, only=None):
    pool = dict(only) if only else dict(PI) if universe == 'pi' else {**MESONS, **BARYONS}
    k = min(len(pool), rng.choice([1, 2, 3, 4, 6, 9]))
    names = rng.sample(sorted(pool), k)
    m = {}
    for n in names:
        m[int(n)] = 1 + rng.randrange(max(1, 2 * total // k))
    return m

def logging(rng=None):
    return {'default': 'ERROR', 'Experiment': 'INFO', 'Main': 'INFO'}

def collision_term(rng, modus, universe, profile):
    ct = {'Strings': False}
    crit = profile.get('criterion') or rng.choice(['Covariant', 'Covariant', 'Geometric', 'Stochastic'])
    if profile.get('no_stochastic') and crit == 'Stochastic':
        crit = 'Geometric'
    ct['Collision_Criterion'] = crit
    kind = profile.get('reactions') or rng.choice(['full', 'full', 'full', 'elastic', 'resonance', 'nocoll'])
    if kind == 'nocoll' and not profile.get('allow_nocoll', True):
        kind = 'full'
    if kind == 'elastic':
        ct['Elastic_Cross_Section'] = r3(rng, 5, 60, 1)
        ct['Two_to_One'] = False
        ct['Included_2to2'] = ['Elastic']
        ct['Total_Cross_Section_Strategy'] = 'BottomUp'
        ct['Isotropic'] = rng.random() < 0.5
        ct['NNbar_Treatment'] = 'no annihilation'
    elif kind == 'resonance':
        ct['Included_2to2'] = []
        ct['NNbar_Treatment'] = 'no annihilation'
        ct['Total_Cross_Section_Strategy'] = 'BottomUp'
        if rng.random() < .5:
            ct['Elastic_Cross_Section'] = r3(rng, 1, 30, 1)
    elif kind == 'nocoll':
        ct['No_Collisions'] = True
    else:
        ct['Total_Cross_Section_Strategy'] = rng.choice(['BottomUp', 'BottomUp', 'TopDown', 'TopDownMeasured'])
        ct['NNbar_Treatment'] = rng.choice(['no annihilation', 'resonances']) if universe == 'std' else 'no annihilation'
        if rng.random() < .3:
            ct['Included_2to2'] = rng.sample(['NN_to_NR', 'NN_to_DR', 'KN_to_KN', 'KN_to_KDelta', 'Strangeness_exchange',
                                              'Elastic', 'NNbar'], rng.randrange(1, 6))
            if ct['NNbar_Treatment'] == 'resonances' and 'NNbar' not in ct['Included_2to2']:
                ct['Included_2to2'].append('NNbar')
            if 'Elastic' not in ct['Included_2to2'] and rng.random() < .5:
                ct['Included_2to2'].append('Elastic')
        if rng.random() < .3:
            ct['Use_AQM'] = rng.random() < .5
        if rng.random() < .2:
            ct['Additional_Elastic_Cross_Section'] = r3(rng, 1, 10, 1)
        if rng.random() < .2:
            ct['Cross_Section_Scaling'] = r3(rng, 0.5, 2.0, 2)
        if rng.random() < .3:
            ct['Isotropic'] = True
        if rng.random() < .2:
            ct['Pseudoresonance'] = rng.choice(['None', 'Largest', 'Closest', 'LargestFromUnstable', 'ClosestFromUnstable'])
    if crit == 'Stochastic':
        ct['Fixed_Min_Cell_Length'] = r3(rng, 1.0, 3.0, 2)
        if kind != 'nocoll':
            ct['Only_Warn_For_High_Probability'] = True
        if rng.random() < .6 and kind == 'full':
            mp = rng.sample(['Meson_3to1', 'Deuteron_3to2', 'NNbar_5to2', 'A3_Nuclei_4to2'], rng.randrange(1, 3))
            if 'NNbar_5to2' in mp:
                ct['NNbar_Treatment'] = 'two to five'
                ct.setdefault('Included_2to2', ['NN_to_NR', 'NN_to_DR', 'KN_to_KN', 'KN_to_KDelta', 'NNbar', 'Elastic'])
                if 'Included_2to2' in ct and 'NNbar' not in ct['Included_2to2']:
                    ct['Included_2to2'].append('NNbar')
            if universe == 'pi':
                mp = [x for x in mp if x in ('NNbar_5to2',)]
            mp = [x for x in mp if x != 'A3_Nuclei_4to2']
            if mp:
                ct['Multi_Particle_Reactions'] = mp
                if 'Deuteron_3to2' in mp and 'Included_2to2' not in ct:
                    ct['Included_2to2'] = ['NN_to_NR', 'NN_to_DR', 'KN_to_KN', 'KN_to_KDelta', 'Elastic']
                    if ct['NNbar_Treatment'] != 'no annihilation':
                        ct['Included_2to2'].append('NNbar')
    elif rng.random() < .3:
        ct['Maximum_Cross_Section'] = r3(rng, 50, 400, 0)
    if rng.random() < .4:
        ct['Force_Decays_At_End'] = rng.random() < .5
    if rng.random() < .2:
        ct['Decay_Initial_Particles'] = rng.random() < .5
    if rng.random() < .15:
        ct['Resonance_Lifetime_Modifier'] = rng.choice([0.3, 0.5, 2.0, 10.0])
    if rng.random() < .15:
        ct['Ignore_Minimum_Decay_Width_For_Decays_At_The_End'] = True
    if profile.get('spin') and rng.random() < .2:
        ct['Spin_Interactions'] = 'Elastic'
    return ct, kind

def outputs_section(rng, end, profile):
    out = {'Collisions': {'Format': ['Binary'], 'Quantities': QUANT, 'Print_Start_End': True},
           'Particles': {'Format': ['Binary'], 'Quantities': QUANT, 'Only_Final': 'No'}}
    if rng.random() < .7:
        out['Output_Interval'] = r3(rng, 0.1, max(0.2, end), 3)
    else:
        out['Output_Times'] = sorted({r3(rng, 0.0, end, 2) for _ in range(rng.randrange(1, 6))})
    return out

def general(rng, modus, end, profile):
    g = {'Modus': modus, 'End_Time': end, 'Randomseed': rng.randrange(1, 2**62),
         'Nevents': rng.choice(profile.get('nevents', [1, 1, 2, 3]))}
    if modus in ('Box', 'ListBox'):
        mode = 'Fixed'
    else:
        mode = rng.choice(['Fixed', 'Fixed', 'None'])
    g['Time_Step_Mode'] = mode
    g['Delta_Time'] = rng.choice([0.1, 0.1, r3(rng, 0.02, 0.5, 3)])
    if rng.random() < .25 and modus not in ('List', 'ListBox') and not profile.get('one_ensemble'):
        g['Ensembles'] = rng.randrange(2, 5)
    if rng.random() < .2 and not profile.get('no_testparticles'):
        g['Testparticles'] = rng.randrange(2, 4)
    if rng.random() < .2 and mode == 'Fixed':
        g['Use_Grid'] = False
    return g

NUCLEI = [({2212: 1}, 'p'), ({2112: 1}, 'n'), ({2212: 1, 2112: 1}, 'd'), ({2212: 2, 2112: 2}, 'He'),
          ({2212: 6, 2112: 6}, 'C'), ({211: 1}, 'pi'), ({-2212: 1}, 'pbar'), ({321: 1}, 'K'), ({2212: 3, 2112: 4}, 'Li')]

def collider_section(rng, profile):
    c = {}
    a, b = rng.choice(NUCLEI), rng.choice(NUCLEI)
    if rng.random() < .3:
        a = b = NUCLEI[rng.choice([3, 4, 8])]
    c['Projectile'] = {'Particles': {str(k): v for k, v in a[0].items()}}
    c['Target'] = {'Particles': {str(k): v for k, v in b[0].items()}}
    elem = a[1] in ('pi', 'K') or b[1] in ('pi', 'K')
    e = rng.choice(['E_Kin', 'Sqrtsnn', 'P_Lab'])
    if elem or rng.random() < .4:
        e = 'P_Lab' if e == 'Sqrtsnn' else e
    if e == 'Sqrtsnn':
        c['Sqrtsnn'] = r3(rng, 2.1, 4.5)
    elif e == 'E_Kin':
        c['E_Kin'] = r3(rng, 0.2, 4.0)
    else:
        c['P_Lab'] = r3(rng, 0.5, 5.0)
    c['Calculation_Frame'] = rng.choice(['center of velocity', 'center of mass', 'fixed target'])
    na, nb = (sum(x[0].values()) * (.15 if x[1] in ('pi', 'K') else 1) for x in (a, b))
    if c['Calculation_Frame'] == 'center of mass' and max(na, nb) > 5 * min(na, nb):
        # the heavy one hardly moves: it would start hundreds of fm/c before the contact
        c['Calculation_Frame'] = 'center of velocity'
    fm = rng.choice(['off', 'on', 'frozen', 'frozen'])
    if fm == 'frozen' and profile.get('no_frozen'):
        fm = 'off'
    c['Fermi_Motion'] = fm
    c['Initial_Distance'] = rng.choice([0.5, 1.0, 2.0, 4.0])
    if rng.random() < .5:
        c['Impact'] = {'Value': rng.choice([0.0, 0.0, r3(rng, 0, 2)])}
    elif rng.random() < .7:
        c['Impact'] = {'Sample': rng.choice(['uniform', 'quadratic']), 'Range': [0.0, r3(rng, 0.5, 3)]}
    if 'Impact' in c and rng.random() < .3:
        c['Impact']['Random_Reaction_Plane'] = True
    if rng.random() < .3:
        c['Collisions_Within_Nucleus'] = True
    return c

def box_section(rng, universe, profile, only=None):
    L = r3(rng, 3.0, 9.0, 2)
    b = {'Length': L, 'Temperature': r3(rng, 0.05, 0.25, 3), 'Start_Time': 0.0,
         'Initial_Condition': rng.choice(['thermal momenta', 'peaked momenta'])}
    b['Init_Multiplicities'] = {str(k): v for k, v in pick_species(rng, universe, profile.get('n', 24), only).items()}
    if rng.random() < .2:
        b['Start_Time'] = r3(rng, 0.1, 2.0, 2)
    if rng.random() < .15:
        b['Equilibration_Time'] = r3(rng, 0.2, 3.0, 2)
    if rng.random() < .1 and not only:
        b['Use_Thermal_Multiplicities'] = True
        b['Temperature'] = r3(rng, 0.10, 0.16, 3)
        del b['Init_Multiplicities']
    if rng.random() < .15 and not only:
        b['Jet'] = {'Jet_PDG': rng.choice([211, 2212]), 'Jet_Momentum': r3(rng, 1, 5, 2)}
    return b

def sphere_section(rng, universe, profile, only=None):
    s = {'Radius': r3(rng, 0.8, 4.0, 2), 'Temperature': r3(rng, 0.05, 0.25, 3), 'Start_Time': 0.0,
         'Initial_Condition': rng.choice(['thermal momenta', 'IC_ES', 'IC_1M', 'IC_2M', 'IC_Massive']),
         'Init_Multiplicities': {str(k): v for k, v in
                                 pick_species(rng, universe, profile.get('n', 24), only).items()}}
    if rng.random() < .2:
        s['Start_Time'] = r3(rng, 0.1, 2.0, 2)
    if rng.random() < .15 and not only:
        s['Jet'] = {'Jet_PDG': rng.choice([211, 2212]), 'Jet_Momentum': r3(rng, 1, 5, 2)}
    return s

ELASTIC_ONLY = {'std': {'211': 8, '111': 6, '2212': 6, '321': 3}, 'pi': {'211': 8, '111': 6, '2212': 6},
                'one': {'221': 8}}

def list_particles(rng, species, universe, n, span=4.0, tspread=True, pool=None):
    """particles for a list file: dicts with text fields"""
    pool = pool or [111, 211, -211, 2212, 2112, 213, 9000221, 2224, -2212]
    ps = []
    t0 = r3(rng, 0, 2, 2)
    for i in range(n):
        pdg = rng.choice(pool)
        m, w = species.mass[pdg], species.width[pdg]
        if w > 1e-3:
            m = round(m * rng.uniform(0.99, 1.1), 4)
        p = [r3(rng, -1, 1, 6) for _ in range(3)]
        e = math.sqrt(m * m + sum(x * x for x in p))
        t = r3(rng, t0, t0 + 1.5, 3) if tspread else t0
        x = [r3(rng, -span / 2, span / 2, 6) for _ in range(3)]
        ps.append(dict(t='%.17g' % t, x='%.17g' % x[0], y='%.17g' % x[1], z='%.17g' % x[2], mass='%.17g' % m,
                       p0='%.17g' % e, px='%.17g' % p[0], py='%.17g' % p[1], pz='%.17g' % p[2],
                       pdg=str(pdg), ID=str(i), charge=str(outputs.charge_of(pdg))))
    return ps

def list_event_text(ev, ps, ens=0, extra=()):
    cols = outputs.STD + list(extra)
    s = '# event %d ensemble %d out %d\n' % (ev, ens, len(ps))
    for p in ps:
        s += ' '.join(p[c] for c in cols) + '\n'
    return s + '# event %d ensemble %d end 0 impact   0.000 scattering_projectile_target yes\n' % (ev, ens)

LIST_HEADER = ('#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID charge\n'
               '# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e\n# SMASH-test\n')

def fit_box(cfg):
    """SMASH refuses a box of less than two minimal cells: lower the largest cross section until it fits."""
    g = cfg['General']
    modus = g['Modus']
    ct = cfg['Collision_Term']
    if modus not in ('Box', 'ListBox'):
        return
    L = cfg['Modi'][modus]['Length']
    if ct['Collision_Criterion'] == 'Stochastic':
        ct['Fixed_Min_Cell_Length'] = min(ct['Fixed_Min_Cell_Length'], round(L / 2.2, 2))
        return
    half = L / 2.02
    if 2 * g['Delta_Time'] > 0.7 * half:
        g['Delta_Time'] = round(0.3 * half, 3)
    fit = 10 * math.pi * (half ** 2 - 4 * g['Delta_Time'] ** 2) / ct.get('Cross_Section_Scaling', 1)
    if ct.get('Maximum_Cross_Section', 200) > fit:
        ct['Maximum_Cross_Section'] = math.floor(fit)

def few_particles(cfg):
    """thermal multiplicities grow steeply: keep a run to some hundred particles"""
    g = cfg['General']
    m = cfg['Modi'][g['Modus']]
    if not m.get('Use_Thermal_Multiplicities'):
        return
    V = m['Length'] ** 3 if 'Length' in m else 4.19 * m['Radius'] ** 3
    n = V * g.get('Testparticles', 1)
    limit = 60 if cfg['Collision_Term'].get('Collision_Criterion') == 'Stochastic' else 150
    while m['Temperature'] > .12 and n * .15 * (m['Temperature'] / .15) ** 8.5 > limit:
        m['Temperature'] = round(m['Temperature'] - .02, 3)

def run_case(rng, profile=None):
    """A whole run.  profile keys: modi, criterion, reactions, universe, ..."""
    import core
    profile = profile or {}
    modus = rng.choice(profile.get('modi') or ['Box', 'Box', 'Sphere', 'Collider', 'Collider', 'List'])
    universe = profile.get('universe') or rng.choice(['std', 'std', 'pi'])
    if modus == 'Collider':
        universe = 'std'
    species = core.species(universe)
    case = {'universe': universe, 'files': {}}
    end = r3(rng, 0.8, profile.get('end', 6.0), rng.choice([1, 2, 3]))
    cfg = {'Logging': logging(), 'Version': 3.3}
    cfg.pop('Version')
    only = ELASTIC_ONLY[universe] if profile.get('reactions') == 'elastic' and profile.get('stable') else None
    if modus == 'Box':
        m = {'Box': box_section(rng, universe, profile, only)}
        start = m['Box']['Start_Time']
    elif modus == 'Sphere':
        m = {'Sphere': sphere_section(rng, universe, profile, only)}
        start = m['Sphere']['Start_Time']
    elif modus == 'Collider':
        m = {'Collider': collider_section(rng, profile)}
        start = 0
        end += 3
    else:
        m = {modus: {'File_Directory': '@IN@', 'Filename': 'list0', 'Shift_Id': 0}}
        del m[modus]['Shift_Id']
        start = 3.5
    if end <= start + 0.3:
        end = round(start + 0.3 + rng.random() * 3, 2)
    cfg['General'] = general(rng, modus, end, profile)
    ct, kind = collision_term(rng, modus, universe, profile)
    if ct['Collision_Criterion'] == 'Stochastic':
        cfg['General']['Time_Step_Mode'] = 'Fixed'
        cfg['General'].pop('Use_Grid', None)
        if modus == 'Box' and m['Box']['Length'] < 2.2 * ct['Fixed_Min_Cell_Length']:
            ct['Fixed_Min_Cell_Length'] = round(m['Box']['Length'] / 2.5, 2)
    cfg['Collision_Term'] = ct
    cfg['Modi'] = m
    if modus == 'Box':
        cfg['General']['Delta_Time'] = min(cfg['General']['Delta_Time'], round(m['Box']['Length'] / 10.5, 3))
        # the default maximum cross section needs a large enough box for the periodic grid
    cfg['Output'] = outputs_section(rng, end, profile)
    if modus in ('List', 'ListBox'):
        nev = cfg['General']['Nevents'] * cfg['General'].get('Ensembles', 1)
        L = None
        if modus == 'ListBox':
            L = r3(rng, 3, 9, 2)
            m[modus]['Length'] = L
            cfg['General']['Delta_Time'] = min(cfg['General']['Delta_Time'], round(L / 10.5, 3))
        txt = LIST_HEADER
        evs = []
        for e in range(nev):
            ps = list_particles(rng, species, universe, rng.randrange(2, profile.get('n', 24) + 3),
                                span=(L or r3(rng, 1, 5)), pool=[int(x) for x in only] if only else None)
            if L:
                for p in ps:
                    for k in 'xyz':
                        p[k] = '%.17g' % (float(p[k]) + L / 2)
            if kind in ('elastic',) and only:
                pass
            txt += list_event_text(e, ps)
            evs.append(ps)
        case['files']['list0'] = txt
    if kind == 'nocoll' and modus == 'Collider':
        m['Collider'].pop('Collisions_Within_Nucleus', None)
    inc = ct.get('Included_2to2')
    if inc is not None and set(inc) <= {'Elastic'} and not ct.get('Two_to_One', True):
        ct['Total_Cross_Section_Strategy'] = 'BottomUp'
    if inc == ['Elastic'] and ct.get('Total_Cross_Section_Strategy') != 'BottomUp':
        inc.append('NN_to_NR')
    if 'Multi_Particle_Reactions' in ct:      # combinations of many particles are slow
        cfg['General'].pop('Testparticles', None)
        if modus in ('Box', 'Sphere') and 'Init_Multiplicities' in m[modus]:
            mult = m[modus]['Init_Multiplicities']
            for k in mult:
                mult[k] = 1 + mult[k] // 2
    few_particles(cfg)
    fit_box(cfg)
    case['config'] = cfg
    case['kind'] = kind
    return case
