"""Optional parts of a run used where only equality of runs is judged: potentials, lattices, more outputs ..."""
import random
import gen
from gen import r3, QUANT

CUSTOM = ['t', 'x', 'y', 'z', 'mass', 'p0', 'px', 'py', 'pz', 'pdg', 'ID', 'charge', 'ncoll', 'form_time', 'xsecfac',
          'proc_id_origin', 'proc_type_origin', 'time_last_coll', 'pdg_mother1', 'pdg_mother2', 'baryon_number',
          'strangeness', 'spin0', 'spinx', 'spiny', 'spinz', 'tau', 'eta', 'mt', 'Rap', 'eta_s', 'perturbative_weight']
SPIN = ['spin0', 'spinx', 'spiny', 'spinz']
PART_FORMATS = ['Oscar2013', 'Oscar1999', 'ASCII', 'Binary', 'Oscar2013_bin', 'VTK']
COLL_FORMATS = ['Oscar2013', 'Oscar1999', 'ASCII', 'Binary', 'Oscar2013_bin']

def quantities(rng, ascii_also=False):
    q = rng.sample(CUSTOM, rng.randrange(1, 12))
    q = [x for x in q if not x.startswith('spin')]
    if 'id' not in q and 'ID' not in q and rng.random() < .5:
        q.append('ID')
    if 'eta' in q and 'eta_s' in q:
        q.remove('eta')
    return q or ['t']

def rich_outputs(rng, cfg, keep_binary=True):
    spin = SPIN if cfg['Collision_Term'].get('Spin_Interactions') else []
    """more formats and contents; keeps the custom binary files the oracles read when asked"""
    out = cfg['Output']
    for c, pool in (('Particles', PART_FORMATS), ('Collisions', COLL_FORMATS)):
        f = rng.sample(pool, rng.randrange(0, len(pool)))
        if 'Oscar1999' in f and 'Oscar2013' in f:        # refused: both would be the same file
            f.remove(rng.choice(['Oscar1999', 'Oscar2013']))
        if keep_binary and 'Binary' not in f:
            f.append('Binary')
        if not f:
            out.pop(c)
            continue
        out[c]['Format'] = f
        if rng.random() < .5 and any(x.startswith('Osc') for x in f):
            out[c]['Extended'] = True
        if not keep_binary:
            if {'ASCII', 'Binary'} & set(f):
                out[c]['Quantities'] = quantities(rng) + spin
            else:
                out[c].pop('Quantities', None)
    if 'Particles' in out:
        out['Particles']['Only_Final'] = 'No' if keep_binary else rng.choice(['No', 'Yes', 'IfNotEmpty'])
    if 'Collisions' in out and not keep_binary:
        out['Collisions']['Print_Start_End'] = rng.random() < .5

def lattice(rng, cfg, box_ok=True):
    modus = cfg['General']['Modus']
    if modus in ('Box', 'ListBox'):
        L = cfg['Modi'][modus]['Length']
        return {'Automatic': False, 'Origin': [0., 0., 0.], 'Sizes': [L] * 3,
                'Cell_Number': [rng.randrange(3, 7) for _ in range(3)], 'Periodic': True}
    s = r3(rng, 4, 12, 1)
    return {'Automatic': False, 'Origin': [-s, -s, -s], 'Sizes': [2 * s] * 3,
            'Cell_Number': [rng.randrange(4, 9) for _ in range(3)]}

THERMO_Q = ['rho_eckart', 'tmn', 'tmn_landau', 'landau_velocity', 'j_QBS']

def thermo(rng, cfg):
    out = cfg['Output']
    fm = rng.sample(['ASCII', 'Lattice_ASCII', 'Lattice_Binary', 'VTK'], rng.randrange(1, 4))
    t = {'Format': fm, 'Type': rng.choice(['hadron', 'baryon', 'pion', 'baryonic isospin']),
         'Quantities': rng.sample(THERMO_Q, rng.randrange(1, 5)), 'Smearing': rng.random() < .8}
    if rng.random() < .3 and 'Potentials' not in cfg:
        t['Only_Participants'] = True
    if 'ASCII' in fm:
        t['Position'] = [r3(rng, -1, 1, 1) for _ in range(3)]
    out['Thermodynamics'] = t
    if 'Lattice' not in cfg and (set(fm) - {'ASCII'} or not t['Smearing']):
        cfg['Lattice'] = lattice(rng, cfg)

def potentials(rng, cfg):
    g = cfg['General']
    g['Time_Step_Mode'] = 'Fixed'
    k = rng.randrange(4)
    if k == 0:
        p = {'Skyrme': {'Skyrme_A': -209.2, 'Skyrme_B': 156.4, 'Skyrme_Tau': 1.35}}
        if rng.random() < .5:
            p['Symmetry'] = {'S_Pot': 18.0}
    elif k == 1:
        p = {'Symmetry': {'S_Pot': 18.0}}
        if rng.random() < .4:
            p['Symmetry']['gamma'] = 1.0
    elif k == 2:
        p = {'VDF': {'Sat_rhoB': 0.16, 'Powers': [2.0, 2.35], 'Coeffs': [-209.2, 156.5]}}
    else:
        p = {'Skyrme': {'Skyrme_A': -209.2, 'Skyrme_B': 156.4, 'Skyrme_Tau': 1.35}, 'Coulomb': {'R_Cut': 2.0}}
    cfg['Potentials'] = p
    if 'Lattice' not in cfg and (rng.random() < .7 or k >= 2):
        cfg['Lattice'] = lattice(rng, cfg)
    if k < 2 and rng.random() < .3:
        g['Smearing_Mode'] = rng.choice(['Covariant Gaussian', 'Discrete', 'Triangular'])
        if g['Smearing_Mode'] != 'Covariant Gaussian':
            g['Derivatives_Mode'] = 'Finite difference'
            cfg.setdefault('Lattice', lattice(rng, cfg))
    if k == 2:
        g['Derivatives_Mode'] = 'Finite difference'
        g['Smearing_Mode'] = rng.choice(['Covariant Gaussian', 'Triangular'])
        g['Field_Derivatives_Mode'] = rng.choice(['Chain Rule', 'Direct'])
    if 'Coulomb' in p and rng.random() < .5:
        cfg['Output']['Coulomb'] = {'Format': ['VTK']}

def add_features(rng, case, dileptons=True, ic=False):
    """returns the list of what was added"""
    cfg = case['config']
    g, ct = cfg['General'], cfg['Collision_Term']
    modus = g['Modus']
    got = []
    if ct.get('Collision_Criterion') != 'Stochastic' and rng.random() < .35 and modus != 'List' and not (
            modus == 'Collider' and cfg['Modi']['Collider'].get('Fermi_Motion') == 'frozen'):
        potentials(rng, cfg)
        got.append('potentials')
    if rng.random() < .35:
        thermo(rng, cfg)
        got.append('thermodynamics')
    if modus in ('Sphere', 'List') and rng.random() < .16 and 'Potentials' not in cfg:
        g['Metric_Type'] = rng.choice(['MasslessFRW', 'MassiveFRW', 'Exponential'])
        g['Expansion_Rate'] = r3(rng, 0.02, 0.2, 3)
        g['Time_Step_Mode'] = 'Fixed'
        got.append('expansion')
    if modus == 'Collider' and rng.random() < .25 and g['Time_Step_Mode'] == 'Fixed':
        ct['Pauli_Blocking'] = {'Spatial_Averaging_Radius': 1.86, 'Gaussian_Cutoff': 2.2,
                                'Momentum_Averaging_Radius': 0.08}
        got.append('pauli')
    if dileptons and case['universe'] == 'std' and rng.random() < .2:
        ct['Dileptons'] = {'Decays': True}
        cfg['Output']['Dileptons'] = {'Format': [rng.choice(['Oscar2013', 'Binary'])]}
        if cfg['Output']['Dileptons']['Format'] == ['Binary']:
            cfg['Output']['Dileptons']['Quantities'] = QUANT
        got.append('dileptons')
    if dileptons and case['universe'] == 'std' and rng.random() < .15 and ct.get('Two_to_One', True) and not ct.get('No_Collisions') and \
            'Multi_Particle_Reactions' not in ct:
        ct['Photons'] = {'2to2_Scatterings': True, 'Bremsstrahlung': rng.random() < .5, 'Fractional_Photons': 3}
        cfg['Output']['Photons'] = {'Format': ['Oscar2013']}
        got.append('photons')
    if ct.get('Collision_Criterion') != 'Stochastic' and modus != 'List' and rng.random() < .15 and 'Multi_Particle_Reactions' not in ct:
        ct['Spin_Interactions'] = 'On'
        for o in cfg['Output'].values():
            if isinstance(o, dict) and 'Quantities' in o and {'ASCII', 'Binary'} & set(o['Format']) and 'Smearing' not in o:
                o['Quantities'] = o['Quantities'] + SPIN
        got.append('spin')
    return got
