"""Running a generated case and loading its history."""
import os
import core, gen, oracles, outputs
from core import Violation


def context(case):
    cfg = case['config']
    g = cfg['General']
    modus = g['Modus']
    m = cfg['Modi'][modus]
    ctx = {'n_ens': g.get('Ensembles', 1), 'nev': g.get('Nevents', 1), 'vbeam': {}, 'modus': modus,
           'end': g['End_Time'], 'stochastic': cfg['Collision_Term'].get('Collision_Criterion') == 'Stochastic'}
    if modus in ('Box', 'ListBox'):
        ctx['L'] = m['Length']
    if modus == 'Collider':
        ctx['frozen'] = m.get('Fermi_Motion') == 'frozen'
        ctx['nproj'] = sum(m['Projectile']['Particles'].values()) * g.get('Testparticles', 1)
    ctx['weak'] = bool(cfg['Collision_Term'].get('Ignore_Minimum_Decay_Width_For_Decays_At_The_End'))
    if 'Forced_Thermalization' in cfg:
        ctx['therm'] = True
    return ctx

def orderly(r, what='run'):
    c = core.crashed(r)
    if c:
        raise Violation('crash', '%s %s' % (what, c))
    if r.timeout:
        raise Violation('hang', '%s did not finish' % what)

REFUSALS = ('box', 'Box', 'too small', 'Probability')
def load(case, r, ctx):
    """(events of the collision history, events of the particle lists)"""
    q = case['config']['Output']['Collisions']['Quantities']
    _, _, _, cb = outputs.read_binary(r.path('collisions_custom.bin'), q)
    evs = oracles.split_events(cb, ctx['n_ens'])
    q = case['config']['Output']['Particles']['Quantities']
    _, _, _, pb = outputs.read_binary(r.path('particles_custom.bin'), q)
    pevs = oracles.split_particle_events(pb, ctx['n_ens'])
    return evs, pevs

def history_key(evs):
    import hashlib
    h = hashlib.sha1()
    for e in evs:
        for b in e.inter:
            h.update(b'%d %d %d;' % (b.type, len(b.parts), len(b.outp)))
            for p in b.parts:
                h.update(b'%d ' % p['pdg'])
    return h.hexdigest()[:12]
