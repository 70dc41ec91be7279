#!/usr/bin/env python3
"""Made the committed particle universes in this folder from /repo/input (run by hand, once)."""
import re, sys
SRC = '/repo/input'
def particles():
    for l in open(SRC + '/particles.txt', encoding='utf8'):
        s = l.split('#')[0].strip()
        if s: yield s.split()[0], s
def decays():
    out, cur = {}, None
    for l in open(SRC + '/decaymodes.txt', encoding='utf8'):
        s = l.split('#')[0].strip()
        if not s: continue
        f = s.split()
        if len(f) == 1: cur = f[0]; out[cur] = []
        else: out[cur].append(f)
    return out
SUP = '⁺⁻⁰̅'
def base(n):
    return n.rstrip('⁺⁻⁰').replace('̅', '')
def make(tag, names, extra=()):
    ps = dict(particles())
    with open(f'particles_{tag}.txt', 'w', encoding='utf8') as f:
        f.write('# NAME MASS[GEV] WIDTH[GEV] PARITY PDG\n')
        for n in names:
            f.write(ps[n] + '\n')
        for e in extra: f.write(e + '\n')
    known = set(names) | {e.split()[0] for e in extra}
    known |= {base(n) for n in known}
    with open(f'decaymodes_{tag}.txt', 'w', encoding='utf8') as f:
        for n, modes in decays().items():
            if n not in known: continue
            keep = [m for m in modes if all(x in known or base(x) in known for x in m[2:])]
            if keep:
                f.write(n + '\n' + ''.join(' '.join(m) + '\n' for m in keep) + '\n')
make('std', ['π','η','σ','ρ','ω',"η'",'φ','h₁(1170)','K','K*(892)','N','Δ','N(1440)','N(1535)','Λ','Λ(1520)',
             'Σ','Σ(1385)','Ξ','γ','e⁻','μ⁻'],
     ['d 1.8756 0 + 1000010020'])
make('pi', ['π','ρ','σ','N','Δ'])
# particles_em.txt and decaymodes_em.txt: the universe std with the dilepton decays of input/dileptons/decaymodes.txt for eta, rho,
# omega, eta', phi and Delta added by hand
