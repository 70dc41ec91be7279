"""Reference model of an event, replayed over the recorded history, and physics invariants."""
import math, os
from collections import Counter
import core, outputs
from core import Violation

ELASTIC, WALL, DECAY, THERM, FLUID, FLUIDNR, FREE = 1, 6, 5, 7, 8, 21, 99
KEEP_ID = (ELASTIC, WALL, FLUIDNR)
TWO_PARENTS = (2, 3, 4, 15, 13, 41, 42, 43, 44, 45, 46, 9)
NULL_PARENTS = (7, 10, 11, 12, 14)
FM2_MB = 0.1

class Event:
    __slots__ = ('number', 'initial', 'inter', 'final', 'end')
    def __init__(self, n):
        self.number, self.initial, self.inter, self.final, self.end = n, {}, [], {}, {}

def split_events(blocks, n_ens, what='collisions'):
    """Grammar of a collision history with initial and final lists: E = p^n i* (p f)^n"""
    evs = []
    cur = None
    for b in blocks:
        if b.kind == 'p':
            if cur is None or len(cur.end) == n_ens:
                cur = Event(b.event)
                evs.append(cur)
            if b.event != cur.number:
                raise Violation('structure', '%s: block of event %s inside event %s' % (what, b.event, cur.number))
            if len(cur.initial) < n_ens and b.ens not in cur.initial and not cur.inter and not cur.final:
                if b.ens != len(cur.initial):
                    raise Violation('structure', '%s: event %d: ensembles out of order' % (what, cur.number))
                cur.initial[b.ens] = b.parts
            else:
                if b.ens in cur.final or b.ens != len(cur.final) or len(cur.initial) != n_ens:
                    raise Violation('structure', '%s: event %d: unexpected particle block of ensemble %d'
                                    % (what, cur.number, b.ens))
                cur.final[b.ens] = b.parts
        elif b.kind == 'i':
            if cur is None or len(cur.end) == n_ens or cur.final:
                raise Violation('structure', '%s: interaction outside an event' % what)
            cur.inter.append(b)
        else:
            if cur is None or b.event != cur.number or b.ens in cur.end or b.ens not in cur.final:
                raise Violation('structure', '%s: unexpected end of event %s ensemble %s' % (what, b.event, b.ens))
            cur.end[b.ens] = b
    if cur is not None and len(cur.end) != n_ens:
        raise Violation('structure', '%s: event %d is cut' % (what, cur.number))
    return evs

class PEvent:
    __slots__ = ('number', 'initial', 'steps', 'final', 'end')

def split_particle_events(blocks, n_ens, what='particle lists'):
    """E = p^n (p^n)* (p f)^n : initial, intermediate, final lists.  Returns list of PEvent."""
    evs, i = [], 0
    while i < len(blocks):
        e = PEvent()
        e.number, e.steps, e.final, e.end = blocks[i].event, [], {}, {}
        rounds = []
        while i < len(blocks):
            # a round of n_ens particle blocks, or the end
            if (i + 1 < len(blocks) and blocks[i].kind == 'p' and blocks[i + 1].kind == 'f') or blocks[i].kind == 'f':
                break
            r = {}
            for k in range(n_ens):
                if i >= len(blocks) or blocks[i].kind != 'p' or blocks[i].event != e.number or blocks[i].ens != k:
                    if k and n_ens > 1 and i < len(blocks):
                        raise Violation('structure', '%s: event %s: particle block of ensemble %d missing' % (what, e.number, k))
                    if i < len(blocks):
                        raise Violation('structure', '%s: event %s: %r where ensemble %d was due' % (what, e.number, blocks[i], k))
                    raise Violation('structure', '%s: event %s is cut' % (what, e.number))
                r[k] = blocks[i].parts
                i += 1
                if n_ens > 1 and k == n_ens - 1:
                    pass
            rounds.append(r)
        for k in range(n_ens):
            if i + 1 >= len(blocks) or blocks[i].kind != 'p' or blocks[i + 1].kind != 'f' or blocks[i].ens != k or \
                    blocks[i + 1].ens != k or blocks[i].event != e.number or blocks[i + 1].event != e.number:
                raise Violation('structure', '%s: event %s: bad end of event' % (what, e.number))
            e.final[k] = blocks[i].parts
            e.end[k] = blocks[i + 1]
            i += 2
        if not rounds:
            raise Violation('structure', '%s: event %s has no initial list' % (what, e.number))
        e.initial = rounds[0]
        e.steps = rounds[1:]
        evs.append(e)
    return evs

def mom(p):
    return (p['p0'], p['px'], p['py'], p['pz'])
def pos(p):
    return (p['x'], p['y'], p['z'])
def vel(p):
    return (p['px'] / p['p0'], p['py'] / p['p0'], p['pz'] / p['p0'])

def finite(p):
    for k in ('t', 'x', 'y', 'z', 'p0', 'px', 'py', 'pz', 'mass'):
        if not math.isfinite(p[k]):
            return False
    return True

def show(p):
    return '%d#%d(t=%.9g x=%.9g %.9g %.9g p=%.9g %.9g %.9g %.9g n=%s)' % (
        p['pdg'], p['ID'], p['t'], p['x'], p['y'], p['z'], p['p0'], p['px'], p['py'], p['pz'], p.get('ncoll'))

# ---------------------------------------------------------------------------------- C01
def check_particle(p, sp, where, spin=False):
    if not finite(p):
        raise Violation('not finite', '%s: %s' % (where, show(p)))
    pdg = p['pdg']
    if pdg not in sp.mass:
        raise Violation('unknown species', '%s: pdg %d is not in the particle table' % (where, pdg))
    if 'charge' in p and p['charge'] != outputs.charge_of(pdg):
        raise Violation('charge', '%s: %s has charge %d' % (where, show(p), p['charge']))
    if 'baryon_number' in p and p['baryon_number'] != outputs.baryon_of(pdg):
        raise Violation('baryon number', '%s: %s has baryon number %d' % (where, show(p), p['baryon_number']))
    if 'strangeness' in p and p['strangeness'] != outputs.strangeness_of(pdg):
        raise Violation('strangeness', '%s: %s has strangeness %d' % (where, show(p), p['strangeness']))
    p2 = p['px'] ** 2 + p['py'] ** 2 + p['pz'] ** 2
    m2 = p['p0'] ** 2 - p2
    tol = 1e-6 * max(1.0, p['p0'] ** 2)
    if p['p0'] <= 0 or abs(m2 - p['mass'] ** 2) > tol:
        raise Violation('mass shell', '%s: %s has E^2-p^2=%.9g, mass %.9g' % (where, show(p), m2, p['mass']))
    if sp.width[pdg] < 1e-5 and abs(p['mass'] - sp.mass[pdg]) > 1e-5:
        raise Violation('pole mass', '%s: stable %s has mass %.9g' % (where, show(p), p['mass']))

def totals(ps):
    return [sum(p['p0'] for p in ps), sum(p['px'] for p in ps), sum(p['py'] for p in ps), sum(p['pz'] for p in ps),
            sum(outputs.charge_of(p['pdg']) for p in ps), sum(outputs.baryon_of(p['pdg']) for p in ps),
            sum(outputs.strangeness_of(p['pdg']) for p in ps)]

NAMES = ['energy', 'px', 'py', 'pz', 'charge', 'baryon number', 'strangeness']
def check_balance(a, b, where, tol=1e-6, weak=False):
    A, B = totals(a), totals(b)
    scale = max(1.0, A[0])
    for k in range(6 if weak else 7):
        if abs(A[k] - B[k]) > (tol * scale if k < 4 else 0):
            raise Violation('conservation', '%s: %s %.12g -> %.12g' % (where, NAMES[k], A[k], B[k]))

def conservation(evs, sp, ctx):
    n = 0
    for e in evs:
        for k, ps in list(e.initial.items()) + list(e.final.items()):
            for p in ps:
                check_particle(p, sp, 'event %d' % e.number)
        for j, b in enumerate(e.inter):
            w = 'event %d interaction %d type %d' % (e.number, j, b.type)
            for p in b.parts + b.outp:
                check_particle(p, sp, w)
            if b.type == FLUID:
                continue
            if b.type != FREE:
                weak = ctx.get('weak') and b.type == DECAY and sp.width[b.parts[0]['pdg']] < 1e-5
                check_balance(b.parts, b.outp, w, 1e-4 if b.type == THERM else 1e-6, weak)
            n += 1
        if not ctx.get('fluid'):
            for k in e.initial:
                check_balance(e.initial[k], e.final[k], 'event %d ensemble %d, start to end' % (e.number, k),
                              1e-4 if ctx.get('therm') else 1e-5, ctx.get('weak'))
    return n

# ---------------------------------------------------------------------------------- C02
POSTOL = 2e-8
class Model:
    """one ensemble: id -> particle as last left"""
    def __init__(self, parts, where, ctx):
        self.live, self.used = {}, set()
        self.ctx = ctx
        for p in parts:
            if p['ID'] in self.live:
                raise Violation('identity', '%s: id %d twice in the initial list' % (where, p['ID']))
            self.live[p['ID']] = p
            self.used.add(p['ID'])
        self.t = None
    def frozen(self, q):
        return self.ctx.get('frozen') and q['ncoll'] == 0
    def expected(self, q, t):
        dt = t - q['t']
        if self.frozen(q):
            v = self.ctx['vbeam'].get((self.ctx['event'], q['ID']))
            if v is None:
                v = 0.
            return (q['x'], q['y'], q['z'] + v * dt)
        v = vel(q)
        return (q['x'] + v[0] * dt, q['y'] + v[1] * dt, q['z'] + v[2] * dt)
    def knows(self, p):
        q = self.live.get(p['ID'])
        return q is not None and q['pdg'] == p['pdg'] and mom(q) == mom(p)

def near(a, b, L, tol):
    """component difference, modulo the box length if any"""
    d = a - b
    if L:
        d -= L * round(d / L)
    return abs(d) <= tol

def learn_beam(e, ctx):
    """With frozen Fermi motion untouched nucleons move with the beam: take the velocity each of them shows
    (all of one nucleus must show the same)."""
    ctx['event'] = e.number

def replay(evs, ctx):
    """Replays each event; returns statistics and, per event and ensemble, the list of (t, model snapshots) needed
    by other oracles: a list of trajectories segments per particle id."""
    st = Counter()
    L = ctx.get('L')
    allseg = {}
    for e in evs:
        learn_beam(e, ctx)
        models = {}
        segs = {}
        for k, ps in e.initial.items():
            models[k] = Model(ps, 'event %d ensemble %d' % (e.number, k), ctx)
            ts = {p['t'] for p in ps}
            if len(ts) > 1:
                raise Violation('time', 'event %d: initial particles at different times %s' % (e.number, sorted(ts)[:3]))
            models[k].t = next(iter(ts)) if ts else None
            segs[k] = {p['ID']: [(p, None)] for p in ps}
        for j, b in enumerate(e.inter):
            w = 'event %d interaction %d type %d' % (e.number, j, b.type)
            if not b.parts:
                raise Violation('structure', '%s: nothing incoming' % w)
            ids = [p['ID'] for p in b.parts]
            if len(set(ids)) != len(ids):
                raise Violation('identity', '%s: particle with itself, ids %s' % (w, ids))
            ens = [k for k, m in models.items() if all(m.knows(p) for p in b.parts)]
            if not ens:
                why = []
                for k, m in models.items():
                    for p in b.parts:
                        q = m.live.get(p['ID'])
                        why.append('ens %d: ' % k + ('id %d not alive' % p['ID'] if q is None else
                                   '' if m.knows(p) else 'left as %s' % show(q)))
                raise Violation('stale incoming', '%s: incoming %s do not exist as such in any ensemble (%s)'
                                % (w, ' '.join(show(p) for p in b.parts), '; '.join(x for x in why if x)[:400]))
            t = b.parts[0]['t']
            if len(ens) > 1:    # untouched particles of different ensembles may share id and momentum
                good = [k for k in ens if all(      # frozen nucleons move along the beam only
                    near(p[c], xx, L, 1e-6 * (1 + abs(xx))) or c == 'z' and models[k].frozen(models[k].live[p['ID']])
                    for p in b.parts for c, xx in zip('xyz', models[k].expected(models[k].live[p['ID']], p['t'])))]
                ens = good or ens
                # identical particles of several ensembles that cross a wall at the same time: not the one that just did
                good = [k for k in ens if all(
                    near(p[c], xx, None, 1e-6 * (1 + abs(xx))) or c == 'z' and models[k].frozen(models[k].live[p['ID']])
                    for p in b.parts for c, xx in zip('xyz', models[k].expected(models[k].live[p['ID']], p['t'])))]
                ens = good or ens
                good = [k for k in ens if all(models[k].live[p['ID']][f] == p[f] for p in b.parts
                                              for f in ('ncoll', 'proc_id_origin', 'proc_type_origin'))]
                ens = good or ens
            k = ens[0]
            m = models[k]
            for p in b.parts:
                if abs(p['t'] - t) > 1e-9:
                    raise Violation('time', '%s: incoming at different times %r %r' % (w, p['t'], t))
                q = m.live[p['ID']]
                if p['t'] < q['t'] - 1e-9:
                    raise Violation('time', '%s: before the particle came to be: %s, left as %s' % (w, show(p), show(q)))
                x = m.expected(q, p['t'])
                if m.frozen(q) and (ctx['event'], q['ID']) not in ctx['vbeam'] and p['t'] - q['t'] > 1e-3:
                    ctx['vbeam'][(ctx['event'], q['ID'])] = (p['z'] - q['z']) / (p['t'] - q['t'])
                    x = m.expected(q, p['t'])
                for c, xx in zip('xyz', x):
                    if not near(p[c], xx, L, POSTOL * (1 + abs(xx))):
                        if m.frozen(q) and p['t'] - q['t'] <= 1e-3:
                            continue
                        raise Violation('propagation', '%s: %s should be at %s=%.12g (left as %s)' % (w, show(p), c, xx, show(q)))
                for f in ('ncoll', 'proc_id_origin', 'proc_type_origin', 'pdg_mother1', 'pdg_mother2'):
                    if p[f] != q[f]:
                        raise Violation('history', '%s: %s of %s changed from %s to %s without interaction'
                                        % (w, f, show(p), q[f], p[f]))
            if m.t is not None and t < m.t - 1e-9:
                raise Violation('order', '%s: at t=%.12g after one at %.12g' % (w, t, m.t))
            m.t = t if m.t is None else max(m.t, t)
            st['interactions'] += 1
            st['type %d' % b.type] += 1
            # outgoing
            if b.type in KEEP_ID:
                if sorted(ids) != sorted(p['ID'] for p in b.outp):
                    raise Violation('identity', '%s: ids %s -> %s' % (w, ids, [p['ID'] for p in b.outp]))
            for p in b.outp:
                if abs(p['t'] - t) > 1e-9:
                    raise Violation('time', '%s: outgoing %s at another time than %.12g' % (w, show(p), t))
                if b.type in KEEP_ID:
                    q = next(x for x in b.parts if x['ID'] == p['ID'])
                    if q['pdg'] != p['pdg']:
                        raise Violation('identity', '%s: id %d changed species' % (w, p['ID']))
                    n = q['ncoll'] + (1 if b.type == ELASTIC else 0)
                    if b.type == ELASTIC:
                        for c in 'xyz':
                            if not near(p[c], q[c], None, POSTOL * (1 + abs(q[c]))):
                                raise Violation('propagation', '%s: elastic scattering moves %s to %s' % (w, show(q), show(p)))
                    par = (q['pdg_mother1'], q['pdg_mother2'])
                else:
                    if p['ID'] in m.used:
                        raise Violation('identity', '%s: outgoing id %d was used before' % (w, p['ID']))
                    n = 1
                    par = None
                    if b.type == DECAY:
                        par = (b.parts[0]['pdg'], 0)
                    elif b.type in TWO_PARENTS:
                        par = (b.parts[0]['pdg'], b.parts[1]['pdg'])
                    elif b.type in NULL_PARENTS:
                        par = (0, 0)
                if b.type != FREE:
                    if p['ncoll'] != n:
                        raise Violation('history', '%s: collision counter of %s should be %d' % (w, show(p), n))
                    if b.type not in (WALL, FLUIDNR):
                        if p['proc_id_origin'] != j + 1 or p['proc_type_origin'] != b.type:
                            raise Violation('history', '%s: %s carries process %d of type %d' %
                                            (w, show(p), p['proc_id_origin'], p['proc_type_origin']))
                        if abs(p['time_last_coll'] - t) > 1e-9:
                            raise Violation('history', '%s: last collision time of %s is %.12g' % (w, show(p), p['time_last_coll']))
                    if par is not None and (p['pdg_mother1'], p['pdg_mother2']) != par:
                        raise Violation('history', '%s: mothers of %s are %d %d, not %d %d'
                                        % (w, show(p), p['pdg_mother1'], p['pdg_mother2'], *par))
            ncheck_positions(b, w, L, ctx)
            check_formation(b, w, t)
            if b.type not in KEEP_ID:
                new = [p['ID'] for p in b.outp]
                if len(set(new)) != len(new):
                    raise Violation('identity', '%s: outgoing ids %s' % (w, new))
            for i in ids:
                segs[k][i][-1] = (segs[k][i][-1][0], t, j)
                del m.live[i]
            for p in b.outp:
                m.live[p['ID']] = p
                m.used.add(p['ID'])
                segs[k].setdefault(p['ID'], []).append((p, None))
            b.ens = k
        for k, m in models.items():
            check_list(m, e.final[k], 'final list of event %d ensemble %d' % (e.number, k), L, ctx)
            allseg[(e.number, k)] = segs[k]
        st['events'] += 1
        st['max interactions per event'] = max(st['max interactions per event'], len(e.inter))
    return st, allseg

def check_formation(b, w, t):
    """products are formed at once, except that an unformed incoming particle hands its formation time on"""
    if b.type in (FLUID, FLUIDNR, FREE, THERM) or 41 <= b.type <= 46:
        return
    if any('form_time' not in p for p in b.parts + b.outp):
        return
    last = max(b.parts, key=lambda p: p['form_time'])
    for p in b.outp:
        q = next((x for x in b.parts if x['ID'] == p['ID']), None)
        if b.type == WALL or b.type == ELASTIC and last['form_time'] <= t:
            want = q['form_time']
        elif b.type == DECAY or last['form_time'] <= t:
            want = t
        else:
            want = last['form_time']
        if abs(p['form_time'] - want) > 1e-9 * (1 + abs(want)):
            raise Violation('formation', '%s: %s is formed at %.12g instead of %.12g' % (w, show(p), p['form_time'], want))
        if want <= t and p['xsecfac'] != 1.:
            raise Violation('formation', '%s: %s has the cross section factor %.9g' % (w, show(p), p['xsecfac']))

def ncheck_positions(b, w, L, ctx):
    """where products of an inelastic process appear"""
    if b.type in KEEP_ID or b.type in (THERM, FLUID, FREE):
        return
    for p in b.outp:
        for c in 'xyz':
            if b.type == DECAY or ctx.get('stochastic'):
                ok = any(near(p[c], q[c], L, POSTOL * (1 + abs(q[c]))) for q in b.parts)
            else:
                mid = sum(q[c] for q in b.parts) / len(b.parts)
                ok = near(p[c], mid, None, 1e-7 * (1 + abs(mid))) or \
                    (L and near(p[c], mid, L / 2, 1e-7 * (1 + abs(mid))))
            if not ok:
                raise Violation('product position', '%s: %s appears off its parents %s' %
                                (w, show(p), ' '.join(show(q) for q in b.parts)))

def check_list(m, parts, w, L, ctx, t=None):
    got = {}
    for p in parts:
        if p['ID'] in got:
            raise Violation('identity', '%s: id %d twice' % (w, p['ID']))
        got[p['ID']] = p
    if set(got) != set(m.live):
        raise Violation('lost particles', '%s: missing ids %s, unexpected ids %s' %
                        (w, sorted(set(m.live) - set(got))[:6], sorted(set(got) - set(m.live))[:6]))
    ts = {p['t'] for p in parts}
    if len(ts) > 1:
        raise Violation('time', '%s: particles at different times %s' % (w, sorted(ts)[:3]))
    for i, p in got.items():
        q = m.live[i]
        if not m.knows(p):
            raise Violation('stale list', '%s: %s was left as %s' % (w, show(p), show(q)))
        if p['t'] < q['t'] - 1e-9:
            raise Violation('time', '%s: %s lies before %s' % (w, show(p), show(q)))
        x = m.expected(q, p['t'])
        if m.frozen(q):
            key = (ctx['event'], q['ID'])
            if key not in ctx['vbeam'] and p['t'] - q['t'] > 1e-3:
                ctx['vbeam'][key] = (p['z'] - q['z']) / (p['t'] - q['t'])
            x = m.expected(q, p['t'])
            if p['t'] - q['t'] <= 1e-3:
                continue
        for c, xx in zip('xyz', x):
            if not near(p[c], xx, L, POSTOL * (1 + abs(xx))):
                raise Violation('propagation', '%s: %s should be at %s=%.12g (left as %s)' % (w, show(p), c, xx, show(q)))
        for f in ('ncoll', 'proc_id_origin', 'proc_type_origin', 'pdg_mother1', 'pdg_mother2'):
            if p[f] != q[f]:
                raise Violation('history', '%s: %s of %s is %s, was %s' % (w, f, show(p), p[f], q[f]))

def beam_consistency(ctx, evs):
    """frozen Fermi motion: one velocity per nucleus"""
    if not ctx.get('frozen'):
        return
    for e in evs:
        by = {1: set(), -1: set()}
        for k, ps in e.initial.items():
            for p in ps:
                v = ctx['vbeam'].get((e.number, p['ID']))
                if v is not None:
                    by[1 if p['ID'] < ctx['nproj'] else -1].add(round(v, 6))
        for s in by.values():
            if s and max(s) - min(s) > 2e-5:
                raise Violation('propagation', 'event %d: untouched nucleons of one nucleus move with different '
                                'velocities %s' % (e.number, sorted(s)[:4]))

def intermediate(evs, pevs, ctx):
    """particle lists at output times against the replayed history"""
    L = ctx.get('L')
    n = 0
    for e, pe in zip(evs, pevs):
        ctx['event'] = e.number
        for k in e.initial:
            ini = {p['ID']: p for p in pe.initial[k]}
            if ini != {p['ID']: p for p in e.initial[k]}:
                raise Violation('lists differ', 'event %d ensemble %d: initial list of particle and collision output differ' % (e.number, k))
            if {p['ID']: p for p in pe.final[k]} != {p['ID']: p for p in e.final[k]}:
                raise Violation('lists differ', 'event %d ensemble %d: final list of particle and collision output differ' % (e.number, k))
            m = Model(e.initial[k], '', ctx)
            inter = [b for b in e.inter if b.ens == k]
            j = 0
            for r in pe.steps:
                parts = r[k]
                if not parts:
                    T = None
                    # an empty list: the time is unknown; it must be empty for some stretch of the history
                    continue
                T = parts[0]['t']
                amb = False
                while j < len(inter) and inter[j].parts[0]['t'] < T - 1e-9:
                    for p in inter[j].parts:
                        m.live.pop(p['ID'], None)
                    for p in inter[j].outp:
                        m.live[p['ID']] = p
                    j += 1
                if j < len(inter) and abs(inter[j].parts[0]['t'] - T) <= 1e-9:
                    amb = True
                if not amb:
                    check_list(m, parts, 'list at t=%.9g of event %d ensemble %d' % (T, e.number, k), L, ctx)
                    n += 1
    return n
