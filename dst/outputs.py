"""Parsers for what SMASH writes.  Written from the user guide, not from the writers."""
import struct

class Bad(Exception):
    """The file is not well formed."""

INTS = {'pdg', 'ID', 'id', 'charge', 'ncoll', 'proc_id_origin', 'proc_type_origin', 'pdg_mother1',
        'pdg_mother2', 'baryon_number', 'strangeness', '0'}
STD = ['t', 'x', 'y', 'z', 'mass', 'p0', 'px', 'py', 'pz', 'pdg', 'ID', 'charge']
EXT = STD + ['ncoll', 'form_time', 'xsecfac', 'proc_id_origin', 'proc_type_origin',
             'time_last_coll', 'pdg_mother1', 'pdg_mother2', 'baryon_number', 'strangeness']
O1999 = ['id', 'pdg', '0', 'px', 'py', 'pz', 'p0', 'mass', 'x', 'y', 'z', 't']

def struct_of(q):
    return '<' + ''.join('i' if n in INTS else 'd' for n in q)

class Block:
    __slots__ = ('kind', 'event', 'ens', 'parts', 'outp', 'rho', 'weight', 'partial', 'type',
                 'impact', 'empty', 'pos')
    # kind: 'p' particle block, 'i' interaction, 'f' end of event
    def __init__(self, kind, **kw):
        self.kind = kind
        for k in self.__slots__[1:]:
            setattr(self, k, kw.get(k))
    def __repr__(self):
        return 'Block(%s)' % ', '.join('%s=%r' % (k, getattr(self, k)) for k in self.__slots__
                                       if getattr(self, k) is not None and k not in ('parts', 'outp'))

class Particle(dict):
    __slots__ = ()
    __getattr__ = dict.__getitem__

def mk(q, values):
    p = Particle(zip(q, values))
    if 'id' in p and 'ID' not in p:
        p['ID'] = p['id']
    return p

def read_binary(path, quantities, ic=False, labelled_p=True, data=None):
    """Returns (version, variant, smash_version, [Block])."""
    if data is None:
        data = open(path, 'rb').read()
    if data[:4] != b'SMSH':
        raise Bad('%s: magic number missing' % path)
    if len(data) < 12:
        raise Bad('%s: header cut' % path)
    ver, var, ln = struct.unpack_from('<HHI', data, 4)
    if len(data) < 12 + ln:
        raise Bad('%s: header cut' % path)
    sv = data[12:12 + ln].decode()
    pos = 12 + ln
    st = struct.Struct(struct_of(quantities))
    blocks = []
    q = quantities
    n = len(data)
    def parts(pos, k):
        if pos + k * st.size > n:
            raise Bad('%s: particle block cut at byte %d' % (path, pos))
        return [mk(q, st.unpack_from(data, pos + j * st.size)) for j in range(k)], pos + k * st.size
    try:
        while pos < n:
            c = data[pos:pos + 1]
            start = pos
            pos += 1
            if c == b'p':
                if ic:
                    (k,) = struct.unpack_from('<I', data, pos)
                    pos += 4
                    ev = en = None
                else:
                    ev, en, k = struct.unpack_from('<iiI', data, pos)
                    pos += 12
                ps, pos = parts(pos, k)
                blocks.append(Block('p', event=ev, ens=en, parts=ps, pos=start))
            elif c == b'i':
                ni, no, rho, w, pw, ty = struct.unpack_from('<IIdddI', data, pos)
                pos += 36
                a, pos = parts(pos, ni)
                b, pos = parts(pos, no)
                blocks.append(Block('i', parts=a, outp=b, rho=rho, weight=w, partial=pw, type=ty, pos=start))
            elif c == b'f':
                ev, en, b = struct.unpack_from('<iid', data, pos)
                pos += 16
                if pos >= n:
                    raise Bad('%s: cut in event end' % path)
                e = data[pos]
                if e not in (0, 1):
                    raise Bad('%s: empty flag %d' % (path, e))
                pos += 1
                blocks.append(Block('f', event=ev, ens=en, impact=b, empty=bool(e), pos=start))
            else:
                raise Bad('%s: unknown block %r at byte %d' % (path, c, start))
    except struct.error as e:
        raise Bad('%s: cut: %s' % (path, e))
    return ver, var, sv, blocks

def _plines(path, lines, i, k, q):
    out = []
    for j in range(k):
        if i + j >= len(lines):
            raise Bad('%s: %d particle lines announced, %d found' % (path, k, j))
        f = lines[i + j].split()
        if len(f) != len(q):
            raise Bad('%s line %d: %d columns, expected %d' % (path, i + j + 1, len(f), len(q)))
        out.append(mk(q, f))       # kept as text
    return out, i + k

def read_oscar2013(path, ic=False):
    """Oscar2013 / extended / ASCII.  Returns (format, content, columns, units, version, [Block])."""
    text = open(path, encoding='utf8').read()
    if text and not text.endswith('\n'):
        raise Bad('%s: does not end with a newline' % path)
    lines = text.split('\n')[:-1]
    if len(lines) < 3:
        raise Bad('%s: header cut' % path)
    h = lines[0].split()
    q = h[2:]
    units = lines[1].split()[2:]
    if len(q) != len(units):
        raise Bad('%s: %d columns, %d units' % (path, len(q), len(units)))
    blocks = []
    i = 3
    while i < len(lines):
        l = lines[i]
        f = l.split()
        i += 1
        if f[:2] == ['#', 'event']:
            ev, en = int(f[2]), int(f[4])
            if f[5] in ('in', 'out'):
                ps, i = _plines(path, lines, i, int(f[6]), q)
                blocks.append(Block('p', event=ev, ens=en, parts=ps, pos=f[5]))
            elif f[5] == 'start':
                k = i
                while k < len(lines) and not lines[k].startswith('#'):
                    k += 1
                ps, i = _plines(path, lines, i, k - i, q)
                blocks.append(Block('p', event=ev, ens=en, parts=ps, pos='start'))
            elif f[5] == 'end':
                if ic:
                    blocks.append(Block('f', event=ev, ens=en))
                else:
                    if len(f) != 11 or f[7] != 'impact' or f[9] != 'scattering_projectile_target':
                        raise Bad('%s line %d: bad event end' % (path, i))
                    blocks.append(Block('f', event=ev, ens=en, impact=f[8], empty=(f[10] == 'no')))
            else:
                raise Bad('%s line %d: %s' % (path, i, l))
        elif f[:2] == ['#', 'interaction']:
            ni, no = int(f[3]), int(f[5])
            a, i = _plines(path, lines, i, ni, q)
            b, i = _plines(path, lines, i, no, q)
            blocks.append(Block('i', parts=a, outp=b, rho=f[7], weight=f[9], partial=f[11], type=int(f[13])))
        else:
            raise Bad('%s line %d: unexpected %r' % (path, i, l[:60]))
    return h[0], h[1], q, units, lines[2], blocks

def read_oscar1999(path):
    text = open(path, encoding='utf8').read()
    if text and not text.endswith('\n'):
        raise Bad('%s: does not end with a newline' % path)
    lines = text.split('\n')[:-1]
    i = 0
    while i < len(lines) and lines[i].startswith('#'):
        i += 1
    blocks = []
    q = O1999
    while i < len(lines):
        f = lines[i].split()
        i += 1
        if len(f) == 4:
            ni, no, ev, en = map(int, f)
            k = ni + no
            if ni and no:
                raise Bad('%s line %d: block with in and out' % (path, i))
            ps, i = _plines(path, lines, i, k, q)
            blocks.append(Block('p', event=ev, ens=en, parts=ps, pos='in' if no else 'out'))
        elif len(f) == 5:
            if f[:2] != ['0', '0']:
                raise Bad('%s line %d: bad null interaction' % (path, i))
            blocks.append(Block('f', event=int(f[2]), ens=int(f[3]), impact=f[4]))
        elif len(f) == 6:
            ni, no = int(f[0]), int(f[1])
            a, i = _plines(path, lines, i, ni, q)
            b, i = _plines(path, lines, i, no, q)
            blocks.append(Block('i', parts=a, outp=b, rho=f[2], weight=f[3], partial=f[4], type=int(f[5])))
        else:
            raise Bad('%s line %d: unexpected %r' % (path, i, lines[i - 1][:60]))
    return blocks

# ------------------------------------------------------------------ species table of the universes
class Species:
    def __init__(self):
        self.mass, self.width, self.name = {}, {}, {}

def charge_of(pdg):
    a = abs(pdg)
    s = 1 if pdg > 0 else -1
    if a in (11, 13):
        return -s
    if a == 22:
        return 0
    if a > 1000000000:
        return s * ((a // 10000) % 1000)
    d = [(a // 1000) % 10, (a // 100) % 10, (a // 10) % 10]
    q3 = lambda f: 2 if f % 2 == 0 else -1
    if d[0]:
        return s * sum(q3(f) for f in d) // 3
    q, aq = d[1], d[2]          # meson: the heavier quark's sign convention
    c = q3(q) - q3(aq)
    if q % 2 == 1:
        c = -c
    return s * c // 3

def baryon_of(pdg):
    a = abs(pdg)
    s = 1 if pdg > 0 else -1
    if a > 1000000000:
        return s * ((a // 10) % 1000)
    if (a // 1000) % 10:
        return s
    return 0

def strangeness_of(pdg):
    a = abs(pdg)
    s = 1 if pdg > 0 else -1
    if a > 1000000000 or a < 100:
        return 0
    d = [(a // 1000) % 10, (a // 100) % 10, (a // 10) % 10]
    if d[0]:
        return -s * sum(1 for f in d if f == 3)
    q, aq = d[1], d[2]
    if q == 3 and aq == 3:
        return 0
    n = 0
    if q == 3:
        n = 1        # positive code, strange heavier: anti-strange quark (K+ = 321: u anti-s)
    elif aq == 3:
        n = 1
    return s * n

def load_species(path):
    """mass, width by pdg code, from a particles file (antiparticles included)."""
    sp = Species()
    for l in open(path, encoding='utf8'):
        l = l.split('#')[0].split()
        if not l:
            continue
        name, m, w = l[0], float(l[1]), float(l[2])
        for c in l[4:]:
            c = int(c)
            for k in (c, -c):
                sp.mass[k], sp.width[k], sp.name[k] = m, w, name
    return sp
