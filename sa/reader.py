"""An abstract TsFile reader: follows the file format over an abstract byte
sequence (constants, big-endian fields of unknown values, variable-length
fields, spliced-in strings) the way a reader follows it over bytes.

Positions are terms (a constant plus lengths of unknown strings), so an offset
stored in the file can be compared with the position of what it should point at
for all lengths at once.
"""
from terms import *
import terms


class Bad(Exception):
    """the bytes are not what the format demands"""
    def __init__(self, sect, msg, opaque=False, wit=None):
        Exception.__init__(self, msg)
        self.sect = sect
        self.opaque = opaque
        self.wit = wit           # with a valuation: do the bytes really go wrong here


def differs(a, b):
    return lambda e: (e.ev(a), e.ev(b)) if e.ev(a) != e.ev(b) else None


def nowhere(p, places):
    """the position is none of those where something starts"""
    def f(e):
        v = e.ev(p)
        for q in places:
            if e.ev(q) == v:
                return None
        return v, 'none of these'
    return f


def sshow(s):
    r = show(s)
    return r if len(r) < 100 else r[:97] + '...'


CACHE = {}


class R:
    def __init__(self, v, base=K(0), sect='', path=''):
        self.v = v
        self.segs = segs_of(v)
        self.i = 0
        self.pos = base
        self.base = base
        self.sect = sect
        self.bound = None
        self._idx = None
        self.log = []

    # -- positions
    def index(self):
        if self._idx is None:
            k = (self.v, self.base)
            if k in CACHE:
                self._idx, self.end = CACHE[k]
                return self._idx
            self._idx = {}
            p = self.base
            for j, s in enumerate(self.segs):
                self._idx.setdefault(p, j)
                p = add(p, seglen(s))
            self.end = p
            self._idx.setdefault(p, len(self.segs))
            if len(CACHE) > 50:
                CACHE.clear()
            CACHE[k] = (self._idx, self.end)
        return self._idx

    def at(self, pos, sect=None):
        idx = self.index()
        j = idx.get(pos)
        if j is None:
            raise Bad(sect or self.sect, 'offset %s does not point at the start of anything' % sshow(pos), opaque=pos.opq, wit=nowhere(pos, list(idx)))
        r = R(EMPTY, sect=sect or self.sect)
        r.segs, r.i, r.pos, r.base, r._idx, r.end = self.segs, j, pos, self.base, self._idx, self.end
        return r

    def ends(self, what, end):
        """what starts here is said to end there"""
        idx = self.index()
        if end not in idx:
            raise Bad(self.sect, '%s: %s bytes from %s, which is not the end of anything' % (what, sshow(sub(end, self.pos)), sshow(self.pos)), end.opq,
                      nowhere(end, list(idx)))

    def bad(self, msg, wit=None):
        s = self.segs[self.i] if self.i < len(self.segs) else None
        raise Bad(self.sect, '%s at %s, found %s' % (msg, sshow(self.pos), sshow(s) if s is not None else 'the end'),
                  opaque=s is not None and s.opq, wit=wit)

    def atend(self):
        return self.i >= len(self.segs)

    def take(self):
        s = self.segs[self.i]
        self.i += 1
        self.pos = add(self.pos, seglen(s))
        return s

    def byte(self, what='a byte'):
        if self.i < len(self.segs) and self.segs[self.i].op == 'e':
            return self.take().a[0]
        self.bad('expected ' + what)

    def be(self, n, what='a field'):
        if self.i < len(self.segs) and self.segs[self.i].op == 'be' and self.segs[self.i].a[0] == n:
            return self.take().a[1]
        # constants are spelled out as bytes
        x = 0
        if self.i + n <= len(self.segs) and all(self.segs[self.i + j].op == 'e' for j in range(n)):
            bs = [self.segs[self.i + j].a[0] for j in range(n)]
            if all(b.op == 'k' for b in bs):
                for b in bs:
                    x = x << 8 | b.a[0] & 255
                for _ in range(n):
                    self.take()
                return K(x)
            if all(b.op in ('bits', 'k') for b in bs):
                out = []
                for b in reversed(bs):
                    out += tobits(b, 8, 'u8')
                for _ in range(n):
                    self.take()
                return bits(8 * n, False, out)
        self.bad('expected a %d-byte big-endian %s' % (n, what))

    def ibe(self, n, what='a field'):
        """signed"""
        v = self.be(n, what)
        if v.op == 'k' and v.a[0] >> (8 * n - 1):
            return K(v.a[0] - (1 << 8 * n))
        return v

    def uvar(self, what='length'):
        if self.i < len(self.segs) and self.segs[self.i].op == 'uvar':
            return self.take().a[0]
        x, sh = 0, 0
        while True:
            if self.i < len(self.segs) and self.segs[self.i].op == 'e' and self.segs[self.i].a[0].op == 'k':
                b = self.take().a[0].a[0]
                x |= (b & 127) << sh
                sh += 7
                if b < 128:
                    return K(x)
                continue
            self.bad('expected a variable-length ' + what)

    def str(self, what='string'):
        z = self.uvar(what + ' length')
        n = None
        if z.op == 'k':
            if z.a[0] & 1:
                self.bad(what + ' with negative length')
            n = K(z.a[0] // 2)
            out = []
            if n.a[0] == 0:
                return EMPTY
        p0 = self.pos
        j = self.i
        got = []
        while self.i < len(self.segs):
            got.append(self.segs[self.i])
            self.take()
            l = sub(self.pos, p0)
            if n is not None and l is n or n is None and scale(l, 2) is z:
                return seqval(got)
            if len(got) > 64 and n is None:
                break
            if n is not None and l.op == 'k' and l.a[0] > n.a[0]:
                break
        self.i, self.pos = j, p0
        self.bad('expected a %s of the announced length %s' % (what, sshow(z)), nowhere(z, [scale(sub(q, p0), 2) for q in self.index()]))

    def bytes(self, n, what='data'):
        """n bytes as a sequence"""
        p0, j = self.pos, self.i
        got = []
        end = add(p0, n)
        while self.pos is not end:
            if self.i >= len(self.segs):
                self.i, self.pos = j, p0
                self.bad('expected %s bytes of %s' % (sshow(n), what), nowhere(end, list(self.index())))
            got.append(self.take())
        return seqval(got)

    def stats(self, ty):
        w = 4 if ty in ('INT32', 'FLOAT') else 8
        s = {'count': self.uvar('point count'), 'ts_first': self.ibe(8, 'start time'), 'ts_last': self.ibe(8, 'end time')}
        f = self.be if ty == 'FLOAT' else self.ibe
        for k in ('min', 'max', 'first', 'last'):
            s[k] = f(w, k + ' value')
        s['sum'] = (self.ibe if ty == 'INT32' else self.be)(8, 'sum')
        return s


TYPES = {0: 'BOOLEAN', 1: 'INT32', 2: 'INT64', 3: 'FLOAT', 4: 'DOUBLE', 5: 'TEXT'}
ENC = {0: 'PLAIN', 4: 'TS2DIFF'}
COMP = {0: 'UNCOMPRESSED', 1: 'SNAPPY'}


def const(r, v, what, table=None):
    if v.op != 'k':
        raise Bad(r.sect, '%s is not a constant but %s' % (what, sshow(v)), v.opq)
    if table is not None and v.a[0] not in table:
        raise Bad(r.sect, '%s %d is not a code the format knows' % (what, v.a[0]))
    return table[v.a[0]] if table is not None else v.a[0]


def read_page(r, ty, comp, single):
    pos = r.pos
    un = r.uvar('uncompressed page size')
    co = r.uvar('compressed page size')
    st = None if single else r.stats(ty)
    dpos = r.pos
    data = r.bytes(co, 'page data')
    if comp == 'SNAPPY':
        cb = constbytes(data)
        if cb is not None:
            import eval as ev_
            if cb in ev_.SNAP:
                data = terms._mk('snappy', seqval([e_(K(b)) for b in ev_.SNAP[cb]]))
        if data.op != 'snappy':
            raise Bad('page', 'page data of a SNAPPY chunk is not the compressed page but %s' % sshow(data), data.opq)
        plain = data.a[0]
    else:
        plain = data
    if length(plain) is not un:
        raise Bad('page', 'uncompressed size %s in the page header, the page has %s bytes' % (sshow(un), sshow(length(plain))),
                  un.opq or plain.opq, differs(un, length(plain)))
    q = R(plain, sect='page')
    tl = q.uvar('time section length')
    times = q.bytes(tl, 'time section')
    rest = seqval(q.segs[q.i:])
    return {'pos': pos, 'stats': st, 'times': times, 'values': rest}


def ts2diff(v, w, sect):
    """values held by a TS_2DIFF byte sequence, w bytes per value"""
    r = R(v, sect=sect)
    out = []
    while not r.atend():
        n = const(r, r.be(4, 'block entry count'), 'entry count of a TS_2DIFF block')
        width = const(r, r.be(4, 'bit width'), 'bit width of a TS_2DIFF block')
        mind = r.ibe(w, 'minimum delta')
        first = r.ibe(w, 'first value')
        nb = (n * width + 7) // 8
        payload = [r.byte('packed delta byte') for _ in range(nb)]
        vals = [first]
        if width > 8 * w:
            raise Bad(sect, 'bit width %d of a block of %d-bit values' % (width, 8 * w))
        bl = None
        if width:
            bl = []
            for b in payload:
                x = tobits(b, 8, 'u8')
                if x is None:
                    raise Bad(sect, 'packed delta byte is %s' % sshow(b), b.opq)
                bl += reversed(x)
            if any(x is not FALSE for x in bl[n * width:]):
                raise Bad(sect, 'padding bits after the last delta are not zero')
        ity = 'i%d' % (8 * w)
        for i in range(n):
            d = K(0)
            if width:
                bs = list(reversed(bl[i * width:(i + 1) * width]))
                d = bits(8 * w, False, bs + [FALSE] * (8 * w - width))
                u = unbits(d)
                if u is None or u.op == 'bits':
                    if all(isbool(x) for x in bs):
                        d = K(sum(1 << k for k, x in enumerate(bs) if x is TRUE))
                else:
                    d = u
            vals.append(wrap(ity, add(add(vals[-1], mind), d)))
        out.append({'n': n, 'width': width, 'min': mind, 'values': vals})
    return out


def read_chunk(r, marker):
    r.sect = 'chunk header'
    c = {'single': marker == 5, 'marker': marker}
    c['name'] = r.str('measurement id')
    c['size'] = r.uvar('chunk data size')
    c['type'] = const(r, r.byte('data type'), 'data type', TYPES)
    c['comp'] = const(r, r.byte('compression type'), 'compression type', COMP)
    c['enc'] = const(r, r.byte('encoding'), 'encoding', ENC)
    c['datapos'] = r.pos
    if c['type'] not in ('INT32', 'INT64', 'FLOAT'):
        raise Bad('chunk header', 'data type %s' % c['type'])
    r.sect = 'page'
    end = add(r.pos, c['size'])
    c['pages'] = []
    if c['single']:
        c['pages'].append(read_page(r, c['type'], c['comp'], True))
        if r.pos is not end:
            raise Bad('chunk header', 'chunk data size %s, but the only page ends after %s bytes' % (
                sshow(c['size']), sshow(sub(r.pos, c['datapos']))), c['size'].opq, differs(c['size'], sub(r.pos, c['datapos'])))
    else:
        r.ends('chunk data size', end)
        while r.pos is not end:
            if r.atend() or len(c['pages']) > 1000:
                raise Bad('chunk header', 'chunk data size %s is not the size of a whole number of pages' % sshow(c['size']))
            c['pages'].append(read_page(r, c['type'], c['comp'], False))
    return c


def read_data(r, head=True):
    """magic and chunk groups up to the separator"""
    f = {'groups': []}
    r.sect = 'head'
    for i, b in enumerate(b'TsFile\x03' if head else b''):
        x = r.byte('magic/version')
        if x.op != 'k' or x.a[0] != b:
            raise Bad('head', 'byte %d of the file is %s instead of %d' % (i, sshow(x), b), x.opq)
    g = None
    while True:
        r.sect = 'marker'
        pos = r.pos
        m = r.byte('a marker')
        m = const(r, m, 'marker')
        if m == 0:
            r.sect = 'chunk group header'
            g = {'pos': pos, 'device': r.str('device id'), 'chunks': []}
            f['groups'].append(g)
        elif m in (1, 5):
            if g is None:
                raise Bad('marker', 'chunk before any chunk group header')
            c = read_chunk(r, m)
            c['pos'] = pos
            g['chunks'].append(c)
        elif m == 2:
            f['separator'] = pos
            break
        else:
            raise Bad('marker', 'unknown marker %d at %s' % (m, sshow(pos)))
    return f


def read_tail(r, f):
    """from the end of the file: magic, footer size, file metadata"""
    idx = r.index()
    segs = r.segs
    tail = segs[-6:]
    if len(tail) < 6 or any(s.op != 'e' or s.a[0].op != 'k' for s in tail) or bytes(s.a[0].a[0] for s in tail) != b'TsFile':
        raise Bad('tail', 'the file does not end with the magic string: %s' % ' '.join(sshow(s) for s in tail),
                  any(s.opq for s in tail))
    end = r.end
    q = r.at(sub(end, K(10)), 'tail')
    size = q.be(4, 'footer size')
    if size.op == 'wrap':
        size = size.a[1]
    f['footer_size'] = size
    foot = sub(sub(end, K(10)), size)
    f['footer'] = foot
    q = r.at(foot, 'tail')
    f['root'] = read_node(q, 'file metadata')
    f['meta_offset'] = q.ibe(8, 'metadata offset')
    q.sect = 'bloom'
    n = q.uvar('bloom filter size in bytes')
    f['bloom_bytes'] = bb = q.bytes(n, 'bloom filter bits')
    f['bloom_size'] = q.uvar('bloom filter size')
    f['bloom_hashes'] = q.uvar('number of hash functions')
    if q.pos is not sub(end, K(10)):
        raise Bad('tail', 'file metadata ends at %s, the footer size says %s' % (sshow(q.pos), sshow(sub(end, K(10)))), wit=differs(q.pos, sub(end, K(10))))
    return f


def read_node(q, sect):
    q.sect = 'root' if sect == 'file metadata' else 'index'
    n = const(q, q.uvar('number of index entries'), 'number of index entries')
    es = []
    for _ in range(n):
        nm = q.str('index entry name')
        es.append((nm, q.ibe(8, 'index entry offset')))
    endo = q.ibe(8, 'index node end offset')
    ty = const(q, q.byte('index node type'), 'index node type', {0: 'INTERNAL_DEVICE', 1: 'LEAF_DEVICE', 2: 'INTERNAL_MEASUREMENT',
                                                                 3: 'LEAF_MEASUREMENT'})
    return {'entries': es, 'end': endo, 'type': ty}


def namele(a, b):
    """a <= b for two names; None if unknown"""
    if a is b:
        return True
    if a in RANK and b in RANK:
        return RANK[a] <= RANK[b]
    x, y = constbytes(a), constbytes(b)
    if x is not None and y is not None:
        return x <= y
    return None


def constbytes(v):
    if v.op == 'str':
        return v.a[0]
    ss = segs_of(v)
    if all(s.op == 'e' and s.a[0].op == 'k' for s in ss):
        return bytes(s.a[0].a[0] for s in ss)
    return None


def choose(node, name):
    """the entry a reader follows for name, and where the child's region ends"""
    best = None
    es = node['entries']
    for i, (n, off) in enumerate(es):
        le = namele(n, name)
        if le is None:
            raise Bad('index', 'order of %s and %s unknown' % (sshow(n), sshow(name)), True)
        if le:
            best = i
    if best is None:
        return None
    return es[best][0], es[best][1], es[best + 1][1] if best + 1 < len(es) else node['end']


def read_tsmeta(q):
    q.sect = 'timeseries metadata'
    m = {'pos': q.pos}
    m['kind'] = const(q, q.byte('timeseries metadata type'), 'timeseries metadata type')
    m['name'] = q.str('measurement id')
    m['type'] = const(q, q.byte('data type'), 'data type', TYPES)
    size = q.uvar('chunk metadata list size')
    m['stats'] = q.stats(m['type'])
    end = add(q.pos, size)
    m['chunks'] = []
    q.ends('chunk metadata list size', end)
    while q.pos is not end:
        if q.atend() or len(m['chunks']) > 1000:
            raise Bad('timeseries metadata', 'chunk metadata list size %s does not cover whole chunk metadata entries' % sshow(size),
                      size.opq)
        c = {'offset': q.ibe(8, 'chunk offset')}
        c['stats'] = q.stats(m['type']) if m['kind'] & 1 else None
        m['chunks'].append(c)
    return m


def key_(t):
    b = constbytes(t)
    return 0 if b is None else b


def child_node(r, e):
    """the node an entry leads to, which must lie inside the region the entry covers"""
    q = r.at(e[1], 'index')
    c = read_node(q, 'index')
    q.ends('region of index entry %s' % sshow(e[0]), e[2])
    if q.index()[e[2]] < q.i and e[2] is not q.pos:
        raise Bad('index', 'the region of index entry %s ends at %s, inside the node it leads to' % (sshow(e[0]), sshow(e[2])))
    return c


def lookup_device(r, f, dev, maxdeg=None):
    node = f['root']
    for _ in range(30):
        checknode(node, maxdeg)
        e = choose(node, dev)
        if e is None:
            raise Bad('index', 'no index entry leads to device %s' % sshow(dev))
        child = child_node(r, e)
        if node['type'] == 'LEAF_DEVICE':
            if e[0] is not dev and constbytes(e[0]) != key_(dev):
                raise Bad('index', 'device %s is not in the leaf the index leads to' % sshow(dev))
            return child
        if node['type'] != 'INTERNAL_DEVICE':
            raise Bad('index', 'looking for a device, found a node of type %s' % node['type'])
        node = child
    raise Bad('index', 'index deeper than 30 levels')


def lookup(r, f, dev, ser, maxdeg=None):
    """the timeseries metadata a reader finds for a series"""
    node = lookup_device(r, f, dev, maxdeg)
    for _ in range(30):
        checknode(node, maxdeg)
        if node['type'] not in ('INTERNAL_MEASUREMENT', 'LEAF_MEASUREMENT'):
            raise Bad('index', 'looking for a measurement, found a node of type %s' % node['type'])
        e = choose(node, ser)
        if e is None:
            raise Bad('index', 'no index entry leads to series %s of device %s' % (sshow(ser), sshow(dev)))
        if node['type'] == 'LEAF_MEASUREMENT':
            q = r.at(e[1], 'index')
            n = 0
            found = None
            q.ends('region of leaf entry %s' % sshow(e[0]), e[2])
            while q.pos is not e[2]:
                if q.atend():
                    raise Bad('index', 'region of the leaf entry %s does not end where the index says (%s)' % (sshow(e[0]), sshow(e[2])))
                m = read_tsmeta(q)
                n += 1
                if maxdeg and n > maxdeg:
                    raise Bad('index', 'a leaf entry covers more than %d series' % maxdeg)
                if n == 1 and m['name'] is not e[0] and constbytes(m['name']) != constbytes(e[0]):
                    raise Bad('index', 'leaf entry %s points at the metadata of %s' % (sshow(e[0]), sshow(m['name'])))
                if m['name'] is ser or (constbytes(ser) is not None and constbytes(m['name']) == constbytes(ser)):
                    found = found or m
            if found:
                return found
            raise Bad('index', 'series %s of device %s is not in the region its index entry covers' % (sshow(ser), sshow(dev)))
        node = child_node(r, e)
    raise Bad('index', 'index deeper than 30 levels')


def checknode(node, maxdeg):
    es = node['entries']
    if not es:
        raise Bad('index', 'an index node without entries')
    if maxdeg and len(es) > maxdeg:
        raise Bad('index', 'an index node of type %s has %d entries, the limit is %d' % (node['type'], len(es), maxdeg))
    for i in range(len(es) - 1):
        if namele(es[i][0], es[i + 1][0]) is False:
            raise Bad('index', 'entries %s and %s of an index node are not sorted' % (sshow(es[i][0]), sshow(es[i + 1][0])))
