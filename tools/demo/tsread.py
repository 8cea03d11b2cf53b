"""An independent TsFile reader: reads a file back completely and compares it with a script of calls."""
import struct, sys, subprocess, os

M64 = 2**64 - 1


class BadFile(Exception):
    pass


def need(c, msg):
    if not c:
        raise BadFile(msg)


class B:
    def __init__(self, d, p=0, end=None):
        self.d, self.p, self.end = d, p, len(d) if end is None else end

    def take(self, n):
        need(n >= 0 and self.p + n <= self.end, 'read past the end at %d (+%d, end %d)' % (self.p, n, self.end))
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def be(self, n, signed=True):
        return int.from_bytes(self.take(n), 'big', signed=signed)

    def uvar(self):
        x = s = 0
        while True:
            b = self.u8()
            x |= (b & 127) << s
            s += 7
            need(s <= 35, 'variable-length integer too long')
            if b < 128:
                need(b != 0 or s == 7, 'variable-length integer not minimal')
                return x

    def var(self):
        u = self.uvar()
        return (u >> 1) ^ -(u & 1)

    def vstr(self):
        n = self.var()
        need(n >= 0, 'negative string length')
        return self.take(n).decode()


def unsnappy(d):
    b = B(d)
    n = b.uvar()
    out = bytearray()
    while b.p < len(d):
        t = b.u8()
        k = t & 3
        if k == 0:
            l = t >> 2
            if l >= 60:
                l = int.from_bytes(b.take(l - 59), 'little')
            out += b.take(l + 1)
            continue
        if k == 1:
            l, o = (t >> 2 & 7) + 4, (t >> 5) << 8 | b.u8()
        elif k == 2:
            l, o = (t >> 2) + 1, int.from_bytes(b.take(2), 'little')
        else:
            l, o = (t >> 2) + 1, int.from_bytes(b.take(4), 'little')
        need(0 < o <= len(out), 'bad snappy offset')
        for _ in range(l):
            out.append(out[-o])
    need(len(out) == n, 'snappy length')
    return bytes(out)


def ts2diff(d, w):
    b = B(d)
    out = []
    while b.p < len(d):
        n = b.be(4)
        width = b.be(4)
        mn = b.be(w)
        first = b.be(w)
        need(0 <= n <= 128 and 0 <= width <= 8 * w, 'TS_2DIFF block header n=%d width=%d' % (n, width))
        need(not (out and False), '')
        bits = int.from_bytes(b.take((n * width + 7) // 8), 'big')
        tot = (n * width + 7) // 8 * 8
        vs = [first]
        for i in range(n):
            x = bits >> (tot - (i + 1) * width) & ((1 << width) - 1)
            v = (vs[-1] + mn + x) & ((1 << 8 * w) - 1)
            if v >> (8 * w - 1):
                v -= 1 << 8 * w
            vs.append(v)
        if b.p < len(d):
            need(n == 128, 'a TS_2DIFF block of %d deltas is not the last' % n)
        out += vs
    return out


TY = {1: 'INT32', 2: 'INT64', 3: 'FLOAT'}
SF = {'INT32': '>i', 'INT64': '>q', 'FLOAT': '>f'}


def stats(b, ty):
    s = {'count': b.uvar(), 't0': b.be(8), 't1': b.be(8)}
    n = struct.calcsize(SF[ty])
    for k in ('min', 'max', 'first', 'last'):
        s[k] = struct.unpack(SF[ty], b.take(n))[0]
    s['sum'] = b.be(8) if ty == 'INT32' else struct.unpack('>d', b.take(8))[0]
    return s


def chkstats(s, pts, ty, what):
    vs = [v for _, v in pts]
    w = {'count': len(pts), 't0': pts[0][0], 't1': pts[-1][0], 'min': min(vs), 'max': max(vs), 'first': vs[0], 'last': vs[-1]}
    for k in w:
        need(s[k] == w[k], '%s: statistics %s is %r, must be %r' % (what, k, s[k], w[k]))
    t = sum(vs) if ty != 'INT32' else sum(vs)
    if ty == 'INT32':
        t = (t + 2**63) % 2**64 - 2**63
        need(s['sum'] == t, '%s: sum %r, must be %r' % (what, s['sum'], t))
    else:
        tol = 1e-9 * sum(abs(v) for v in vs) + 1e-9
        need(abs(s['sum'] - sum(map(float, vs))) <= tol, '%s: sum %r, must be %r' % (what, s['sum'], sum(map(float, vs))))


def read(d, deg=256):
    """everything in the file; raises BadFile"""
    b = B(d)
    need(b.take(6) == b'TsFile', 'no magic at the start')
    need(b.u8() == 3, 'version')
    chunks = {}        # (dev, ser) -> [(offset, points)]
    groups = []
    while True:
        m = b.u8()
        if m == 2:
            break
        need(m == 0, 'chunk group marker expected at %d, found %d' % (b.p - 1, m))
        dev = b.vstr()
        groups.append(dev)
        while d[b.p] in (1, 5):
            off = b.p
            mk = b.u8()
            ser = b.vstr()
            size = b.uvar()
            ty = TY.get(b.u8())
            need(ty, 'data type')
            co = b.u8()
            en = b.u8()
            need(co in (0, 1) and en in (0, 4), 'codes %d %d' % (co, en))
            end = b.p + size
            pages = []
            while b.p < end:
                un, cn = b.uvar(), b.uvar()
                st = stats(b, ty) if mk == 1 else None
                data = b.take(cn)
                if co == 1:
                    data = unsnappy(data)
                need(len(data) == un, 'uncompressed size %d, page has %d' % (un, len(data)))
                p = B(data)
                tl = p.uvar()
                ts = ts2diff(p.take(tl), 8)
                rest = data[p.p:]
                if en == 4:
                    vs = ts2diff(rest, 8 if ty == 'INT64' else 4)
                else:
                    q = B(rest)
                    vs = []
                    while q.p < len(rest):
                        vs.append(q.var() if ty == 'INT32' else struct.unpack(SF[ty], q.take(8 if ty == 'INT64' else 4))[0])
                need(len(ts) == len(vs), 'page of %s.%s has %d times and %d values' % (dev, ser, len(ts), len(vs)))
                pts = list(zip(ts, vs))
                need(pts, 'empty page')
                if st:
                    chkstats(st, pts, ty, 'page of %s.%s' % (dev, ser))
                pages.append(pts)
            need(b.p == end, 'chunk of %s.%s: pages end at %d, the header says %d' % (dev, ser, b.p, end))
            need((mk == 5) == (len(pages) == 1), 'marker %d with %d pages' % (mk, len(pages)))
            chunks.setdefault((dev, ser), []).append((off, pages, ty, en, co))
    sep = b.p - 1
    need(d[-6:] == b'TsFile', 'no magic at the end')
    fs = int.from_bytes(d[-10:-6], 'big')
    f = len(d) - 10 - fs
    need(f > sep, 'footer size')

    def node(p):
        q = B(d, p)
        n = q.uvar()
        es = []
        for _ in range(n):
            nm = q.vstr()
            es.append((nm, q.be(8)))
        en = q.be(8)
        need(0 < n <= deg, 'index node with %d entries' % n)
        need([e[0] for e in es] == sorted({e[0] for e in es}), 'index entries not sorted: %s' % es)
        return es, en, q.u8(), q.p
    index = {}
    q = B(d, f)
    if q.uvar() == 0:
        q.p = f + 1
        q.be(8)
        q.u8()
        fp = q.p
        need(not chunks, 'empty index but chunks in the file')
        root = None
    else:
        root = node(f)
        fp = root[3]

    def meas(p, dev):
        es, en, t, _ = node(p)
        need(t in (2, 3), 'measurement node expected, type %d' % t)
        for i, (nm, off) in enumerate(es):
            e2 = es[i + 1][1] if i + 1 < len(es) else en
            if t == 2:
                c = node(off)
                need(c[0][0][0] == nm, 'internal entry %s points at %s' % (nm, c[0][0][0]))
                meas(off, dev)
                need(c[3] == e2, 'child region of %s' % nm)
                continue
            r = B(d, off)
            k = 0
            while r.p < e2:
                kind = r.u8()
                ser = r.vstr()
                ty = TY[r.u8()]
                sz = r.uvar()
                st = stats(r, ty)
                end = r.p + sz
                cs = []
                while r.p < end:
                    o = r.be(8)
                    cs.append((o, stats(r, ty) if kind & 1 else None))
                need(r.p == end, 'chunk metadata list size of %s.%s' % (dev, ser))
                need((dev, ser) not in index, 'series %s.%s twice in the index' % (dev, ser))
                if k == 0:
                    need(ser == nm, 'leaf entry %s points at %s' % (nm, ser))
                index[(dev, ser)] = (kind, ty, st, cs)
                k += 1
            need(r.p == e2 and k <= deg, 'leaf region of %s ends at %d, not %d' % (nm, r.p, e2))

    def devs(p):
        es, en, t, _ = node(p)
        need(t in (0, 1), 'device node expected, type %d' % t)
        for nm, off in es:
            if t == 0:
                need(node(off)[0][0][0] == nm, 'internal device entry %s' % nm)
                devs(off)
            else:
                meas(off, nm)
    if root:
        devs(f)
    r = B(d, fp)
    need(r.be(8) == sep, 'metadata offset is not the separator')
    n = r.uvar()
    bits = r.take(n)
    size, nh = r.uvar(), r.uvar()
    need(r.p == len(d) - 10, 'file metadata ends at %d, not %d' % (r.p, len(d) - 10))
    for k in index:
        need(k in chunks, 'index names %s.%s which has no chunk' % k)
    for k, cs in chunks.items():
        need(k in index, 'series %s.%s is not in the index' % k)
        kind, ty, st, ms = index[k]
        need([c[0] for c in cs] == [m[0] for m in ms], 'chunk offsets of %s.%s: %s, chunks are at %s' % (k[0], k[1], [m[0] for m in ms], [c[0] for c in cs]))
        need((kind == 1) == (len(cs) > 1), 'kind %d of %s with %d chunks' % (kind, k, len(cs)))
        al = [p for c in cs for pg in c[1] for p in pg]
        chkstats(st, al, ty, 'series %s.%s' % k)
        for c, m in zip(cs, ms):
            if m[1]:
                chkstats(m[1], [p for pg in c[1] for p in pg], ty, 'chunk of %s.%s' % k)
        need([t for t, _ in al] == sorted({t for t, _ in al}), 'times of %s.%s not increasing' % k)
        # bloom filter
        path = ('%s.%s' % k).encode()
        for s in (5, 7, 11, 19, 31, 37, 43, 59)[:nh]:
            ok = False
            for signed in (False, True):
                h = murmur(path, s, signed) % 2**32
                h = h - 2**32 if h >> 31 else h
                h = abs(h) % size
                ok = ok or (h // 8 < len(bits) and bits[h // 8] >> (h % 8) & 1)
            need(ok, 'bloom filter denies %s (%d bits, %d hashes)' % (path, size, nh))
    return {'chunks': chunks, 'groups': groups, 'bloom': (size, nh, len(bits))}


def rotl(x, r):
    return (x << r | x >> (64 - r)) & M64


def fmix(k):
    k ^= k >> 33
    k = k * 0xff51afd7ed558ccd & M64
    k ^= k >> 33
    k = k * 0xc4ceb9fe1a85ec53 & M64
    return k ^ k >> 33


def murmur(d, seed, signed=False):
    c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
    h1 = h2 = seed
    n = len(d) // 16
    for i in range(n):
        k1, k2 = struct.unpack_from('<QQ', d, 16 * i)
        h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
        h1 = (rotl(h1, 27) + h2) * 5 + 0x52dce729 & M64
        h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
        h2 = (rotl(h2, 31) + h1) * 5 + 0x38495ab5 & M64
    t = d[16 * n:]
    k1 = k2 = 0
    for i in range(len(t) - 1, -1, -1):
        b = t[i] - 256 if signed and t[i] > 127 else t[i]
        if i >= 8:
            k2 = (k2 ^ (b << 8 * (i - 8))) & M64
            if i == 8:
                h2 ^= rotl(k2 * c2 & M64, 33) * c1 & M64
        else:
            k1 = (k1 ^ (b << 8 * i)) & M64
            if i == 0:
                h1 ^= rotl(k1 * c1 & M64, 31) * c2 & M64
    h1 ^= len(d)
    h2 ^= len(d)
    h1 = h1 + h2 & M64
    h2 = h2 + h1 & M64
    h1, h2 = fmix(h1), fmix(h2)
    h1 = h1 + h2 & M64
    h2 = h2 + h1 & M64
    return h1 + h2 & M64


def rnd(seed, i):
    z = (seed * 0x9E3779B97F4A7C15 + i * 0xD1B54A32D192ED03) & M64
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    return z ^ z >> 31


def gval(t, s, i):
    z = rnd(s, i)
    if t == 'INT32':
        z &= 2**32 - 1
        return z - 2**32 if z >> 31 else z
    if t == 'INT64':
        return z - 2**64 if z >> 63 else z
    return float(z % 20001) - 10000.0


def f32(x):
    return struct.unpack('>f', struct.pack('>f', float(x)))[0]


def expect(script):
    """what must be answered and stored"""
    sch, pts, last, out, closed = {}, {}, {}, ['ok'], False
    opened = False
    for l in script.split('\n'):
        p = l.split()
        if not p or p[0].startswith('#'):
            continue
        if p[0] == 's':
            sch[(p[1], p[2])] = tuple(p[3:])
        if p[0] == 'open':
            opened = True
            continue
        if not opened:
            continue

        def put(k, t, ty, v):
            if closed or k not in sch or sch[k][0] != ty or (ty == 'FLOAT' and sch[k][1] == 'TS2DIFF') or t <= last.get(k, -1):
                return False
            last[k] = t
            pts.setdefault(k, []).append((t, v))
            return True
        cv = lambda ty, v: f32(v) if ty in ('FLOAT', 'DOUBLE') else int(v)
        if p[0] == 'w':
            out.append('ok' if put((p[1], p[2]), int(p[3]), p[4], cv(p[4], p[5])) else 'err')
        elif p[0] == 'g':
            k = 0
            for i in range(int(p[4])):
                k += put((p[1], p[2]), int(p[3]) + i * int(p[5]), p[6], gval(p[6], int(p[7]), i))
            out.append(str(k))
        elif p[0] == 'm':
            r = not closed and p[1] in {d for d, _ in sch}
            for i in range(3, len(p) - 2, 3):
                if r and not put((p[1], p[i]), int(p[2]), p[i + 1], cv(p[i + 1], p[i + 2])):
                    r = False
            out.append('ok' if r else 'err')
        elif p[0] == 'close':
            out.append('err' if closed else 'ok')
            closed = True
    return out, pts


def run(binary, script, path):
    clean = '\n'.join(l for l in script.split('\n') if not l.startswith('#'))
    r = subprocess.run([binary, path], input=clean, capture_output=True, text=True)
    return r.stdout.split(), r


def check(binary, script, path, deg=256, answers=True):
    """run the script, read the file back, compare; returns what was read"""
    if os.path.exists(path):
        os.remove(path)
    out, r = run(binary, script, path)
    want, pts = expect(script)
    if answers:
        for i, (a, b) in enumerate(zip(out, want)):
            need(a == b, 'call %d answered %s, must be %s' % (i, a, b))
        need(len(out) == len(want), 'answers %s, must be %s %s' % (out[-3:], want[-3:], r.stderr[-300:]))
    f = read(open(path, 'rb').read(), deg)
    got = {k: [p for c in cs for pg in c[1] for p in pg] for k, cs in f['chunks'].items()}
    for k in sorted(set(got) | set(pts)):
        need(got.get(k, []) == pts.get(k, []), 'series %s.%s holds %d points %s, accepted %d %s' % (
            k[0], k[1], len(got.get(k, [])), got.get(k, [])[:4], len(pts.get(k, [])), pts.get(k, [])[:4]))
    sch = {(q[1], q[2]): q[3:6] for q in (l.split() for l in script.split('open')[0].split('\n')) if q and q[0] == 's'}
    for k, cs in f['chunks'].items():
        for c in cs:
            want = (sch[k][0], 0 if sch[k][1] == 'PLAIN' else 4, 1 if sch[k][2] == 'SNAPPY' else 0)
            need(c[2:5] == want, 'chunk of %s.%s has codes %s, declared %s' % (k + (c[2:5], want)))
    return f
