"""Client contexts: abstract executions of the public API, and what the file
must hold afterwards.

A context fixes which calls are made (how many devices and series of which
types, in which order they are written, where pages and chunk groups end) and
leaves the contents unknown: identifiers, the start time and all values are
symbols, so one analysis covers every file of that shape.
"""
from client import *
from terms import *
import terms
import summ
import re
import time
import reader
from reader import Bad, sshow
from facts import Missing

VT = {'INT32': ('INT', 'int', 'i32'), 'INT64': ('LONG', 'int', 'i64'), 'FLOAT': ('FLOAT', 'float', 'f32'), 'DOUBLE': ('DOUBLE', 'float', 'f64')}


def setf(F, v, **kw):
    for k, x in kw.items():
        i = F.fieldno(v.a[0], k)
        a = list(v.a)
        a[2 + i] = x
        v = adt(*a)
    return v


def has_unknown_fields(F, name, known):
    try:
        return [f[0] for f in F.adt(name)['v'][0]['f'] if f[0] not in known]
    except Missing:
        return None


def find_sinks(v, seen=None, out=None, depth=0):
    if out is None:
        out, seen = [], set()
    if v in seen or depth > 40:
        return out
    seen.add(v)
    if v.op == 'adt' and v.a[0] == 'Sink':
        out.append(v)
        return out
    for x in v.a:
        if isinstance(x, T):
            find_sinks(x, seen, out, depth + 1)
    return out


def inbox(v, f):
    """apply f to what a box holds"""
    if v.op == 'adt' and len(v.a) == 3 and isinstance(v.a[2], T) and v.a[2].op == 'adt':
        return adt(v.a[0], v.a[1], inbox(v.a[2], f))
    return f(v)


def noblob(pts):
    return [p for p in pts if p[0] != 'blob']


def cut(v, b, rep, props, ob, what, at=None):
    """v without the unknown part b, which must be there once (and be preceded by so many parts)"""
    s = list(segs_of(v))
    bs = list(segs_of(seqval([splice(b)]) if b.op == 'sym' else b))
    for i in range(len(s) - len(bs) + 1):
        if s[i] is bs[0] and s[i:i + len(bs)] == bs and (len(bs) == 1 or at is None or at == i):
            if at is not None and i != at and len(bs) == 1:
                break
            rep.add(props, ob, 'ok')
            return seqval(s[:i] + s[i + len(bs):])
    rep.add(props, ob, 'violation', '%s: what the page held earlier is not where it belongs: %s' % (what, sshow(v)))
    return None


def counters(v, n, depth=0):
    """how many fields of a value, at any depth, hold this count"""
    if v is n:
        return 1
    if v.op != 'adt' or depth > 12 or v.a[0] in ('TsFileConfig', 'Sink'):
        return 0
    return sum(counters(f, n, depth + 1) for f in v.a[2:] if isinstance(f, T))


class Dev:
    def __init__(self, name, series):
        self.name, self.series = name, series


class Model:
    """what has been accepted: per (device, series) a list of chunks, each a list of pages, each a list of points"""
    def __init__(self):
        self.flushes = []        # per flush: {(dev,ser): [pages]}
        self.open = {}           # (dev,ser) -> [pages], last may be open

    def point(self, key, t, v):
        ps = self.open.setdefault(key, [[]])
        if not ps:
            ps.append([])
        ps[-1].append((t, v))

    def blob(self, key, times, values):
        self.open[key][-1].append(('blob', times, values))

    def seal(self, key=None):
        for k, ps in self.open.items():
            if (key is None or k == key) and ps and ps[-1]:
                ps.append([])

    def flush(self):
        f = {k: [p for p in ps if p] for k, ps in self.open.items()}
        f = {k: ps for k, ps in f.items() if ps}
        if f:
            self.flushes.append(f)
        self.open = {}
        return bool(f)


HASHORDER = [False]
EARLY = []         # findings of the context at hand (one process, one context)


NOREFUSE = [False]        # leave out the calls that must be refused


class Ctx:
    def __init__(self, F, name, devices, cfg=None, hash_rev=False, murmur='murmur_fixed', base=K(0), small=True, stingy=False, sink=None, logging=False):
        self.F = F
        self.name = name
        self.c = Client(F)
        I = self.c.I
        self.I = I
        I.hash_rev = hash_rev or HASHORDER[0]
        I.stingy = stingy
        I.logging = I.logging or logging
        if murmur == 'table':
            summ.install(I, 'var')
            self.table = {}
            I.maxvisits = 200000
            import modular
            modular.hashes(self.c, F, self.hashval)
        else:
            summ.install(I, 'var', *([murmur] if murmur else []))
        self.devices = devices
        self.murmur = murmur
        self.model = Model()
        self.rets = []
        self.assumed = []
        self.bases = {}
        self.t0 = sym('t0', ('int', 'i64'))
        terms.BOUND[self.t0] = (0, 2**62)
        c = self.c
        b = c.new(c.call('TsFileSchemaBuilder', 'new'))
        self.chain = None
        for d in devices:
            db = c.new(c.call('DeviceBuilder', 'new'))
            for (s, ty, en, co) in d.series:
                c.call('DeviceBuilder', 'add', db, s, c.case('TSDataType', ty), c.case('TSEncoding', en), c.case('CompressionType', co))
            c.call('TsFileSchemaBuilder', 'add', b, d.name, c.call('DeviceBuilder', 'build', db))
        self.schema = c.call('TsFileSchemaBuilder', 'build', b)
        cf = c.call('TsFileConfig', 'default', trait='Default')
        if small:
            cf = setf(F, cf, minimal_size=K(1), maximal_hash_function_size=K(1))
        if cfg:
            cf = setf(F, cf, **{k: K(x) for k, x in cfg.items()})
        self.cfg = cf
        w = c.call('TsFileWriter', 'new_from_writer', self.schema, sink or adt('Sink', 0, base, EMPTY), cf)
        self.created = w
        self.w = None
        if w is not None:
            self.w = c.new(fld(w, 'Result', 0, 0))

    def hashval(self, p, seed):
        """some hash values, concrete ones, for the paths of this context"""
        if seed.op != 'k':
            raise Undecided('unknown seed')
        import random
        k = (p, seed.a[0])
        if k not in self.table:
            self.table[k] = K(random.Random(len(self.table)).randrange(-2**31 + 1, 2**31))
        return self.table[k]

    def assume(self, cond):
        self.assumed.append(cond)
        self.c.st.pc = and_(self.c.st.pc, cond)

    def time(self, k):
        return add(self.t0, K(k))

    def value(self, ty, name, const=None):
        v, kind, w = VT[ty]
        if const is not None:
            return const
        s = sym('%s:%s' % (name, w), (kind, w))
        return s

    def near(self, ty, base, k):
        """base + k, where base is an unknown value far enough from the ends of its type"""
        key = (ty, base)
        if key not in self.bases:
            b = sym('%s:near %s' % (base, VT[ty][2]), VT[ty][1:])
            lim = 2**30 if ty == 'INT32' else 2**62
            terms.BOUND[b] = (-lim, lim)
            self.bases[key] = b
        return add(self.bases[key], K(k))

    def iov(self, ty, v):
        return self.c.case('IoTDBValue', VT[ty][0], v)

    def write(self, dev, ser, ty, k, v, accepted=True, t=None):
        """a write; t0+k unless a time term is given"""
        if accepted is False and NOREFUSE[0]:
            return
        tt = self.time(k) if t is None else t
        r = self.c.call('TsFileWriter', 'write', self.w, dev, ser, tt, self.iov(ty, v))
        self.rets.append(('write', sshow(dev), sshow(ser), r, accepted))
        self.early()
        if accepted:
            self.model.point((dev, ser), tt, v)
        return r

    def write_many(self, dev, k, pts, accepted=True, t=None, upto=0):
        """with accepted=False, the first `upto` points are accepted all the same"""
        if accepted is False and NOREFUSE[0]:
            if not upto:
                return
            pts, accepted = pts[:upto], True
        tt = self.time(k) if t is None else t
        items = [adt('DataPoint', 0, *self.order('DataPoint', measurement_id=s, value=self.iov(ty, v))) for (s, ty, v) in pts]
        r = self.c.call('TsFileWriter', 'write_many', self.w, dev, tt, seqval([e_(x) for x in items]))
        self.rets.append(('write_many', sshow(dev), '', r, accepted))
        self.early()
        if accepted is not None:
            for (s, ty, v) in pts if accepted else pts[:upto]:
                self.model.point((dev, s), tt, v)
        return r

    def early(self):
        """a call whose result is wrong for certain: kept in case the rest is out of reach"""
        op, d, s, r, acc = self.rets[-1]
        if r is None or acc is None:
            return
        v = isv(r, 0, 2)
        if v is B(bool(acc)) or v.opq or any(x[0] in ('close',) for x in self.rets):
            return
        pc = TRUE
        for c in self.assumed:
            pc = and_(pc, c)
        rep = Report()
        same(v, B(bool(acc)), pc, rep, ('P14 P03 P04 P01' if acc else 'P03 P04') + getattr(self, 'also', ''), '%s/call %d %s' % (self.name, len(self.rets) - 1, op),
             'call %d, %s(%s%s), succeeds' % (len(self.rets) - 1, op, d, ', ' + s if s else ''))
        EARLY.extend(i for i in rep.items if i[2] == 'violation')

    def anytime(self, name, lo=0, hi=2**63 - 1):
        t = sym(name, ('int', 'i64'))
        terms.BOUND[t] = (lo, hi)
        return t

    def order(self, name, **kw):
        fs = self.F.adt(name)['v'][0]['f']
        if {f[0] for f in fs} != set(kw):
            raise Missing('fields of ' + name)
        return [kw[f[0]] for f in fs]

    # ends of pages and chunk groups happen where a size threshold is passed; here they are placed explicitly
    def groups(self):
        wv = self.c.get(self.w)
        g = self.F.fieldno('TsFileWriter', 'group_writers')
        return wv, g

    def seal(self):
        wv, g = self.groups()
        m = fld(wv, 'TsFileWriter', 0, g)
        for i in range(len(models.entries(m))):
            gr = self.I.subref(self.I.subref(self.w, ('f', 0, g, 'TsFileWriter')), ('mv', i))
            r = self.c.call('GroupWriter', 'seal_all_chunks', gr)
            self.rets.append(('page end', '', '', r, True))
        self.model.seal()

    def entry(self, r, name, field, key):
        """reference to the value a map field holds under a key"""
        i = self.F.fieldno(name, field)
        m = fld(self.c.get(r), name, 0, i)
        for j, e in enumerate(models.entries(m)):
            if e[0] is key or reader.constbytes(e[0]) is not None and reader.constbytes(e[0]) == reader.constbytes(key):
                return self.I.subref(self.I.subref(r, ('f', 0, i, name)), ('mv', j))
        raise Undecided('no %s in %s' % (sshow(key), field))

    def blob(self, dev, ser, name, lim=2**29):
        """from here on the open page of the series has also been given any number of earlier points: an unknown
        amount of encoded times and of encoded values, in front of what is still to come"""
        if self.c.st is None:
            return
        F, c = self.F, self.c
        h = self.entry(self.entry(self.w, 'TsFileWriter', 'group_writers', dev), 'GroupWriter', 'chunk_writers', ser)
        bt, bv = sym('blob times ' + name), sym('blob values ' + name)
        for b in (bt, bv):
            terms.BOUND[length(seqval([splice(b)]))] = (1, lim)
        pw = fld(fld(c.get(h), 'ChunkWriter', 0, F.fieldno('ChunkWriter', 'current_page_writer')), 'Option', 1, 0)

        def more(v, b):
            if v.op == 'ref':
                c.I.store(c.st, v, more(c.get(v), b))
                return v
            i = F.fieldno(v.a[0], 'buffer')
            return setf(F, v, buffer=seqval(list(segs_of(fld(v, v.a[0], 0, i))) + [splice(b)]))
        te, ve = (fld(pw, 'PageWriter', 0, F.fieldno('PageWriter', k)) for k in ('time_encoder', 'value_encoder'))
        pw = setf(F, pw, time_encoder=more(te, bt), value_encoder=inbox(ve, lambda v: more(v, bv)))
        c.I.store(c.st, h, setf(F, c.get(h), current_page_writer=some(pw)))
        self.model.blob((dev, ser), bt, bv)

    def ahead(self, lo=2**32, hi=2**45):
        """the file has become long already: what follows goes to an unknown position beyond 32 bits.  The writer
        learns of positions from what counts the bytes handed to the sink, and from nothing else"""
        if self.c.st is None:
            return
        wv = self.c.get(self.w)
        s = find_sinks(wv)
        if len(s) != 1:
            raise Undecided('the byte sink of the writer was not found')
        n = length(s[0].a[3])
        at = sym('file position', ('int', 'i64'))
        terms.BOUND[at] = (lo, hi)
        if n.op != 'k' or n.a[0] == 0 or s[0].a[2] is not K(0):
            raise Undecided('what a new writer has handed to the sink')
        k = counters(wv, n)
        if k > 1:
            raise Undecided('several counts of the bytes handed to the sink')

        def moved(v):
            if v is n:
                return at
            if v.op != 'adt' or v.a[0] == 'TsFileConfig':
                return v
            if v.a[0] == 'Sink':
                return adt('Sink', 0, at, EMPTY)
            return adt(*[moved(f) if isinstance(f, T) else f for f in v.a])
        self.c.I.store(self.c.st, self.w, moved(wv))
        self.nohead = True

    def flush(self):
        r = self.c.call('TsFileWriter', 'flush_all_chunk_groups', self.w)
        self.rets.append(('chunk group end', '', '', r, True))
        self.model.flush()

    def close(self, accepted=True):
        if accepted is False and NOREFUSE[0]:
            return
        r = self.c.call('TsFileWriter', 'close', self.w)
        self.rets.append(('close', '', '', r, accepted))
        if accepted:
            self.model.flush()
        return r

    def output(self):
        if self.c.st is None:
            return None
        s = find_sinks(self.c.get(self.w))
        if len(s) != 1:
            raise Undecided('the byte sink of the writer was not found')
        return s[0]


class Finding(Exception):
    pass


def foldstats(ty, pts, lt_, add_, conv):
    """statistics of a list of points (in time order)"""
    v0 = pts[0][1]
    mn = mx = v0
    for _, v in pts[1:]:
        mn = ite(lt_(v, mn), v, mn)
        mx = ite(lt_(mx, v), v, mx)
    return {'count': K(len(pts)), 'ts_first': pts[0][0], 'ts_last': pts[-1][0], 'min': mn, 'max': mx, 'first': v0,
            'last': pts[-1][1]}


# ------------------------------------------------------------------ checking a finished context
def fsum_terms(v):
    """the terms a floating-point sum adds up, ignoring order and zeros"""
    if v.op == 'fadd':
        return fsum_terms(v.a[1]) + fsum_terms(v.a[2])
    if v.op == 'f' and v.a[1] == 0:
        return []
    return [v]


class Report:
    def __init__(self):
        self.items = []      # (props, obligation, status, detail, 'w' if shown by a valuation)

    def add(self, props, ob, status, detail='', wit=''):
        self.items.append((tuple(props.split()), ob, status, detail, wit))


import eval as ev_


def same(a, b, pc, rep, props, ob, what, norm=None):
    """obligation: a (what the code produces) is b (what the property demands) wherever pc holds"""
    if a is b:
        rep.add(props, ob, 'ok')
        return True
    a2, b2 = restrict(a, pc), restrict(b, pc)
    if a2 is b2:
        rep.add(props, ob, 'ok')
        return True
    if a2.opq or b2.opq:
        rep.add(props, ob, 'undecided', '%s: depends on something outside the abstraction: %s' % (what, sshow(a2)))
        return False
    o = ev_.order_eq(a2, b2)
    if o is True:
        rep.add(props, ob, 'ok')
        return True
    if not ev_.symbols(a2, b2) and ev_.constant_eq(a2, b2, norm):
        rep.add(props, ob, 'ok')
        return True
    w, n = ev_.differ(a2, b2, pc, norm=norm)
    if w:
        rep.add(props, ob, 'violation', '%s is %s, must be %s; e.g. with %s: %s instead of %s' % (
            what, sshow(a2), sshow(b2), w['valuation'], w['got'], w['expected']), 'w')
    else:
        rep.add(props, ob, 'undecided', '%s: %s and %s not shown equal (no difference on %d valuations)' % (what, sshow(a2), sshow(b2), n))
    return False


def check_stats(I, rep, st, ty, pts, pagesum, pc, props, ob, what):
    if st is None:
        return
    lt_ = (lambda x, y: I.flt(x, y)) if ty == 'FLOAT' else lt
    want = foldstats(ty, pts, lt_, None, None)
    w = 32 if ty != 'INT64' else 64
    for k in ('count', 'ts_first', 'ts_last', 'min', 'max', 'first', 'last'):
        g, e = st[k], want[k]
        if ty == 'FLOAT' and k in ('min', 'max', 'first', 'last'):
            e = lift(lambda x: app('fbits', 'f32', x), e) if e.op != 'f' else e
            e = fbits_of('f32', want[k])
        if k in ('ts_first', 'ts_last') or ty != 'FLOAT':
            g = strip(g, 32 if k == 'count' else 64 if k in ('ts_first', 'ts_last') else w)
        same(g, e, pc, rep, props, '%s/%s' % (ob, k), '%s of %s' % (NAMES[k], what))
    # sum: any order of addition is accepted
    if ty == 'INT32':
        e = K(0)
        for _, v in pts:
            e = add(e, v)
        same(strip(st['sum']), e, pc, rep, props, ob + '/sum', 'sum of ' + what)
    else:
        g = st['sum']
        if g.op == 'fbits':
            got = sorted(fsum_terms(g.a[1]), key=lambda t: t.id)
            exp = sorted([(app('f2f', 'f64', v) if ty == 'FLOAT' else app('i2f', 'f64', v)) for _, v in pts], key=lambda t: t.id)
            if got == exp:
                rep.add(props, ob + '/sum', 'ok')
                return
            acc = FL('f64', 0)
            for x in exp:
                acc = terms._mk('fadd', 'f64', acc, x)
            same(g, app('fbits', 'f64', acc), pc, rep, props, ob + '/sum', 'sum of ' + what, norm=approx)
        else:
            acc = FL('f64', 0)
            for _, v in pts:
                x = app('f2f', 'f64', v) if ty == 'FLOAT' else I.i2f('f64', v)
                acc = I.fop('fadd', 'f64', acc, x)
            same(g, fbits_of('f64', acc), pc, rep, props, ob + '/sum', 'sum of ' + what, norm=approx)


def approx(bits):
    """compare sums up to rounding"""
    import struct
    try:
        x = struct.unpack('>d', struct.pack('>Q', bits % 2**64))[0]
    except Exception:
        return bits
    return 'NaN' if x != x else float('%.9g' % x)


NAMES = {'count': 'point count', 'ts_first': 'start time', 'ts_last': 'end time', 'min': 'minimum', 'max': 'maximum',
         'first': 'first value', 'last': 'last value'}


def strip(t, w=64):
    """the bytes of a w-bit field do not tell a value from its residue"""
    if t.op == 'wrap' and int(re.sub('[^0-9]', '', t.a[0].replace('size', '64'))) >= w:
        return t.a[1]
    return t


def fbits_of(w, v):
    if v.op == 'f':
        return K(v.a[1])
    return app('fbits', w, v)


zigzag = summ.zz


def read_values(c, page, pts, pc, rep, props, ob, what):
    ty, enc = c['type'], c['enc']
    w = 8 if ty == 'INT64' else 4
    if enc == 'TS2DIFF':
        got = []
        bl = reader.ts2diff(page['values'], w, 'values')
        for b in bl:
            got += b['values']
        return got, bl
    q = reader.R(page['values'], sect='values')
    got = []
    while not q.atend():
        if ty == 'INT32':
            got.append(('zz', q.uvar('zigzag value')))
        elif ty == 'FLOAT':
            got.append(('fb', q.be(4, 'value')))
        else:
            got.append(strip(q.ibe(8, 'value')))
        if len(got) > 100000:
            break
    return got, None


def verify(x, rep=None, maxdeg=None, want=None):
    """all obligations of a finished context"""
    rep = rep or Report()
    r0 = Report()
    data, base, pc = verify1(x, r0, maxdeg)
    hard = [i for i in r0.items if i[2] == 'undecided' or i[2] == 'violation' and i[4] != 'w']
    if hard and data is not None and isinstance(x, Ctx):
        n, found = confirm(x, r0, data, base, pc, maxdeg)
        tags = {p for b in found for i in b for p in i[0]}
        for i in r0.items:
            if i in hard and not (set(i[0]) & tags) and not (found and i[2] == 'violation'):
                i = (i[0], i[1], 'undecided', i[3] + ' (not confirmed on %d instances)' % n, i[4])
            rep.items.append(i)
        # what an instance shows beyond the abstract failure
        done = {i[0] for i in rep.items if i[2] == 'violation'}
        for b in found[:1]:
            for i in b:
                if i[0] not in done:
                    rep.items.append((i[0], i[1] + ' (instance)', 'violation', i[3], i[4]))
    else:
        rep.items += r0.items
    return rep


def overflows(rep, I, pc, ob, what):
    """checked arithmetic whose result may not fit: reported when there are values for which it does not"""
    seen = set()
    for (opc, op, ty, a, b, fn, sp) in I.ovf:
        if (fn, sp) in seen or a.opq or b.opq or opc.opq:
            continue
        seen.add((fn, sp))
        lo, hi = terms.INT_RANGE[ty]
        m = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
        c = and_(opc, pc)
        cs = ev_.consts_in(a, b, c)
        for seed in range(120):
            e = ev_.Ev(seed, consts=cs + [lo, hi])
            try:
                if c is not TRUE and not e.ev(c):
                    continue
                r = e.ev(m)
            except (ev_.EvalFail, OverflowError, RecursionError, TypeError, KeyError, IndexError, ValueError):
                continue
            if not lo <= r <= hi:
                rep.add('P15', '%s/overflow %s' % (ob, sp), 'violation', '%s: %s overflows %s in %s at %s, e.g. %s' % (
                    what, {'A': 'an addition', 'S': 'a subtraction', 'M': 'a multiplication'}[op[0]], ty, fn, sp,
                    ', '.join('%s=%s' % (sshow(s), e.ev(s)) for s in ev_.symbols(a, b)[:4] if isinstance(e.ev(s), int))), 'w')
                break
        else:
            rep.add('P15', '%s/overflow %s' % (ob, sp), 'undecided', '%s: whether %s %s in %s at %s overflows is not decided' % (what, ty, op, fn, sp))


def verify1(x, rep, maxdeg):
    I, pc = x.I, TRUE
    name = x.name
    for c in x.assumed:
        pc = and_(pc, c)
    # results of the calls
    closed = False
    for i, (op, d, s, r, acc) in enumerate(x.rets):
        ob = '%s/call %d %s' % (name, i, op)
        who = '%s(%s%s)' % (op, d, ', ' + s if s else '')
        if r is None:
            rep.add('P14 P15 P01', ob, 'undecided' if any(p[0].opq for p in I.panics) else 'violation',
                    'call %d, %s, never returns' % (i, who), 'w')
            continue
        if acc is None:
            continue
        v = isv(r, 0, 2)
        props = {'write': 'P14 P03 P04 P01', 'write_many': 'P14 P03 P04 P01', 'close': 'P22 P14 P02'}.get(op, 'P14 P02') if acc else \
            {'write': 'P03 P04', 'write_many': 'P03 P04', 'close': 'P22'}.get(op, 'P22')
        if closed:
            props = 'P22'
        props += getattr(x, 'also', '')
        closed = closed or op == 'close'
        same(v, B(bool(acc)), pc, rep, props, ob, 'call %d, %s, succeeds' % (i, who))
    # no panic where the assumptions hold
    if hasattr(x.I, 'ovf'):
        overflows(rep, x.I, pc, name, name)
    seen = set()
    for (ppc, kind, fn, sp, det) in I.panics:
        p2 = and_(ppc, pc)
        if p2 is FALSE or (kind, fn, sp) in seen:
            continue
        seen.add((kind, fn, sp))
        if p2.opq:
            rep.add('P15', name + '/panic', 'undecided', '%s in %s at %s' % (kind, fn, sp))
            continue
        same(p2, FALSE, TRUE, rep, 'P15 P14', '%s/panic %s' % (name, sp), '%s (%s at %s) reached' % (kind, fn, sp))
    if x.c.st is None:
        op = any(p[0].opq for p in I.panics)
        rep.add('P15 P14', name + '/returns', 'undecided' if op else 'violation', 'the calls of context %s never return' % name, 'w')
        return None, None, None
    out = x.output()
    if out.a[3].op == 'ite':
        data = restrict(out.a[3], x.c.st.pc)
    else:
        data = out.a[3]
    r = reader.R(data, base=out.a[2])
    f = {}
    okdata = True
    try:
        f = reader.read_data(r, not getattr(x, 'nohead', False))
        rep.add('P06 P07', name + '/data', 'ok')
    except Bad as b:
        okdata = False
        fail(rep, b, name + '/data', pc=pc)
    f2 = None
    try:
        f2 = reader.read_tail(reader.R(data, base=out.a[2]), dict(f))
        rep.add('P07', name + '/tail', 'ok')
    except Bad as b:
        fail(rep, b, name + '/tail', pc=pc)
    if okdata:
        check_data(x, rep, f, pc)
    if f2:
        check_index(x, rep, f2, f if okdata else None, data, out.a[2], pc, maxdeg)
    return data, out.a[2], pc


class _NoPanics:
    def __init__(self, I):
        self._i = I
        self.panics = []

    def __getattr__(self, k):
        return getattr(self._i, k)


class Instance:
    """the abstract file under one valuation of the unknowns"""
    def __init__(self, x, seed, data, base, pc, devs):
        e = ev_.Ev(seed, consts=ev_.consts_in(pc, data))
        e.big = seed % 3 == 2
        if pc is not TRUE and not e.ev(pc):
            raise ev_.EvalFail('assumptions')
        self.I = _NoPanics(x.I)
        self.name = x.name
        self.assumed = []
        self.rets = []
        self.c = x.c
        bs = e.ev(data)
        self.out = adt('Sink', 0, K(e.ev(base)), seqval([e_(K(int(b))) for b in bs]))
        nm = lambda t: STR(bytes(e.ev(t)))
        m = Model()

        def val(v):
            r = e.ev(v)
            if isinstance(r, float):
                return FL('f32', ev_.fbits('f32', r) if not isinstance(r, int) else r)
            return K(r)
        def byt(v):
            return seqval([e_(K(int(b))) for b in e.ev(v)])
        m.flushes = [{(nm(k[0]), nm(k[1])): [[(val(p[0]), val(p[1])) if p[0] != 'blob' else ('blob', byt(p[1]), byt(p[2])) for p in pg] for pg in ps] for k, ps in f.items()} for f in x.model.flushes]
        self.model = m
        self.devices = [Dev(nm(d.name), [(nm(s), a, b, c) for (s, a, b, c) in d.series]) for d in x.devices]
        self.deg = getattr(x, 'deg', None)
        self.murmur = x.murmur
        self.nohead = getattr(x, 'nohead', False)
        path = lambda d, s: seqval(list(segs_of(d)) + [e_(K(0x2e))] + list(segs_of(s)))
        self.paths = {path(b.name, t[0]): path(a.name, s[0]) for a, b in zip(x.devices, self.devices) for s, t in zip(a.series, b.series)}
        self.hashed = getattr(x, 'hashval', None)

    def hashval(self, p, seed):
        return self.hashed(self.paths.get(p, p), seed)

    def output(self):
        return self.out


def confirm(x, rep, data, base, pc, maxdeg):
    """a file the reader rejects in the abstract is reported only if its instances are rejected too"""
    n = 0
    found = []
    t0 = time.time()
    for seed in range(40):
        try:
            y = Instance(x, seed, data, base, pc, None)
        except (ev_.EvalFail, OverflowError, RecursionError, TypeError, KeyError, IndexError, ValueError):
            continue
        n += 1
        r2 = verify(y, maxdeg=maxdeg)
        b = [i for i in r2.items if i[2] == 'violation']
        if b:
            found.append(b)
            break
        if n >= 10 or n >= 3 and time.time() - t0 > 6:
            break
    return n, found


SECT = {'head': 'P07', 'tail': 'P07', 'marker': 'P06 P07', 'chunk group header': 'P07 P06', 'chunk header': 'P06 P10', 'page': 'P06 P14',
        'times': 'P11 P14', 'values': 'P13 P14', 'index': 'P08', 'timeseries metadata': 'P08', 'root': 'P08 P07', 'bloom': 'P09', '': 'P07'}


def witness(b, pc):
    """a valuation under which the bytes really are wrong there, as text"""
    if b.wit is None or b.opaque:
        return None
    cs = ev_.consts_in(pc)
    for seed in range(60):
        e = ev_.Ev(seed, consts=cs) if seed < 20 else ev_.Huge(seed, consts=cs)
        try:
            if pc is not TRUE and not e.ev(pc):
                continue
            r = b.wit(e)
            if r is not None:
                return ', '.join(ev_.brief(x) for x in r)
        except (ev_.EvalFail, OverflowError, RecursionError, TypeError, KeyError, IndexError, ValueError):
            continue
    return None


def fail(rep, b, ob, extra='', pc=None):
    if pc is not None:
        w = witness(b, pc)
        if w:
            rep.add((SECT.get(b.sect, 'P07') + ' ' + extra).strip(), ob, 'violation', '%s; e.g. %s' % (b, w), 'w')
            return
    rep.add((SECT.get(b.sect, 'P07') + ' ' + extra).strip(), ob, 'undecided' if b.opaque else 'violation', str(b))


def find_dev(groups, i, name):
    return groups[i] if i < len(groups) else None


def key_in(model, dev, ser):
    for k in model:
        if (k[0] is dev or reader.constbytes(k[0]) is not None and reader.constbytes(k[0]) == reader.constbytes(dev)) and \
                (k[1] is ser or reader.constbytes(k[1]) is not None and reader.constbytes(k[1]) == reader.constbytes(ser)):
            return k
    return None


def check_data(x, rep, f, pc):
    """chunk groups hold exactly the accepted points"""
    I = x.I
    name = x.name
    groups = list(f['groups'])
    gi = 0
    x.chunkpos = {}
    types = {(d.name, s): (ty, en, co) for d in x.devices for (s, ty, en, co) in d.series}
    for fi, fl in enumerate(x.model.flushes):
        todo = dict(fl)
        # the groups of this flush: until everything flushed has been seen
        while todo and gi < len(groups):
            g = groups[gi]
            gi += 1
            seen = set()
            for ch in g['chunks']:
                k = key_in(todo, g['device'], ch['name'])
                what = 'chunk group end %d, device %s, series %s' % (fi + 1, sshow(g['device']), sshow(ch['name']))
                ob = '%s/flush %d/%s/%s' % (name, fi, sshow(g['device']), sshow(ch['name']))
                if k is None:
                    rep.add('P14 P06 P07', ob, 'violation', 'a chunk nobody wrote points for, written twice, or not in a chunk group of its own: ' + what)
                    continue
                pages = todo.pop(k)
                check_chunk(x, rep, ch, pages, types[k], pc, ob, what)
                x.chunkpos.setdefault(k, []).append((ch, pages))
        for k, ps in todo.items():
            rep.add('P14 P06', '%s/flush %d' % (name, fi), 'violation', 'points of device %s, series %s are not in the file' % (
                sshow(k[0]), sshow(k[1])))
    for g in groups[gi:]:
        for ch in g['chunks']:
            rep.add('P14', name + '/extra', 'violation', 'a chunk nobody wrote points for: device %s, series %s' % (
                sshow(g['device']), sshow(ch['name'])))


def check_chunk(x, rep, ch, pages, decl, pc, ob, what):
    I = x.I
    ty, en, co = decl
    for g, e, n in ((ch['type'], ty, 'data type'), (ch['enc'], en, 'encoding'), (ch['comp'], co, 'compression')):
        if g == e:
            rep.add('P10 P06 P21', ob + '/' + n, 'ok')
        else:
            rep.add('P10 P06 P21', ob + '/' + n, 'violation', '%s of %s in the chunk header is %s, the schema says %s' % (n, what, g, e))
            if n == 'data type':
                return
    if len(ch['pages']) != len(pages):
        rep.add('P06 P20 P14', ob + '/pages', 'violation', '%s has %d pages, %d were filled' % (what, len(ch['pages']), len(pages)))
        return
    if ch['single'] != (len(pages) == 1):
        rep.add('P06', ob + '/marker', 'violation', '%s has %d pages but its chunk header says %s' % (
            what, len(pages), 'only one page' if ch['single'] else 'several pages'))
    else:
        rep.add('P06', ob + '/marker', 'ok')
    for pi, (pg, pts) in enumerate(zip(ch['pages'], pages)):
        po = '%s/page %d' % (ob, pi)
        pw = 'page %d of %s' % (pi + 1, what)
        try:
            for b in [p for p in pts if p[0] == 'blob']:
                t = cut(pg['times'], b[1], rep, 'P11 P14', po + '/earlier times', 'times of ' + pw, at=0)
                en_ = ch['enc'] == 'TS2DIFF'
                u = cut(pg['values'], b[2], rep, ('P11' if en_ else 'P13') + ' P14', po + '/earlier values', 'values of ' + pw,
                        at=0 if en_ else None if 'Instance' in type(x).__name__ else pts.index(b))
                if t is None or u is None:
                    pg = None
                    break
                pg = dict(pg, times=t, values=u)
            if pg is None:
                continue
            pts = noblob(pts)
            tb = reader.ts2diff(pg['times'], 8, 'times')
            ts = [t for b in tb for t in b['values']]
            check_blocks(rep, tb, [p[0] for p in pts], po + '/times', 'times of ' + pw)
            compare_list(rep, [strip(wrap('i64', t)) for t in ts], [strip(wrap('i64', p[0])) for p in pts], pc, 'P11 P14', po + '/times', 'timestamp', pw)
        except Bad as b:
            fail(rep, b, po + '/times', 'P06', pc=pc)
        try:
            vs, bl = read_values(ch, pg, pts, pc, rep, '', po, pw)
            want = []
            for g, (_, v) in zip(vs + [None] * len(pts), pts):
                if isinstance(g, tuple) and g[0] == 'zz':
                    want.append(zigzag(v))
                elif isinstance(g, tuple):
                    want.append(fbits_of('f32', v))
                else:
                    want.append(v)
            if bl is not None:
                check_blocks(rep, bl, [p[1] for p in pts], po + '/values', 'values of ' + pw)
            if ch['enc'] == 'TS2DIFF':
                vs = [wrap(VT[ty][2], g) for g in vs]
                want = [wrap(VT[ty][2], g) for g in want]
            compare_list(rep, [g[1] if isinstance(g, tuple) else strip(g, 32 if ty == 'INT32' else 64) for g in vs], [strip(g, 32 if ty == 'INT32' else 64) for g in want], pc,
                         ('P11' if ch['enc'] == 'TS2DIFF' else 'P13') + ' P14', po + '/values', 'value', pw)
        except Bad as b:
            fail(rep, b, po + '/values', 'P11 P06' if ch['enc'] == 'TS2DIFF' else 'P06', pc=pc)
        if pg['stats'] is not None:
            check_stats(I, rep, pg['stats'], ty, pts, None, pc, 'P05', po + '/stats', pw)
        elif len(pages) > 1:
            rep.add('P06 P05', po + '/stats', 'violation', 'no statistics in ' + pw)


def check_blocks(rep, bl, vals, ob, what):
    """block structure: at most 128 deltas per block"""
    got = [len(b['values']) for b in bl]
    if max(got + [0]) > 129:
        rep.add('P11', ob + '/blocks', 'violation', '%s: TS_2DIFF blocks hold %s values, at most 129 are allowed' % (what, got))
    else:
        rep.add('P11', ob + '/blocks', 'ok')


def compare_list(rep, got, want, pc, props, ob, kind, what):
    if len(got) != len(want):
        rep.add(props, ob, 'violation', '%s holds %d %ss, %d were accepted' % (what, len(got), kind, len(want)))
        return
    bad = 0
    for i, (g, e) in enumerate(zip(got, want)):
        if g is e:
            continue
        bad += 1
        if bad > 3:
            break
        same(g, e, pc, rep, props, '%s/%d' % (ob, i), '%s %d of %s' % (kind, i + 1, what))
    if not bad:
        rep.add(props, ob, 'ok')


def check_index(x, rep, f, fd, data, base, pc, maxdeg):
    I = x.I
    name = x.name
    if maxdeg is None:
        maxdeg = 256
    if fd is not None:
        same(f['meta_offset'], fd['separator'], pc, rep, 'P07 P08 P02', name + '/meta offset', 'metadata offset in the footer (position of the separator)')
    allk = {}
    types = {(d.name, s): ty for d in x.devices for (s, ty, en, co) in d.series}
    for fl in x.model.flushes:
        for k, ps in fl.items():
            allk.setdefault(k, []).append(ps)
    for (dev, ser), chunks in allk.items():
        ob = '%s/index/%s/%s' % (name, sshow(dev), sshow(ser))
        what = 'device %s, series %s' % (sshow(dev), sshow(ser))
        try:
            m = reader.lookup(reader.R(data, base=base), f, dev, ser, maxdeg)
        except Bad as b:
            fail(rep, b, ob, 'P08 P14', pc=pc)
            continue
        rep.add('P08', ob, 'ok')
        ty = types[(dev, ser)]
        if m['type'] != ty:
            rep.add('P10 P08', ob + '/type', 'violation', 'timeseries metadata of %s has data type %s' % (what, m['type']))
            continue
        if (m['kind'] == 1) != (len(chunks) > 1) or m['kind'] > 1:
            rep.add('P08 P05', ob + '/kind', 'violation', 'timeseries metadata type of %s is %d with %d chunks' % (what, m['kind'], len(chunks)))
        if len(m['chunks']) != len(chunks):
            rep.add('P08 P14', ob + '/chunks', 'violation', 'timeseries metadata of %s lists %d chunks, %d were written' % (
                what, len(m['chunks']), len(chunks)))
            continue
        pts = [p for ps in chunks for pg in ps for p in noblob(pg)]
        check_stats(I, rep, m['stats'], ty, pts, None, pc, 'P05', ob + '/stats', 'all chunks of ' + what)
        for ci, c in enumerate(m['chunks']):
            if c['stats'] is not None:
                check_stats(I, rep, c['stats'], ty, [p for pg in chunks[ci] for p in noblob(pg)], None, pc, 'P05', '%s/chunk %d/stats' % (ob, ci),
                            'chunk %d of %s' % (ci + 1, what))
            if fd is not None and (dev, ser) in x.chunkpos and ci < len(x.chunkpos[(dev, ser)]):
                same(c['offset'], x.chunkpos[(dev, ser)][ci][0]['pos'], pc, rep, 'P02 P08', '%s/chunk %d/offset' % (ob, ci),
                     'offset of chunk %d of %s' % (ci + 1, what))
    check_bloom(x, rep, f, allk, pc)


def check_bloom(x, rep, f, allk, pc):
    """every path's bits are set in the filter, which is written with its size and number of hash functions"""
    name = x.name
    try:
        size, nh = f['bloom_size'], f['bloom_hashes']
        if size.op != 'k' or nh.op != 'k':
            rep.add('P09', name + '/bloom', 'undecided', 'bloom filter size %s' % sshow(size))
            return
        nb = length(f['bloom_bytes'])
    except Bad as b:
        fail(rep, b, name + '/bloom', pc=pc)
        return
    if x.murmur == 'table':
        import modular
        bs = modular.flat_bytes(segs_of(f['bloom_bytes']))
        if bs is None:
            rep.add('P09', name + '/bloom', 'undecided', 'bytes of the bloom filter: %s' % sshow(f['bloom_bytes'])[:200])
            return
        for dev, ser in allk:
            p = seqval(list(segs_of(dev)) + [e_(K(0x2e))] + list(segs_of(ser)))
            for j in range(nh.a[0]):
                i = abs(x.hashval(p, K(modular.SEEDS[j])).a[0]) % size.a[0]
                b = modular.bit_of(bs[i // 8], i % 8) if i // 8 < len(bs) else FALSE
                ob = '%s/bloom/%s/%d' % (name, sshow(p), j)
                if b is None:
                    rep.add('P09', ob, 'undecided', 'byte %d of the bloom filter is %s' % (i // 8, sshow(bs[i // 8])))
                elif restrict(b, pc) is TRUE:
                    rep.add('P09', ob, 'ok')
                else:
                    same(b, TRUE, pc, rep, 'P09', ob, 'bit %d of the bloom filter, which hash function %d gives for %s' % (i, j, sshow(p)))
        return
    rep.add('P09', name + '/bloom', 'ok')
