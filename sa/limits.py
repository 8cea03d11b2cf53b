"""Where pages and chunk groups end.

One call of the write functions is analysed in an arbitrary state: how many points a page holds, how many
bytes each buffer holds and the counts at which the next check is due are symbols.  The states are divided
into regions by ranges of these symbols; in each region the outcome must be decided, the same for all of it.
"""
import time
from scen import *
from reader import R, Bad, read_page
from modular import items
import models
import terms

MAXPOINTS, PAGE, GROUP = 1048576, 65536, 128 * 1024 * 1024
FIRSTCHECK = 7989


def rsym(name, lo, hi, ty='u32'):
    s = sym(name, ('int', ty))
    terms.BOUND[s] = (lo, hi)
    return s


def buf(name, lo, hi):
    """a buffer with unknown contents of a length in the range"""
    if hi == 0:
        return EMPTY
    s = sym(name)
    l = length(seqval([splice(s)]))
    terms.BOUND[l] = (lo, hi)
    return seqval([splice(s)])


def unbox(v):
    """(the value in a box, how to put another one back)"""
    if v.op == 'adt' and v.a[0] not in ('PlainEncoder', 'LongTs2DiffEncoder', 'IntTs2DiffEncoder') and len(v.a) == 3:
        x, k = unbox(v.a[2])
        return x, lambda y: adt(v.a[0], v.a[1], k(y))
    return v, lambda y: y


def get(F, v, *path):
    for k in path:
        v = fld(v, v.a[0], 0, F.fieldno(v.a[0], k))
    return v


def fill_page(F, c, pw, n, time, value):
    """the page writer pw holding n points, with these encoded times and values"""
    te = setf(F, get(F, pw, 'time_encoder'), buffer=time)
    ve = get(F, pw, 'value_encoder')
    if ve.op == 'ref':
        x = c.get(ve)
        c.I.store(c.st, ve, setf(F, x, buffer=value))
    else:
        x, k = unbox(ve)
        ve = k(setf(F, x, buffer=value))
    return setf(F, pw, time_encoder=te, value_encoder=ve, point_number=n)


def fill_chunk(F, c, cw, n=None, time=None, value=None, **kw):
    if n is not None:
        pw = get(F, cw, 'current_page_writer')
        if pw.op != 'adt' or pw.a[0] != 'Option' or pw.a[1] != 1:
            raise Undecided('no page writer after a write')
        cw = setf(F, cw, current_page_writer=some(fill_page(F, c, pw.a[2], n, time, value)))
    return setf(F, cw, **kw)


SER = [(ty, en, co) for ty in ('INT32', 'INT64', 'FLOAT') for en in ('PLAIN', 'TS2DIFF') for co in ('UNCOMPRESSED',) if (ty, en) != ('FLOAT', 'TS2DIFF')]

# regions of the state before a write: points in the page, bytes of encoded times, of encoded values,
# distance of the next check from the count after the write (positive: the check is not due), outcome
BIG = 2**29
REGIONS = [
    ('more points than a page may hold', (MAXPOINTS, 2**31 - 2), (0, BIG), (0, BIG), None, 'closed'),
    ('more points than a page may hold, next check far away', (MAXPOINTS, 2**30), (0, 1000), (0, 1000), (1, 2**30), 'closed'),
    ('check due, too many bytes of values', (1, MAXPOINTS - 2), (0, BIG), (PAGE + 1, BIG), (-2**30, 0), 'closed'),
    ('check due, too many bytes of times', (1, MAXPOINTS - 2), (PAGE + 1, BIG), (0, BIG), (-2**30, 0), 'closed'),
    ('check due, too many bytes of both together', (1, MAXPOINTS - 2), (PAGE // 2 + 1, PAGE), (PAGE // 2 + 1, PAGE), (-2**30, 0), 'closed'),
    ('check due, few bytes', (1, MAXPOINTS - 2), (0, 12000), (0, 12000), (-2**30, 0), 'open'),
    ('check not due, few points', (1, MAXPOINTS - 2), (0, 65000), (0, 2**20), (1, 2**30), 'open'),
]


def page_end(F, ty, en, co, pages, reg):
    name, nr, tr, vr, due, want = reg
    ob = '%s %s, %d pages before: %s' % (ty, en, pages, name)

    def go(rep):
        import terms
        c = Client(F)
        summ.install(c.I, 'var')
        h = c.new(c.call('ChunkWriter', 'new', sym('s0'), c.case('TSDataType', ty), c.case('CompressionType', co), c.case('TSEncoding', en)))
        t0 = sym('t0', ('int', 'i64'))
        terms.BOUND[t0] = (0, 2**62)

        def write(k, v):
            return c.call('ChunkWriter', 'write', h, add(t0, K(k)), c.case('IoTDBValue', VT[ty][0], v))
        base = sym('v:near ' + VT[ty][2], VT[ty][1:])
        if ty != 'FLOAT':
            terms.BOUND[base] = (-2**30, 2**30)
        nx = (lambda k: add(base, K(k))) if ty != 'FLOAT' else (lambda k: sym('v%d:f32' % k, ('float', 'f32')))
        r = write(0, nx(0))
        if r is None or r.op != 'adt' or r.a[1] != 0:
            raise Undecided('the first write of a series does not succeed')
        n = rsym('n', *nr)
        nv = rsym('next', 0, 2**31 - 1)
        if due is not None:
            d = rsym('d', *due, ty='i64')
            nv = add(add(n, K(1)), d)
            terms.BOUND[nv] = (0, 2**31 - 1)
        cw = c.get(h)
        kw = {}
        if pages:
            hd, body = buf('page header', 2, 10), buf('pages', 1, BIG)
            kw = dict(page_buffer=seqval(list(segs_of(hd)) + list(segs_of(body))) if pages == 1 else body, num_pages=K(pages),
                      size_without_statistics=length(hd))
            if pages == 1:
                kw['first_page_statistics'] = some(get(F, cw, 'statistics'))
        cw = fill_chunk(F, c, cw, n, buf('times', *tr), buf('values', *vr), value_count_in_one_page_for_next_check=nv, **kw)
        c.I.store(c.st, h, cw)
        r = write(7, nx(7))
        if r is None:
            p = c.I.panics
            rep.add('P20 P15', ob, 'undecided', 'no result: %s' % (p[0],) if p else 'no result')
            return {}
        cw = c.get(h)
        pn = get(F, cw, 'current_page_writer')
        pn = get(F, fld(pn, 'Option', 1, 0), 'point_number')
        np_ = get(F, cw, 'num_pages')
        nn = get(F, cw, 'value_count_in_one_page_for_next_check')
        pb = get(F, cw, 'page_buffer')
        pc = c.st.pc
        if want == 'closed':
            same(np_, K(pages + 1), pc, rep, 'P20', ob + '/closed', 'the number of pages of the chunk after a point is written (%s)' % name)
            same(pn, K(0), pc, rep, 'P20', ob + '/new page', 'the number of points in the next page (%s)' % name)
            # the next check comes no later than before or than a first one
            upper(c, rep, 'P20', ob + '/next check', nn, [nv, K(FIRSTCHECK)], 'the point count at which the size of the next page is looked at')
        else:
            same(np_, K(pages), pc, rep, 'P20', ob + '/open', 'the number of pages of the chunk after a point is written (%s)' % name)
            same(pn, add(n, K(1)), pc, rep, 'P20', ob + '/points', 'the number of points in the page (%s)' % name)
            if due[1] > 0:
                upper(c, rep, 'P20', ob + '/next check', nn, [nv], 'the point count at which the page is looked at next')
            else:
                proj(c, rep, ob + '/next check', nn, n, tr, vr)
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def free(t):
    """the bounded unknowns of t"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x in terms.BOUND and x.op in ('sym', 'len'):
            out.append(x)
        else:
            st += [y for y in x.a if isinstance(y, T)]
    return out


def upper(c, rep, props, ob, got, bounds, what, boxes=None):
    """got is at most one of the bounds"""
    got = restrict(got, c.st.pc)
    for b in bounds:
        if le(got, b) is TRUE:
            rep.add(props, ob, 'ok')
            return
    bad = None
    try:
        for box in boxes or [{}]:
            memo = {}
            g = ival(got, box, memo)
            m = max(2 * ival(b, box, memo)[0] + 64 for b in bounds)
            if g[1] > m:
                for q in (0, 1):
                    pt = {k: (v[0], v[0]) for k, v in box.items()}
                    for k in free(got):
                        pt.setdefault(k, (terms.BOUND[k][q],) * 2)
                    at = ', '.join('%s=%d' % (sshow(k), v[0]) for k, v in pt.items())
                    g2, m2 = ival(got, pt, {}), max(ival(b, pt, {})[1] for b in bounds)
                    if g2[0] > m2:
                        rep.add(props, ob, 'violation', '%s grows: it is at least %d where %s, must be at most %d' % (what, g2[0], at, m2), 'w')
                        return
                bad = bad or at
        if bad:
            rep.add(props, ob, 'undecided', '%s: %s not bounded (%s)' % (what, sshow(got), bad))
        else:
            rep.add(props, ob, 'ok')
    except NoBound as e:
        rep.add(props, ob, 'undecided', '%s: %s not bounded (%s)' % (what, sshow(got), e))


class NoBound(Exception):
    pass


def ival(t, box, memo):
    """an interval of the values t takes while the unknowns stay in the box"""
    if t in box:
        return box[t]
    if t in memo:
        return memo[t]
    r = memo[t] = ival1(t, box, memo)
    return r


def ival1(t, box, memo):
    def go(x):
        return ival(x, box, memo)
    o = t.op
    if o == 'k':
        return (t.a[0], t.a[0])
    if o == 'f':
        x = float(ev_.fval(t.a[0], t.a[1]))
        return (x, x)
    if o == 'lin':
        lo = hi = t.a[0]
        for i in range(1, len(t.a), 2):
            q, k = go(t.a[i]), t.a[i + 1]
            lo += min(q[0] * k, q[1] * k)
            hi += max(q[0] * k, q[1] * k)
        return (lo, hi)
    if o in ('i2f', 'f2f'):
        x = go(t.a[-1])
        # rounding keeps order; allow for it
        return (x[0] - abs(x[0]) * 2.0**-20, x[1] + abs(x[1]) * 2.0**-20)
    if o == 'f2i':
        x = go(t.a[-1])
        lo, hi = terms.INT_RANGE[t.a[0]]
        c = lambda v: int(max(lo, min(hi, v))) if abs(v) != float('inf') else (hi if v > 0 else lo)
        return (c(x[0]), c(x[1]))
    if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'mul', 'div', 'rem'):
        x, y = go(t.a[-2]), go(t.a[-1])
        if o == 'rem':
            if x[0] < 0 or y[0] <= 0:
                raise NoBound(o)
            return (0, min(x[1], y[1] - 1))
        if o in ('fdiv', 'div') and y[0] <= 0 <= y[1]:
            if x[0] > 0 and y[0] == 0 and o == 'fdiv':
                return (x[0] / y[1] if y[1] else float('inf'), float('inf'))
            raise NoBound('division by what may be zero')
        f = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'mul': lambda a, b: a * b,
             'fdiv': lambda a, b: a / b, 'div': lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)}[o]
        v = [f(a, b) for a in x for b in y]
        if o[0] == 'f':
            return (min(v) - abs(min(v)) * 2.0**-20, max(v) + abs(max(v)) * 2.0**-20)
        return (min(v), max(v))
    if o == 'shr' and t.a[-1].op == 'k':
        x = go(t.a[-2])
        k = t.a[-1].a[0]
        if x[0] >= 0:
            return (x[0] >> k, x[1] >> k)
    if o == 'ite':
        if t.a[0].op == 'gt0':
            x = go(t.a[0].a[0])
            if x[0] > 0 or x[1] <= 0:
                return go(t.a[1] if x[0] > 0 else t.a[2])
        a, b = go(t.a[1]), go(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if o in ('imin', 'imax'):
        a, b = go(t.a[0]), go(t.a[1])
        f = min if o == 'imin' else max
        return (f(a[0], b[0]), f(a[1], b[1]))
    if o == 'wrap':
        x = go(t.a[1])
        lo, hi = terms.INT_RANGE[t.a[0]]
        if lo <= x[0] and x[1] <= hi:
            return x
        return (lo, hi)
    r = terms.rng(t)
    if r is None:
        raise NoBound(o)
    return r


def steps(lo, hi, first=8, q=1.5):
    out = []
    a = lo
    while a <= hi:
        b = min(hi, max(a + first, int(a * q)))
        out.append((a, b))
        a = b + 1
    return out


def ratio(c, rep, ob, got, num, den, lim, boxes, what, floor, slack=4):
    """got <= slack * lim * num / (den + slack...) over all boxes; num and den are terms"""
    got = restrict(got, c.st.pc)
    open_, until = None, None
    try:
        for box in boxes:
            memo = {}
            g = ival(got, box, memo)
            a, b = ival(num, box, memo), ival(den, box, memo)
            m = max(floor, slack * lim * a[0] / max(b[1], 64) + 64)
            if g[1] <= m:
                continue
            # at a corner of the box?
            for q in (0, 1):
                pt = {k: (v[q], v[q]) for k, v in box.items()}
                for k in free(got):
                    pt.setdefault(k, (terms.BOUND[k][0],) * 2)
                g2, a2, b2 = ival(got, pt, {}), ival(num, pt, {}), ival(den, pt, {})
                at = ', '.join('%s=%d' % (sshow(k), v[0]) for k, v in pt.items())
                if g2[0] > max(floor, slack * lim * a2[1] / max(b2[0], 64) + 64):
                    rep.add('P20', ob, 'violation', '%s is about %d where %s; at the present rate the limit is reached at %d' % (
                        what, g2[0], at, lim * a2[1] // max(b2[0], 1)), 'w')
                    return
            open_ = open_ or '%s: up to %s where %s' % (what, g[1], at)
            until = until or time.time() + 10
            if time.time() > until:
                break
    except NoBound as e:
        rep.add('P20', ob, 'undecided', '%s: %s (%s)' % (what, sshow(got), e))
        return
    if open_:
        rep.add('P20', ob, 'undecided', open_)
        return
    rep.add('P20', ob, 'ok')


def proj(c, rep, ob, nn, n, tr, vr):
    """if a page grows at the present rate it is looked at again about where the limit is, not far beyond"""
    lt_, lv = length(seqval([splice(sym('times'))])), length(seqval([splice(sym('values'))]))
    bx = ({n: a, lt_: b, lv: d} for a in steps(1, MAXPOINTS - 2, 1) for b in steps(*tr) for d in steps(*vr))
    ratio(c, rep, ob, nn, add(n, K(1)), add(add(lt_, lv), K(1)), PAGE, bx, 'the point count at which a page is looked at next', FIRSTCHECK)


def pages(env, rep):
    jobs = []
    for ty, en, co in SER:
        for pg in (0, 1, 2):
            for reg in REGIONS:
                jobs.append(('%s %s %d %s' % (ty, en, pg, reg[0]), ['P20'], page_end(env.F, ty, en, co, pg, reg)))
    env.cov['states of a page (type, encoding, pages before, region) analysed'] = env.pool(rep, jobs)


# ---------------------------------------------------------------- chunk groups
class Group:
    """a writer with two devices in an arbitrary state"""
    def __init__(self, F, name, shape, devs=None):
        self.F = F
        from contexts import D, S, n_points
        self.devs = [Dev(D[i], [(S[j], ty, 'PLAIN' if (i + j) % 2 == 0 or ty == 'FLOAT' else 'TS2DIFF', 'UNCOMPRESSED') for j, ty in enumerate(tys)])
                     for i, tys in enumerate(shape)] if devs is None else devs
        self.x = Ctx(F, name, self.devs)
        for d in self.devs:
            for s in d.series:
                n_points(self.x, d.name, s[0], s[1], 1, near='v' if s[2] == 'TS2DIFF' else None)
        for op, a, b, r, acc in self.x.rets:
            if r is None or r.op != 'adt' or r.a[1] != 0:
                raise Undecided('the first write of a series does not succeed')
        self.bufs = []

    def chunk(self, i, j):
        """reference to the writer of series j of device i"""
        x, F = self.x, self.F
        g = F.fieldno('TsFileWriter', 'group_writers')
        k = F.fieldno('GroupWriter', 'chunk_writers')
        gr = x.I.subref(x.I.subref(x.w, ('f', 0, g, 'TsFileWriter')), ('mv', i))
        return x.I.subref(x.I.subref(gr, ('f', 0, k, 'GroupWriter')), ('mv', j))

    def fill(self, i, j, pages, times, values, n, nxt):
        c = self.x.c
        h = self.chunk(i, j)
        nm = '%d/%d' % (i, j)
        bs = [buf('%s of %s' % (k, nm), *r) for k, r in (('pages', pages), ('times', times), ('values', values))]
        self.bufs += [b for b in bs if b is not EMPTY]
        kw = {}
        if pages[1]:
            kw = dict(page_buffer=bs[0], num_pages=K(2), statistics=get(self.F, get(self.F, fld(get(self.F, c.get(h), 'current_page_writer'), 'Option', 1, 0)), 'statistics'))
        cw = fill_chunk(self.F, c, c.get(h), n, bs[1], bs[2], value_count_in_one_page_for_next_check=nxt, **kw)
        c.I.store(c.st, h, cw)
        return bs


MB = 2**20
Z = (0, 0)
SM = (0, 1000)
PG = (1, MB)          # a few pages
# shape of the schema, then per series (pages, times, values), then what must happen
SHAPE = (('INT64', 'INT32'), ('FLOAT', 'INT32'))


def spread(k, what, big):
    """all bytes in series k, as finished pages, times or values"""
    out = []
    for q in range(4):
        r = [PG, SM, SM]
        if q == k:
            r[{'pages': 0, 'times': 1, 'values': 2}[what]] = big
        out.append(tuple(r))
    return out


GREG = [('check due, too many bytes in the %s of series %d' % (w, k), spread(k, w, (GROUP + 1, 2**29)), 'written')
        for k in range(4) for w in ('pages', 'times', 'values')]
GREG += [('check due, just too many bytes in the %s of series %d' % (w, k), spread(k, w, (GROUP + 1, GROUP + MB)), 'written')
         for k in range(4) for w in ('pages', 'times', 'values')]
GREG += [('check due, too many bytes in all series together', [((GROUP // 4 + 1, GROUP // 2), SM, SM)] * 4, 'written'),
         ('check due, too many bytes in the two series of the first device', [((GROUP // 2 + 1, GROUP - MB), SM, SM)] * 2 + [(PG, SM, SM)] * 2, 'written'),
         ('check due, too many bytes in the two series of the last device', [(PG, SM, SM)] * 2 + [((GROUP // 2 + 1, GROUP - MB), SM, SM)] * 2, 'written'),
         ('check due, just too many bytes in all series together', [((GROUP // 4 + 1, GROUP // 4 + MB), SM, SM)] * 4, 'written'),
         ('check due, just too many bytes in the two series of the first device', [((GROUP // 2 + 1, GROUP // 2 + MB), SM, SM)] * 2 + [(PG, SM, SM)] * 2, 'written'),
         ('check due, just too many bytes in the two series of the last device', [(PG, SM, SM)] * 2 + [((GROUP // 2 + 1, GROUP // 2 + MB), SM, SM)] * 2, 'written'),
         ('check due, just too many bytes in one series of each device', [((GROUP // 2 + 1, GROUP // 2 + MB), SM, SM), (PG, SM, SM)] * 2, 'written'),
         ('check due, few bytes', [((MB, 25 * MB), SM, SM)] * 4, 'open'),
         ('check not due, few bytes', [((1, 25 * MB), SM, SM)] * 4, 'early')]


def group_end(F, call, reg, at=None, due=None):
    name, ranges, want = reg
    if at is not None:
        name += ', %d points now' % at
    if due is not None:
        name += ', due at %d points and %d points now' % due
    ob = '%s: %s' % (call, name)

    def go(rep):
        from contexts import D, S
        g = Group(F, ob, SHAPE)
        x = g.x
        c = x.c
        for q, (p, t, v) in enumerate(ranges):
            i, j = divmod(q, 2)
            g.fill(i, j, p, t, v, rsym('n%d' % q, 1, MAXPOINTS - 10), rsym('next%d' % q, MAXPOINTS + 10, 2**30))
        npts = 1 if call == 'write' else 2
        if want == 'early':
            r = rsym('records', 4, 2**29) if at is None else K(at - npts)
            nc = add(add(r, K(npts)), rsym('d', 1, 2**20))
        else:
            nc = rsym('next check', 1, 2**28)
            r = add(add(nc, K(-npts)), rsym('d', 0, 2**28))
            terms.BOUND[r] = (4, 2**29)
            if due is not None:
                nc, r = K(due[0]), K(due[1] - npts)
        c.I.store(c.st, x.w, setf(F, c.get(x.w), record_count=r, record_count_for_next_mem_check=nc))
        if call == 'write':
            x.write(D[0], S[0], 'INT64', 2**41, x.value('INT64', 'new'))
        else:
            x.write_many(D[1], 2**41, [(S[0], 'FLOAT', x.value('FLOAT', 'new')), (S[1], 'INT32', x.near('INT32', 'v', 5))])
        if c.st is None:
            p = c.I.panics
            rep.add('P20 P15', ob, 'undecided', 'no result: %s' % (p[0],) if p else 'no result')
            return {}
        pc = c.st.pc
        res = x.rets[-1][3]
        same(res if res.op == 'adt' and res.a[0] == 'Result' and res.a[1] == 1 else adt('Result', 0, UNIT), adt('Result', 0, UNIT), pc, rep, 'P20', ob + '/result',
             'the result of the call (%s)' % name)
        w = c.get(x.w)
        out = x.output()
        gw = get(F, w, 'group_writers')
        nn = get(F, w, 'record_count_for_next_mem_check')
        for b in g.bufs:
            s = segs_of(b)[0].a[0]
            held, wr = occurs(gw, s), occurs(out, s)
            o = '%s/%s' % (ob, s.a[0])
            if want == 'written':
                if wr and not held:
                    rep.add('P20', o, 'ok')
                elif held and not wr:
                    rep.add('P20', o, 'violation', 'when the check is due and more than %d bytes are buffered (%s), the buffered %s are not written out' % (GROUP, name, s.a[0]), 'w')
                else:
                    rep.add('P20', o, 'undecided', 'whether %s are written out is not decided' % s.a[0])
            else:
                if held and not wr:
                    rep.add('P20', o, 'ok')
                elif wr and not held:
                    rep.add('P20', o, 'violation', 'the buffered %s are written out though far less than %d bytes are buffered (%s)' % (s.a[0], GROUP, name), 'w')
                else:
                    rep.add('P20', o, 'undecided', 'whether %s are written out is not decided' % s.a[0])
        rc = get(F, w, 'record_count')
        if want == 'written':
            same(rc, K(0), pc, rep, 'P20', ob + '/count', 'the count of records after a chunk group is written out')
            if due is None:
                upper(c, rep, 'P20', ob + '/next check', nn, [nc, K(100)], 'the record count at which the memory is looked at next',
                      ({nc: a} for a in steps(1, 2**28, 4, 1.5)))
        else:
            same(rc, add(r, K(npts)), pc, rep, 'P20', ob + '/count', 'the count of records')
            if want == 'early':
                upper(c, rep, 'P20', ob + '/next check', nn, [nc], 'the record count at which the memory is looked at next')
            else:
                tot = K(0)
                big = []
                for b in g.bufs:
                    l = length(b)
                    tot = add(tot, l)
                    if terms.rng(l)[1] > 2 * MB:
                        big.append(l)
                dd = sym('d')
                def boxes():
                    for a in steps(1, 2**28, 4, 2):
                        for b in steps(MB, 25 * MB, 64, 1.5):
                            bx = {k: b for k in big}
                            bx[nc] = a
                            yield bx
                ratio(c, rep, ob + '/next check', nn, nc, tot, GROUP, boxes(), 'the record count at which the memory is looked at next', 100, 8)
        if want == 'early' and rc is not add(r, K(npts)) and at is None:
            for k in sorted({abs(k) + q for k in ev_.consts_in(rc) if isinstance(k, int) for q in (-2, 0, 2) if 4 < abs(k) + q < 2**29})[:12]:
                rep.items += group_end(F, call, reg, k)()[0]
            return {'calls analysed': c.I.callsites}
        # whatever the counts are by now, close writes out what is buffered
        x.close()
        if c.st is None:
            rep.add('P14', ob + '/close', 'undecided', 'close does not return')
            return {'calls analysed': c.I.callsites}
        if isv(x.rets[-1][3], 1, 2) is TRUE:
            rep.add('P14', ob + '/close', 'violation', '%s: close then fails' % ob, 'w')
        out = x.output()
        for b in g.bufs:
            s = segs_of(b)[0].a[0]
            wr = occurs(out, s)
            rep.add('P14', '%s/%s after close' % (ob, s.a[0]), 'ok' if wr else 'violation', '%s, and then close: the buffered %s are not in the file' % (ob, s.a[0]), 'w')
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def groups(env, rep):
    jobs = []
    for call in ('write', 'write_many'):
        for reg in GREG:
            jobs.append(('%s %s' % (call, reg[0]), ['P20'], group_end(env.F, call, reg)))
        for due in ((100, 100), (100, 101), (101, 102), (7, 1000), (1000, 1023), (1023, 1025), (2**20, 2**20 + 1)):
            jobs.append(('%s %s %d %d' % ((call, GREG[0][0]) + due), ['P20'], group_end(env.F, call, GREG[0], due=due)))
    env.cov['states of a writer (call, region) analysed'] = env.pool(rep, jobs)


# ---------------------------------------------------------------- a chunk of any number of pages
def chunk_end(F, ty, en, co):
    """the chunk of a series that holds n >= 2 finished pages, for any n, whose bytes are anything"""
    ob = 'any number of pages, %s %s %s' % (ty, en, co)

    def go(rep):
        from contexts import D, S
        g = Group(F, ob, None, [Dev(D[0], [(S[0], ty, en, co)])])
        x = g.x
        c = x.c
        h = g.chunk(0, 0)
        n = rsym('finished pages', 2, 2**31 - 2)
        pb = buf('finished pages', 4, 2**28)
        st = get(F, get(F, fld(get(F, c.get(h), 'current_page_writer'), 'Option', 1, 0)), 'statistics')
        c.I.store(c.st, h, fill_chunk(F, c, c.get(h), None, page_buffer=pb, num_pages=n, statistics=st,
                                      size_without_statistics=rsym('first page header', 2, 10)))
        x.close()
        if c.st is None or not x.rets or isv(x.rets[-1][3], 1, 2) is TRUE:
            rep.add('P06', ob, 'undecided', 'close does not succeed')
            return {}
        out = x.output()
        pc = c.st.pc
        r = R(restrict(out.a[3], c.st.pc), sect='head')
        try:
            for _ in range(7):
                r.byte('magic')
            r.byte('marker')
            r.str('device id')
            m = r.byte('chunk marker')
            same(m, K(1), pc, rep, 'P06', ob + '/marker', 'the marker of a chunk of several pages')
            r.sect = 'chunk header'
            nm = r.str('measurement id')
            size = r.uvar('chunk data size')
            for what in ('data type', 'compression', 'encoding'):
                r.byte(what)
            end = add(r.pos, size)
            rep.add('P06', ob + '/name', 'ok' if nm is S[0] else 'undecided', 'name of the chunk')
            k = r.take()
            if k is segs_of(pb)[0]:
                rep.add('P06 P14', ob + '/pages', 'ok')
            else:
                rep.add('P06 P14', ob + '/pages', 'undecided', 'the finished pages do not follow the chunk header but %s' % sshow(k))
                return {}
            pg = read_page(r, ty, co, False)
            same(r.pos, end, pc, rep, 'P06', ob + '/size', 'the end of a chunk of several pages')
            same(pg['stats']['count'], K(1), pc, rep, 'P06 P05', ob + '/last page', 'the count in the last page of a chunk')
        except Bad as e:
            rep.add('P06', ob, 'undecided', str(e))
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def chunk_ends(env, rep):
    jobs = [('any number of pages %s %s %s' % (ty, en, co), ['P06'], chunk_end(env.F, ty, en, co))
            for ty in ('INT32', 'INT64', 'FLOAT') for en in ('PLAIN', 'TS2DIFF') for co in ('UNCOMPRESSED', 'SNAPPY') if (ty, en) != ('FLOAT', 'TS2DIFF')]
    env.cov['chunks of any number of pages'] = env.pool(rep, jobs)
