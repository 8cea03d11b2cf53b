"""Analyses of single functions for all their arguments."""
from scen import *
from scen import same
import terms
import summ
import models
from client import *


def items(f):
    """run f(rep) and return its items for the pool"""
    rep = Report()
    n = f(rep) or {}
    return rep.items, n


def leading(name, ty, k):
    """all values of ty whose highest set bit is k (-1: zero)"""
    w = terms.WIDTH[ty]
    s = sym(name)
    return terms.bits(w, ty[0] == 'i', [lit(terms._mk('bit', s, i)) if i < k else B(i == k) for i in range(w)])


def leading_neg(name, ty, k):
    """all negative values whose highest clear bit is k (-1: minus one)"""
    w = terms.WIDTH[ty]
    s = sym(name)
    return terms.bits(w, True, [lit(terms._mk('bit', s, i)) if i < k else B(i != k) for i in range(w)])


def groups(bs):
    """the format's variable-length form of the unsigned number with these bits (top one set)"""
    n = max([i + 1 for i, b in enumerate(bs) if b is not FALSE] + [1])
    out = []
    for i in range(0, n, 7):
        g = (bs[i:min(i + 7, len(bs))] + [FALSE] * 7)[:7]
        out.append(e_(terms.bits(8, False, g + [B(i + 7 < n)])))
    return out


def zigzag_bits(x):
    bs = list(x.a[2:])
    s = bs[-1]
    return [s] + [ite(s, not_(b), b) for b in bs[:-1]]


def norm_bytes(v):
    return seqval([e_(as_bits(s.a[0], 8)) if s.op == 'e' else s for s in segs_of(v)])


def as_bits(t, w):
    b = terms.tobits(t, w, 'u%d' % w)
    return terms.bits(w, False, b) if b is not None else t


def bytes_same(rep, props, ob, what, got, want, pc):
    g, w = segs_of(got), segs_of(want)
    if len(g) != len(w):
        if all(s.op == 'e' for s in g):
            rep.add(props, ob, 'violation', '%s is %d bytes long, must be %d' % (what, len(g), len(w)), 'w')
        else:
            rep.add(props, ob, 'undecided', '%s has an unexpected shape: %s' % (what, sshow(got)))
        return
    for i, (x, y) in enumerate(zip(g, w)):
        if x.op != 'e':
            rep.add(props, ob, 'undecided', '%s has an unexpected shape: %s' % (what, sshow(got)))
            return
        same(as_bits(x.a[0], 8), as_bits(y.a[0], 8), pc, rep, props, '%s/byte %d' % (ob, i), 'byte %d of %s' % (i, what))


def okval(I, r):
    """payload of a Result that must be Ok; None if it may be Err"""
    if r is not None and r.op == 'adt' and r.a[0] == 'Result' and r.a[1] == 0:
        return r.a[2]
    return None


def varint(F, fn, neg, k):
    """one function of the variable-length integers on all arguments with the given leading bit"""
    def go(rep):
        c = Client(F)
        f = F.find(None, fn)
        i32 = fn.endswith('i32')
        ty = 'i32' if i32 else 'u32'
        x = leading_neg('v', ty, k) if neg else leading('v', ty, k)
        bs = zigzag_bits(x) if i32 else list(x.a[2:])
        want = groups(bs)
        ob = '%s/%s highest %s bit %d' % (fn, 'negative,' if neg else '', 'clear' if neg else 'set', k)
        what = '%s of a number whose highest %s bit is %d' % (fn, 'clear' if neg else 'set', k)
        if fn.startswith('size'):
            r = c.callf(f, x)
            panics(rep, c, ob, what)
            if r is not None:
                same(terms.unbits(r) or r, K(len(want)), c.st.pc, rep, 'P12', ob + '/size', what)
        elif fn.startswith('write'):
            buf = c.new(EMPTY)
            r = c.callf(f, x, buf)
            panics(rep, c, ob, what)
            if r is not None:
                v = okval(c.I, r)
                if v is None:
                    rep.add('P12', ob, 'undecided', 'result ' + sshow(r))
                elif v is not UNIT:
                    same(terms.unbits(v) or v, K(len(want)), c.st.pc, rep, 'P12', ob + '/returned', 'the length returned by ' + what)
                bytes_same(rep, 'P12', ob, what, c.get(buf), seqval(want), c.st.pc)
        else:
            rest = [e_(terms.symbits('rest', 'u8'))]
            src = c.new(adt('Source', 0, seqval(want + rest)))
            r = c.callf(f, src)
            panics(rep, c, ob, what)
            if r is not None:
                v = okval(c.I, r)
                if v is None:
                    rep.add('P12', ob, 'violation' if r.op == 'adt' else 'undecided', 'reading a well-formed number gives %s' % sshow(r), 'w')
                else:
                    same(as_bits(v, 32), as_bits(x, 32), c.st.pc, rep, 'P12', ob + '/value', what)
                    same(c.get(src), adt('Source', 0, seqval(rest)), c.st.pc, rep, 'P12', ob + '/consumed', 'what is left unread by ' + what)
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def panics(rep, c, ob, what, props='P12 P15'):
    if 'P15' in props:
        overflows(rep, c.I, TRUE, ob, what)
    for pc, kind, fn, sp, det in c.I.panics:
        if pc is not TRUE and not pc.opq:
            same(pc, FALSE, TRUE, rep, props, ob + '/panic', '%s: a panic (%s in %s at %s) is reached' % (what, kind, fn, sp))
        else:
            rep.add(props, ob + '/panic', 'violation' if pc is TRUE else 'undecided', '%s panics (%s in %s at %s)' % (what, kind, fn, sp), 'w')
        break
    else:
        rep.add(props, ob + '/no panic', 'ok')


def varints(env, rep):
    """the variable-length integer functions, by leading bit: every 32-bit argument is covered"""
    jobs = []
    for fn in ('write_var_u32', 'size_var_u32', 'read_var_u32', 'write_var_i32', 'size_var_i32'):
        if not env.F.has(None, fn):
            rep.add('P12', fn, 'undecided', 'anchor not found')
            continue

        def go(fn=fn):
            it, n = [], {}
            for neg in ((False, True) if fn.endswith('i32') else (False,)):
                for k in range(-1, 31 if fn.endswith('i32') else 32):
                    a, b = varint(env.F, fn, neg, k)()
                    it += a
                    for x, y in b.items():
                        n[x] = n.get(x, 0) + y
            return it, n
        jobs.append((fn, ['P12'], go))
    env.cov['functions analysed for all arguments'] = env.cov.get('functions analysed for all arguments', []) + env.pool(rep, jobs)


# ---------------------------------------------------------------- TS_2DIFF
ENC = (('IntTs2DiffEncoder', 'i32', 32), ('LongTs2DiffEncoder', 'i64', 64))


def packbits(vals, width):
    """values packed one after the other, most significant bit first"""
    out = []
    for v in vals:
        out += list(v)[:width][::-1]
    while len(out) % 8:
        out.append(FALSE)
    return [e_(terms.bits(8, False, out[i:i + 8][::-1])) for i in range(0, len(out), 8)]


def pack_one(F, enc, ty, w):
    """to_bytes: every width, every bit position, every number that fits"""
    def go(rep):
        n = 0
        for width in range(0, w + 1):
            # values of one block all have the same width, so only these positions occur
            for pos in sorted({i * width % 8 for i in range(8)}):
                for before in (0, 2):
                    if before and (width not in (1, 7, 8, 9, w - 1, w)):
                        continue
                    c = Client(F)
                    ob = '%s::to_bytes width %d at bit %d' % (enc, width, pos + 8 * before)
                    what = 'a %d-bit number packed at bit %d by %s' % (width, pos + 8 * before, enc)
                    full = terms.symbits('v', ty)
                    num = terms.bits(w, True, [full.a[2 + i] if i < width else FALSE for i in range(w)])
                    old = [terms.symbits('old%d' % i, 'u8') for i in range(before)]
                    part = terms.symbits('part', 'u8')
                    keep = [part.a[2 + i] if i >= 8 - pos else FALSE for i in range(8)]
                    have = [e_(o) for o in old] + ([e_(terms.bits(8, False, keep))] if pos else [])
                    buf = c.new(seqval(have))
                    c.call(enc, 'to_bytes', num, buf, K(pos + 8 * before), K(width))
                    panics(rep, c, ob, what, 'P11 P15')
                    if c.st is None:
                        continue
                    want = [e_(o) for o in old]
                    row = keep[::-1][:pos] + list(num.a[2:2 + width])[::-1]
                    while len(row) % 8:
                        row.append(FALSE)
                    want += [e_(terms.bits(8, False, row[i:i + 8][::-1])) for i in range(0, len(row), 8)]
                    bytes_same(rep, 'P11', ob, what, c.get(buf), seqval(want), c.st.pc)
                    n += c.I.callsites
        return {'calls analysed': n}
    return lambda: items(go)


def be_segs(x, n):
    return list(terms.be_segs(n, x)) if hasattr(terms, 'be_segs') else [terms._mk('be', n, x)]


def encoder(c, F, enc, **kw):
    fs = F.adt(enc)['v'][0]['f']
    if not set(kw) >= {f[0] for f in fs}:
        raise Missing('fields of ' + enc)
    return adt(enc, 0, *[kw[f[0]] for f in fs])


def block(F, enc, ty, w, shapes):
    """a whole block: values whose leading bits are given, minimum delta as chosen"""
    def go(rep):
        n = 0
        for ks in shapes:
            c = Client(F)
            ob = '%s block of %d deltas, leading bits %s' % (enc, len(ks), ' '.join(map(str, ks[:6])))
            what = 'a block of %d deltas with leading bits %s' % (len(ks), list(ks[:8]))
            vals = [leading('v%d' % i, ty, k) for i, k in enumerate(ks)]
            first = sym('first', ('int', ty))
            e = encoder(c, F, enc, first_value=some(first), min_delta=K(0), previous_value=sym('prev', ('int', ty)),
                        values=seqval([e_(v) for v in vals]), buffer=EMPTY)
            r = c.new(e)
            c.call(enc, 'flush', r)
            panics(rep, c, ob, what, 'P11 P15')
            if c.st is None:
                continue
            n += c.I.callsites
            width = max([k + 1 for k in ks] + [0])
            v = c.get(r)
            fi = {f[0]: i for i, f in enumerate(F.adt(enc)['v'][0]['f'])}
            want = [e_(K(b)) for b in len(ks).to_bytes(4, 'big') + width.to_bytes(4, 'big') + bytes(w // 8)]
            want.append(terms._mk('be', w // 8, first))
            want += packbits([list(x.a[2:]) for x in vals], width)
            got = v.a[2 + fi['buffer']]
            same(seqval(segs_of(norm_bytes(got))), seqval(segs_of(norm_bytes(seqval(want)))), c.st.pc, rep, 'P11', ob, what)
            rest = v.a[2 + fi['values']]
            same(rest, EMPTY, c.st.pc, rep, 'P11', ob + '/emptied', 'what stays buffered after ' + what)
        return {'calls analysed': n}
    return lambda: items(go)


def step(F, enc, ty, w):
    """one value is added: delta, minimum and previous value"""
    def go(rep):
        n = 0
        vn = {'i32': 'INT', 'i64': 'LONG'}[ty]
        for have, fst in ((0, False), (0, True), (1, True), (5, True)):
            c = Client(F)
            ob = '%s::write after %s' % (enc, 'nothing' if not fst else '%d deltas' % have)
            what = ob
            ds = [sym('d%d' % i, ('int', ty)) for i in range(have)]
            prev, v, fv, md = (sym(x, ('int', ty)) for x in ('prev', 'v', 'first', 'min'))
            m0 = terms.INT_RANGE[ty][1]
            e = encoder(c, F, enc, first_value=some(fv) if fst else NONE, min_delta=md if have else K(m0), previous_value=prev,
                        values=seqval([e_(d) for d in ds]), buffer=EMPTY)
            r = c.new(e)
            val = c.new(c.case('IoTDBValue', vn, v))
            c.call(enc, 'write', r, val)
            panics(rep, c, ob, what, 'P11 P15')
            if c.st is None:
                continue
            n += c.I.callsites
            got = c.get(r)
            fi = {f[0]: i for i, f in enumerate(F.adt(enc)['v'][0]['f'])}
            d = terms.wrap(ty, sub(v, prev))
            mm = md if have else K(m0)
            want = {'first_value': some(fv if fst else v), 'previous_value': v, 'buffer': EMPTY,
                    'values': seqval([e_(x) for x in ds] + ([e_(d)] if fst else [])),
                    'min_delta': ite(lt(d, mm), d, mm) if fst else mm}
            for k, y in want.items():
                same(got.a[2 + fi[k]], y, c.st.pc, rep, 'P11', ob + '/' + k, '%s after %s' % (k, what))
        return {'calls analysed': n}
    return lambda: items(go)


PATTERNS = {
    'mixed deltas': lambda i, w: (i * 37) % 101 - 50,
    'the last delta of a block the widest': lambda i, w: (1 << (w - 3)) + 5 if i % 129 == 128 else i % 3,
    'the first delta of a block the widest': lambda i, w: (1 << (w // 2 + 3)) if i % 129 == 1 else 7,
    'the smallest delta last': lambda i, w: -(1 << (w - 4)) if i % 129 == 128 else i % 5,
    'deltas of both extremes': lambda i, w: (1 << (w - 1)) - 1 if i % 2 else -(1 << (w - 1)),
    'falling faster and faster': lambda i, w: -i * i,
    'equal values': lambda i, w: 0,
    'growing from block to block': lambda i, w: -5 if i < 129 else 1000 + i if i < 258 else -70000 * i,
}


def run_encoder(F, enc, ty, w, pat, ns):
    """the encoder as it is used: values in, bytes out, emptied, used again; the base of all values is unknown"""
    def go(rep):
        n = 0
        vn = {'i32': 'INT', 'i64': 'LONG'}[ty]
        for runs in ns:
            ob = '%s, %s, %s values' % (enc, pat, ' then '.join(map(str, runs)))
            c = Client(F)
            r = c.new(c.call(enc, 'new'))
            for k, m in enumerate(runs):
                what = ob + (' (use %d)' % (k + 1) if len(runs) > 1 else '')
                x = sym('base', ('int', ty))
                off = k * 1000
                vals = []
                for i in range(m):
                    off += PATTERNS[pat](i, w) if i else 0
                    vals.append(terms.wrap(ty, add(x, K(off))))
                    if c.st is None:
                        break
                    c.call(enc, 'write', r, c.new(c.case('IoTDBValue', vn, vals[-1])))
                if c.st is not None:
                    out = c.new(EMPTY)
                    c.call(enc, 'serialize', r, out)
                panics(rep, c, ob, what, 'P11 P15')
                if c.st is None:
                    break
                n += c.I.callsites
                try:
                    bl = reader.ts2diff(c.get(out), w // 8, 'values')
                    check_blocks(rep, bl, vals, ob, what)
                    got = [terms.wrap(ty, g) for b in bl for g in b['values']]
                    compare_list(rep, got, vals, c.st.pc, 'P11', ob + '/values %d' % k, 'value', what)
                except Bad as b:
                    fail(rep, b, ob + '/values %d' % k, 'P11', pc=c.st.pc)
                c.call(enc, 'reset', r)
                if c.st is None:
                    break
        return {'calls analysed': n}
    return lambda: items(go)



def ts2diff(env, rep):
    F = env.F
    jobs = []
    for enc, ty, w in ENC:
        jobs.append((enc + '::to_bytes', ['P11', 'P15'], pack_one(F, enc, ty, w)))
        top = w - 1
        sh = [()] + [(k,) for k in range(-1, w)]
        for a in (-1, 0, 3, 7, 8, 12, top - 1, top):
            for b in (-1, 2, 6, 7, 9, 30, top):
                sh.append((a, b))
                sh.append((b, a, 4))
        sh += [tuple((i * 7) % 11 - 1 for i in range(m)) for m in (8, 9, 16, 127, 128)]
        jobs.append((enc + '::flush', ['P11', 'P15'], block(F, enc, ty, w, sh)))
        jobs.append((enc + '::write', ['P11', 'P15'], step(F, enc, ty, w)))
        for pat in PATTERNS:
            if 'extremes' in pat or w == 64 and max(abs(PATTERNS[pat](i, w)) for i in (1, 127, 128)) > 1 << 40:
                ns = [(3,), (130,)]
            else:
                ns = [(m,) for m in (1, 2, 9, 128, 129, 130, 131)] + [(3, 2), (129, 130), (131, 1)]
            if pat in ('mixed deltas', 'growing from block to block'):
                ns += [(m,) for m in (257, 258, 259, 260, 388)]
            jobs.append(('%s, %s' % (enc, pat), ['P11', 'P15'], run_encoder(F, enc, ty, w, pat, ns)))
    env.cov['functions analysed for all arguments'] = env.cov.get('functions analysed for all arguments', []) + env.pool(rep, jobs)


# ---------------------------------------------------------------- bloom filter
SEEDS = [5, 7, 11, 19, 31, 37, 43, 59]


def config(c, F, **kw):
    cf = c.call('TsFileConfig', 'default', trait='Default')
    return setf(F, cf, **{k: (v if not isinstance(v, int) else K(v)) for k, v in kw.items()})


def hashes(c, F, value):
    """the hash of a path is replaced by value(path term, seed)"""
    f = F.find('Murmur128', 'hash')
    if not summ.shape(F, f, ['&str', 'i32'], 'i32'):
        raise Missing('Murmur128::hash(&str, i32) -> i32')

    def m(I, st, a, cc):
        return value(I.loadd(st, a[0]), a[1]), st
    c.I.summaries[f['key']] = m


def murmur_app(p, s):
    v = app('murmur', p, s)
    TYPEOF.setdefault(v, ('int', 'i32'))
    return v


def rs(ss, pc):
    """restrict inside a sequence"""
    out = []
    for s in ss:
        if s.op == 'e':
            out.append(e_(restrict(s.a[0], pc)))
        elif s.op == 'alt':
            c = restrict(s.a[0], pc)
            if c is TRUE or c is FALSE:
                out += rs(segs_of(s.a[1 if c is TRUE else 2]), pc)
            else:
                out.append(s)
        else:
            out.append(s)
    return out


def alternatives(v, pc):
    """[(condition, value)] for a value with alternatives inside its sequence"""
    if pc is FALSE:
        return []
    v = restrict(v, pc)
    if v.op == 'ite':
        return alternatives(v.a[1], and_(pc, lit(v.a[0]))) + alternatives(v.a[2], and_(pc, not_(lit(v.a[0]))))
    ss = rs(segs_of(v), pc)
    if ss and ss[0].op == 'e' and ss[0].a[0].op == 'ite':
        x = ss[0].a[0]
        cnd = lit(x.a[0])
        return alternatives(seqval([e_(x.a[1])] + list(ss[1:])), and_(pc, cnd)) + alternatives(seqval([e_(x.a[2])] + list(ss[1:])), and_(pc, not_(cnd)))
    for i, s in enumerate(ss):
        if s.op == 'alt':
            cnd = s.a[0]
            out = []
            for k, cc in ((1, and_(pc, cnd)), (2, and_(pc, not_(cnd)))):
                if cc is not FALSE:
                    out += alternatives(seqval(list(ss[:i]) + list(segs_of(s.a[k])) + list(ss[i + 1:])), cc)
            return out
    return [(pc, seqval(ss))]


def take_uvar(ss):
    n, k = 0, 0
    while True:
        if not ss or ss[0].op != 'e':
            return None
        b = terms.unbits(ss[0].a[0]) or ss[0].a[0]
        ss = ss[1:]
        if b.op != 'k':
            return None
        n |= (b.a[0] & 127) << k
        k += 7
        if not b.a[0] & 128:
            return n, ss


def flat_bytes(ss):
    out = []
    for s in ss:
        if s.op == 'repeat':
            if s.a[1].op != 'k':
                return None
            out += [s.a[0]] * s.a[1].a[0]
        elif s.op == 'e':
            out.append(s.a[0])
        else:
            return None
    return out


def bit_of(b, i):
    bs = terms.tobits(b, 8, 'u8')
    if bs is not None:
        return bs[i]
    if b.op == 'ite':
        return ite(lit(b.a[0]), bit_of(b.a[1], i), bit_of(b.a[2], i))
    return None


def check_filter(rep, c, ob, what, out, want, pc, dom=None):
    """want(size, nhash) -> [(condition, bit)]: where the condition holds, the bit must be set"""
    for cnd, v in alternatives(out, and_(pc, dom) if dom is not None else pc):
        if cnd is FALSE:
            continue
        ss = list(segs_of(v))
        ss = [e_(b) for b in (flat_bytes(ss) or [])] if flat_bytes(ss) is not None else ss
        r = take_uvar(ss)
        if r is None or len(r[1]) < r[0]:
            rep.add('P09', ob, 'violation' if r and all(x.op == 'e' for x in r[1]) and len(r[1]) < r[0] else 'undecided',
                    '%s: the number of bytes does not fit what follows: %s' % (what, sshow(v)[:300]))
            return
        n, ss = r
        bs = flat_bytes(ss[:n])
        tail = take_uvar(ss[n:])
        t2 = take_uvar(tail[1]) if tail else None
        if t2 is None or t2[1]:
            rep.add('P09', ob, 'undecided', '%s: not bits, size and number of hash functions: %s' % (what, sshow(seqval(ss[n:]))[:300]))
            return
        size, nh = tail[0], t2[0]
        for g, i in want(size, nh):
            g = and_(cnd, g)
            if g is FALSE:
                continue
            if i // 8 >= n:
                rep.add('P09', ob, 'violation', '%s: only %d bytes are stored although bit %d must be set, under %s' % (what, n, i, show(g)[:200]))
                return
            x = bit_of(bs[i // 8], i % 8)
            if x is None:
                rep.add('P09', ob, 'undecided', '%s: byte %d is %s' % (what, i // 8, sshow(bs[i // 8])))
                return
            x = restrict(x, g)
            if x is not TRUE and and_(g, not_(x)) is not FALSE:
                if not same(ite(g, x, TRUE), TRUE, pc, rep, 'P09', ob, 'bit %d of the stored filter of %s, where a reader expects it' % (i, what)):
                    return
    rep.add('P09', ob, 'ok')


def bloom_symbolic(F, np, size, nh):
    """np unknown paths, a filter of the given size: every position the hash may give"""
    def go(rep):
        c = Client(F)
        hashes(c, F, murmur_app)
        ob = 'bloom filter of %d paths, minimal size %d, at most %d hash functions' % (np, size, nh)
        cf = c.new(config(c, F, minimal_size=size, maximal_hash_function_size=nh))
        ps = [sym('path%d' % i) for i in range(np)]
        fs = F.adt('Path')['v'][0]['f']
        if [f[0] for f in fs] != ['path']:
            raise Missing('fields of Path')
        b = c.call('BloomFilter', 'build', seqval([e_(adt('Path', 0, p)) for p in ps]), cf)
        panics(rep, c, ob, ob, 'P09 P15')
        if b is None:
            return
        out = c.new(EMPTY)
        r = c.call('BloomFilter', 'serialize', c.new(b), out, trait='Serializable')
        panics(rep, c, ob + '/written', ob, 'P09 P15')
        if r is None:
            return

        def domain(b):
            # a remainder takes one of its values
            size = fld(b, 'BloomFilter', 0, F.fieldno('BloomFilter', 'size'))
            n = fld(b, 'BloomFilter', 0, F.fieldno('BloomFilter', 'hash_function_size'))
            r = TRUE
            for p in ps:
                for j in range(n.a[0]):
                    idx = terms.rem(app_uabs(murmur_app(p, K(SEEDS[j]))), size)
                    one = FALSE
                    for i in range(size.a[0]):
                        one = or_(one, terms.eq(idx, K(i)))
                    r = and_(r, one)
            return r

        def want(size, nh):
            o = []
            for p in ps:
                for j in range(nh):
                    h = murmur_app(p, K(SEEDS[j]))
                    idx = terms.rem(app_uabs(h), K(size))
                    for i in range(size):
                        o.append((terms.eq(idx, K(i)), i))
            return o
        check_filter(rep, c, ob, ob, c.get(out), want, c.st.pc, domain(b))
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def app_uabs(h):
    if isk(h):
        return K(abs(h.a[0]))
    r = terms._mk('uabs', h)
    TYPEOF.setdefault(r, ('int', 'u32'))
    return r


HASHES = [0, 1, -1, 2**31 - 1, -2**31 + 1, 255, 256, -256, 511, 7, -8, 1000003]


def bloom_concrete(F, np, rate, k):
    """np paths with some hash values, the default sizes"""
    def go(rep):
        import random
        rnd = random.Random(k)
        c = Client(F)
        tab = {}

        def val(p, s):
            if s.op != 'k':
                raise Undecided('unknown seed')
            key = (p, s.a[0])
            if key not in tab:
                tab[key] = K(rnd.choice(HASHES) if rnd.random() < 0.3 else rnd.randrange(-2**31 + 1, 2**31))
            return tab[key]
        hashes(c, F, val)
        c.I.maxvisits = 200000
        ob = 'bloom filter of %d paths, error rate %s, hash values %d' % (np, rate, k)
        kw = {'bloom_filter_error_rate': FL('f64', terms_f64(rate))} if rate else {}
        cf = c.new(config(c, F, **kw))
        ps = [sym('path%d' % i) for i in range(np)]
        b = c.call('BloomFilter', 'build', seqval([e_(adt('Path', 0, p)) for p in ps]), cf)
        panics(rep, c, ob, ob, 'P09 P15')
        if b is None:
            return
        out = c.new(EMPTY)
        r = c.call('BloomFilter', 'serialize', c.new(b), out, trait='Serializable')
        panics(rep, c, ob + '/written', ob, 'P09 P15')
        if r is None:
            return

        def want(size, nh):
            return [(TRUE, abs(val(p, K(SEEDS[j])).a[0]) % size) for p in ps for j in range(nh)]
        check_filter(rep, c, ob, ob, c.get(out), want, c.st.pc)
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def terms_f64(x):
    import struct
    return struct.unpack('>Q', struct.pack('>d', x))[0]


def bloom(env, rep):
    F = env.F
    jobs = []
    for np, size, nh in ((1, 1, 1), (1, 9, 1), (1, 16, 2), (2, 10, 1), (2, 12, 2), (1, 40, 1), (3, 8, 1)):
        jobs.append(('bloom %d %d %d' % (np, size, nh), ['P09', 'P15'], bloom_symbolic(F, np, size, nh)))
    for i, (np, rate) in enumerate(((1, None), (1, None), (2, None), (5, None), (41, None), (42, None), (60, None), (100, None), (3, 0.01), (30, 0.01), (3, 0.1), (70, 0.1), (4, 0.5), (4, 1e-9), (400, None))):
        jobs.append(('bloom concrete %d' % i, ['P09', 'P15'], bloom_concrete(F, np, rate, i)))
    env.cov['bloom filters'] = env.pool(rep, jobs)


# ---------------------------------------------------------------- murmur hash
class M64:
    """64-bit arithmetic of the reference hash, on terms"""
    @staticmethod
    def w(x):
        return terms.wrap('i64', x)

    @staticmethod
    def xor(a, b):
        return terms.bitop('xor', 'i64', a, b)

    @staticmethod
    def rotl(a, n):
        return terms.rotl('i64', a, K(n))

    @staticmethod
    def mulc(a, n):
        n &= 2**64 - 1
        n = n - 2**64 if n >> 63 else n
        return terms.wrap('i64', terms.scale(terms.unbits(a) or a, n)) if terms.isk(a) or a.op != 'bits' else terms.wrap('i64', terms.mul(a, K(n)))

    @staticmethod
    def ushr(a, n):
        return terms.wrap('i64', terms.shr('u64', terms.wrap('u64', a), K(n)))


C1, C2 = 0x87c37b91114253d5, 0x4cf5ad432745937f


def ref_murmur(key, seed, signed):
    """key: 8-bit vectors; the 128-bit Murmur hash of the format, first half"""
    m = M64
    n = len(key)

    def word(bs, sx=False):
        b = []
        for x in bs:
            b += list(x.a[2:])
        return terms.bits(64, True, (b + [FALSE] * 64)[:64]) if b else K(0)
    h1 = h2 = seed
    for i in range(n // 16):
        k1, k2 = word(key[16 * i:16 * i + 8]), word(key[16 * i + 8:16 * i + 16])
        k1 = m.mulc(m.rotl(m.mulc(k1, C1), 31), C2)
        h1 = m.rotl(m.xor(h1, k1), 27)
        h1 = m.w(add(h1, h2))
        h1 = m.w(add(m.mulc(h1, 5), K(0x52dce729)))
        k2 = m.mulc(m.rotl(m.mulc(k2, C2), 33), C1)
        h2 = m.rotl(m.xor(h2, k2), 31)
        h2 = m.w(add(h2, h1))
        h2 = m.w(add(m.mulc(h2, 5), K(0x38495ab5)))
    tail = key[n // 16 * 16:]

    def part(bs):
        x = K(0)
        for i, b in enumerate(bs):
            s = list(b.a[2:])
            v = terms.bits(64, True, ([FALSE] * (8 * i) + s + [s[-1] if signed else FALSE] * 64)[:64])
            x = v if x is K(0) else terms.bitop('xor', 'i64', x, v)
        return x
    if len(tail) > 8:
        h2 = m.xor(h2, m.mulc(m.rotl(m.mulc(part(tail[8:]), C2), 33), C1))
    if tail:
        h1 = m.xor(h1, m.mulc(m.rotl(m.mulc(part(tail[:8]), C1), 31), C2))
    h1, h2 = m.xor(h1, K(n)), m.xor(h2, K(n))
    h1 = m.w(add(h1, h2))
    h2 = m.w(add(h2, h1))

    def fmix(k):
        k = m.xor(k, m.ushr(k, 33))
        k = m.mulc(k, 0xff51afd7ed558ccd)
        k = m.xor(k, m.ushr(k, 33))
        k = m.mulc(k, 0xc4ceb9fe1a85ec53)
        return m.xor(k, m.ushr(k, 33))
    h1, h2 = fmix(h1), fmix(h2)
    h1 = m.w(add(h1, h2))
    h2 = m.w(add(h2, h1))
    return terms.wrap('i32', m.w(add(h1, h2)))


def murmur_len(F, n, ascii):
    def go(rep):
        c = Client(F)
        ob = 'Murmur128::hash of %d bytes%s' % (n, '' if ascii else ', any bytes')
        key = []
        for i in range(n):
            b = terms.symbits('key%d' % i, 'u8')
            if ascii:
                b = terms.bits(8, False, list(b.a[2:9]) + [FALSE])
            key.append(b)
        seed = sym('seed', ('int', 'i32'))
        f = F.find('Murmur128', 'hash')
        if not summ.shape(F, f, ['&str', 'i32'], 'i32'):
            raise Missing('Murmur128::hash(&str, i32) -> i32')
        r = c.callf(f, c.new(seqval([e_(b) for b in key])), seed)
        panics(rep, c, ob, ob, 'P09 P15')
        if r is None:
            return
        want = ref_murmur(key, seed, False)
        if not ascii and restrict(r, c.st.pc) is ref_murmur(key, seed, True):
            want = r
        same(r, want, c.st.pc, rep, 'P09', ob, ob)
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def int_murmur(b, seed):
    """the same hash, of ASCII bytes that are known"""
    M = 2 ** 64 - 1

    def rotl(x, n):
        return (x << n | x >> 64 - n) & M

    def k1of(w):
        return rotl(w * C1 & M, 31) * C2 & M

    def k2of(w):
        return rotl(w * C2 & M, 33) * C1 & M
    n = len(b)
    h1 = h2 = seed & M
    for i in range(0, n // 16 * 16, 16):
        h1 ^= k1of(int.from_bytes(b[i:i + 8], 'little'))
        h1 = ((rotl(h1, 27) + h2) * 5 + 0x52dce729) & M
        h2 ^= k2of(int.from_bytes(b[i + 8:i + 16], 'little'))
        h2 = ((rotl(h2, 31) + h1) * 5 + 0x38495ab5) & M
    t = b[n // 16 * 16:]
    h2 ^= k2of(int.from_bytes(t[8:], 'little'))
    h1 ^= k1of(int.from_bytes(t[:8], 'little'))
    h1 ^= n
    h2 ^= n
    h1 = h1 + h2 & M
    h2 = h2 + h1 & M

    def fmix(k):
        k = (k ^ k >> 33) * 0xff51afd7ed558ccd & M
        k = (k ^ k >> 33) * 0xc4ceb9fe1a85ec53 & M
        return k ^ k >> 33
    h1, h2 = fmix(h1), fmix(h2)
    h1 = h1 + h2 & M
    h2 = h2 + h1 & M
    r = h1 + h2 & 0xffffffff
    return r - 2 ** 32 if r >> 31 else r


def murmur_long(F, n, seed):
    """the hash of one long name"""
    def go(rep):
        import random
        c = Client(F)
        c.I.maxvisits = 10 ** 6
        ob = 'Murmur128::hash of one name of %d bytes' % n
        rnd = random.Random(n)
        key = bytes(rnd.randrange(33, 127) for i in range(n))
        f = F.find('Murmur128', 'hash')
        if not summ.shape(F, f, ['&str', 'i32'], 'i32'):
            raise Missing('Murmur128::hash(&str, i32) -> i32')
        r = c.callf(f, c.new(seqval([e_(K(b)) for b in key])), K(seed))
        panics(rep, c, ob, ob, 'P09 P15')
        if r is not None:
            same(r, K(int_murmur(key, seed)), c.st.pc, rep, 'P09', ob, ob)
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def murmur(env, rep):
    jobs = [('murmur %d %s' % (n, a), ['P09', 'P15'], murmur_len(env.F, n, a)) for n in list(range(0, 33)) + [47, 48, 50, 70] for a in (True, False)]
    jobs += [('murmur of a long name %d' % n, ['P09', 'P15'], murmur_long(env.F, n, 7)) for n in ((33000, 66000) if env.tier == 'thorough' else ()) + (8200, 4100, 1000, 300, 256, 130)]
    n = env.pool(rep, jobs)
    env.cov['lengths of hashed names'] = len(n)


# ---------------------------------------------------------------- sinks that take less than they are given
def wrapper(F):
    """WriteWrapper counts exactly what the sink accepted, and reports what the sink reported"""
    def go(rep):
        c = Client(F)
        names = [n for n, in [(m,) for m in ('write', 'write_all', 'write_vectored', 'write_fmt', 'flush')] if F.has('WriteWrapper', n)]
        for n in names:
            if n in ('write_vectored', 'write_fmt'):
                rep.add('P02', 'WriteWrapper::' + n, 'undecided', 'not analysed')
        for seq, far in [(s, f) for f in (False, True) for s in (['write'], ['write', 'write'], ['write', 'write', 'write']) + ((['write_all'], ['write', 'write_all', 'write']) if 'write_all' in names else ())]:
            c = Client(F)
            buf = [seqval([e_(K(16 * i + j)) for j in range(7)]) for i in range(len(seq))]      # a sink may take up to six of these
            s = adt('ShortSink', 0, EMPTY, K(0))
            try:
                w = c.call('WriteWrapper', 'new', s)
            except Missing:
                w = adt('WriteWrapper', 0, *[{'position': K(0), 'writer': s}[f[0]] for f in F.adt('WriteWrapper')['v'][0]['f']])
            start = K(0)
            if far:
                # any number of bytes before these
                at = [i for i, f in enumerate(w.a[2:], 2) if f is K(0)]
                if len(at) != 1:
                    rep.add('P02', 'WriteWrapper/far', 'undecided', 'the count of bytes was not found')
                    continue
                start = sym('bytes before', ('int', 'u64'))
                terms.BOUND[start] = (0, 2**62)
                w = adt(*[start if i == at[0] else f for i, f in enumerate(w.a)])
            wr = c.new(w)
            rs_ = [c.call('WriteWrapper', n, wr, b, trait='Write') for n, b in zip(seq, buf)]
            ob = 'WriteWrapper/' + ('far/' if far else '') + ','.join(seq)
            panics(rep, c, ob, ob, 'P02 P15')
            if c.st is None:
                continue
            pos = c.call('WriteWrapper', 'get_position', wr, trait='PositionedWrite')
            import itertools
            sinks = []

            def walk(v):
                if v.op == 'adt' and v.a[0] == 'ShortSink':
                    sinks.append(v)
                for x in v.a:
                    if isinstance(x, T):
                        walk(x)
            walk(c.get(wr))
            if len(sinks) != 1:
                rep.add('P02', ob, 'undecided', 'the inner sink was not found')
                continue
            log = [x for x in segs_of(sinks[0].a[2])]
            if [x.a[0] for x in log if x.op in ('gave', 'gaveall')] != buf:
                rep.add('P02', ob, 'undecided', 'the inner sink got %s' % sshow(sinks[0].a[2])[:200])
                continue
            for case in itertools.product((0, 1), repeat=len(seq)):
                pc = c.st.pc
                want = start
                for k, (e, n) in enumerate(zip(case, seq)):
                    failed = models.refused(k)
                    pc = and_(pc, failed if e else not_(failed))
                    if not e:
                        want = terms.add(want, models.accepted(k) if n == 'write' else length(buf[k]))
                if pc is FALSE:
                    continue
                tag = ''.join('fo'[1 - e] for e in case)
                same(restrict(pos, pc), want, pc, rep, 'P02', '%s/position %s' % (ob, tag),
                     'position after writes %s' % ', '.join('that fail' if e else 'that accept part of the buffer' for e in case))
                for k, (r, e, n) in enumerate(zip(rs_, case, seq)):
                    w = sym('ioerror%d' % k)
                    w = err(w) if e else ok(models.accepted(k) if n == 'write' else UNIT)
                    same(restrict(r, pc), w, pc, rep, 'P02 P01', '%s/result %s %d' % (ob, tag, k), 'the result of %s' % n)
        return {}
    return lambda: items(go)


def sinks(env, rep):
    if not env.F.adts.get('WriteWrapper'):
        rep.add('P02', 'WriteWrapper', 'undecided', 'anchor not found')
        return
    env.cov['sinks'] = env.pool(rep, [('WriteWrapper', ['P02'], wrapper(env.F))])


# ---------------------------------------------------------------- the order of hash maps
def two_orders(F, f, nm):
    import scen

    def go(rep):
        outs = []
        for o in ('asc', 'desc', True):
            scen.HASHORDER[0] = o
            try:
                x = f(F)
            finally:
                scen.HASHORDER[0] = False
            outs.append((o, x))
        x0 = outs[0][1]
        pc = TRUE
        for c in x0.assumed:
            pc = and_(pc, c)
        for o, x in outs[1:]:
            if x0.output() is None or x.output() is None:
                rep.add('P23', nm, 'undecided', 'no file')
                return
            ob = 'iteration order/%s/%s' % (nm, o)
            if x.output() is x0.output():
                rep.add('P23', ob, 'ok')
            else:
                same(restrict(x.output().a[3], and_(pc, x.c.st.pc)), restrict(x0.output().a[3], and_(pc, x0.c.st.pc)), pc, rep, 'P23', ob,
                     'the file written by context "%s" when hash maps are iterated in another order' % nm)
            for i, (a, b) in enumerate(zip(x0.rets, x.rets)):
                if a[3] is not b[3] and a[3] is not None and b[3] is not None:
                    same(b[3], a[3], pc, rep, 'P23', '%s/call %d' % (ob, i), 'the result of call %d when hash maps are iterated in another order' % i)
        return {'calls analysed': sum(x.I.callsites for _, x in outs)}
    return lambda: items(go)


def without_refused(F, f, nm):
    """the same history without the calls that are refused"""
    import scen

    def go(rep):
        x = f(F)
        n = sum(1 for r in x.rets if r[4] is False)
        if not n:
            return {}
        scen.NOREFUSE[0] = True
        try:
            y = f(F)
        finally:
            scen.NOREFUSE[0] = False
        pc = TRUE
        for c in x.assumed:
            pc = and_(pc, c)
        if x.c.st is None or y.c.st is None or x.output() is None or y.output() is None:
            rep.add('P04', nm, 'undecided', 'no file')
            return
        ob = 'without the refused calls/' + nm
        a, b = x.output(), y.output()
        if a is b:
            rep.add('P04 P22', ob, 'ok')
        else:
            same(restrict(a.a[3], and_(pc, x.c.st.pc)), restrict(b.a[3], and_(pc, y.c.st.pc)), pc, rep, 'P04 P22', ob,
                 'the file written by context "%s", compared with the one without its %d refused calls,' % (nm, n))
        # later calls answer the same
        good = [r for r in x.rets if r[4] is not False]
        if len(good) == len(y.rets):
            for i, (p, q) in enumerate(zip(good, y.rets)):
                if p[3] is not q[3] and p[3] is not None and q[3] is not None:
                    same(isv(p[3], 0, 2), isv(q[3], 0, 2), pc, rep, 'P04', '%s/call %d' % (ob, i), 'whether call %d, %s, succeeds' % (i, p[0]))
        return {'calls analysed': x.I.callsites + y.I.callsites}
    return lambda: items(go)


def refused_calls(env, rep):
    import contexts
    jobs = []
    for nm, tier, props, f, kw in contexts.REG:
        if nm.startswith(('refused/', 'out of order', 'wrong type', 'float series', 'write_many', 'messages on', 'closed', 'nothing written', 'after close')):
            jobs.append((nm, ['P04', 'P22'], without_refused(env.F, f, nm)))
    env.cov['contexts compared with themselves without the refused calls'] = env.pool(rep, jobs)


SOURCES = ('SystemTime::now', 'Instant::now', 'Uuid::new_v4', 'rand::', 'thread_rng', 'RandomState', 'ThreadId', 'thread::current', 'process::id',
           'env::var', 'env::args', 'Local::now', 'Utc::now', 'getrandom', 'DefaultHasher', 'temp_dir')


def determinism(env, rep):
    import contexts
    jobs = []
    for nm, tier, props, f, kw in contexts.REG:
        if tier == 'thorough' and env.tier != 'thorough':
            continue
        if any(w in nm for w in ('two devices', 'one of three', 'declared in reverse', 'three chunk groups', 'write_many', 'unknown names', 'nothing written',
                                 'two series inter', 'chunk group ends', 'bloom/4-4-4', 'bloom/1-3-2')):
            jobs.append((nm, ['P23'], two_orders(env.F, f, nm)))
    env.cov['contexts run in several map orders'] = env.pool(rep, jobs)
    # nothing the writer can reach asks for time, randomness or the environment
    from rules import callee, istest
    F = env.F
    roots = [f for f in F.fns.values() if not istest(f) and 'writer/' in f['span'] and 'iself' in f and F.selfkey(f['iself']) == 'TsFileWriter']
    seen, todo = set(), [f['key'] for f in roots]
    n = 0
    # dynamic dispatch: every method of the writer module may be called
    todo += [f['key'] for f in F.fns.values() if f.get('itrait') and 'writer/' in f['span'] and not istest(f)]
    while todo:
        k = todo.pop()
        if k in seen or k not in F.fns:
            continue
        seen.add(k)
        f = F.fns[k]
        todo += [g['key'] for g in F.fns.values() if g.get('parent') == k]
        for blk in f['body']['blocks']:
            t = blk['t']
            if t[0] != 'call' or blk.get('cl'):
                continue
            c = callee(t)
            if c is None:
                continue
            n += 1
            for p in {c['p'], c.get('rp') or ''}:
                if any(s in p for s in SOURCES) and not (p.endswith('::default') or 'HashMap' in p or 'HashSet' in p):
                    flows = len(t[3]) == 1
                    rep.add('P23', 'sources/%s' % f['name'], 'violation' if flows else 'undecided',
                            '%s, which writing a file reaches, calls %s at %s: the file may differ between runs' % (f['p'], p, t[5]))
                    break
            todo.append(c.get('rk') or c['key'])
    rep.add('P23', 'sources', 'ok')
    env.cov['calls searched for time, randomness and environment'] = n


# ---------------------------------------------------------------- schemas
def schema_seq(F, name, ops, simple=False):
    """ops: a sequence of ('dev', d, [(s, type, encoding, compression), ...]) and 'build'"""
    def go(rep):
        c = Client(F)
        en = lambda e, v: c.case(e, v)
        schemas = []
        want = {}
        if simple:
            d, (s, ty, e, co) = ops
            schemas.append((c.call('Schema', 'simple', d, s, en('TSDataType', ty), en('TSEncoding', e), en('CompressionType', co)), {d: {s: (ty, e, co)}}))
        else:
            b = c.new(c.call('TsFileSchemaBuilder', 'new'))
            for o in ops:
                if o == 'build':
                    schemas.append((c.call('TsFileSchemaBuilder', 'build', b), {d: dict(x) for d, x in want.items()}))
                    continue
                _, d, series = o
                db = c.new(c.call('DeviceBuilder', 'new'))
                w = {}
                for x in series:
                    if x == 'build':
                        c.call('DeviceBuilder', 'build', db)
                        continue
                    s, ty, e, co = x
                    c.call('DeviceBuilder', 'add', db, s, en('TSDataType', ty), en('TSEncoding', e), en('CompressionType', co))
                    w[s] = (ty, e, co)
                c.call('TsFileSchemaBuilder', 'add', b, d, c.call('DeviceBuilder', 'build', db))
                want[d] = w
        panics(rep, c, 'schema/' + name, 'building schema ' + name, 'P21 P15')
        for i, (sc, want) in enumerate(schemas):
            ob = 'schema/%s/build %d' % (name, i)
            if sc is None:
                rep.add('P21', ob, 'violation', 'building the schema never returns', 'w')
                continue
            it = c.call('Schema', 'get_devices', c.new(sc))
            got = {}
            if it.op != 'iter':
                rep.add('P21', ob, 'undecided', 'devices: ' + sshow(it)[:200])
                continue
            bad = None
            for e in it.a:
                k, g = e.a[2:4] if e.op == 'adt' else e.a[-2:]
                if k in got:
                    bad = 'device %s appears twice' % sshow(k)
                ts = c.call('MeasurementGroup', 'get_timeseries', c.new(g))
                if ts.op != 'iter':
                    bad = bad or ('?', sshow(ts))
                    continue
                m = {}
                for t in ts.a:
                    s, ms = t.a[2:4] if t.op == 'adt' else t.a[-2:]
                    v = []
                    for fn, en_ in (('data_type', 'TSDataType'), ('encoding', 'TSEncoding'), ('compression', 'CompressionType')):
                        x = fld(ms, 'MeasurementSchema', 0, F.fieldno('MeasurementSchema', fn))
                        v.append(F.adt(en_)['v'][x.a[1]]['n'] if x.op == 'adt' else '?')
                    m[s] = tuple(v)
                got[k] = m
            if isinstance(bad, tuple) or any('?' in v for m in got.values() for v in m.values()):
                rep.add('P21', ob, 'undecided', str(bad or got)[:200])
            elif bad or got != want:
                f = lambda x: {sshow(d): {sshow(s): v for s, v in m.items()} for d, m in x.items()}
                rep.add('P21', ob, 'violation', 'the schema %s holds %s, declared was %s' % (name, bad or f(got), f(want)), 'w')
            else:
                rep.add('P21', ob, 'ok')
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def schema(env, rep):
    from contexts import D, S
    A, B_, C = ('INT32', 'PLAIN', 'UNCOMPRESSED'), ('INT64', 'TS2DIFF', 'SNAPPY'), ('FLOAT', 'PLAIN', 'SNAPPY')
    jobs = []
    combos = [(t, e, co) for t in ('INT32', 'INT64', 'FLOAT') for e in ('PLAIN', 'TS2DIFF') for co in ('UNCOMPRESSED', 'SNAPPY')]
    for k in combos:
        jobs.append(('simple %s %s %s' % k, (D[0], (S[0],) + k), True))
        jobs.append(('one %s %s %s' % k, [('dev', D[0], [(S[0],) + k]), 'build'], False))
    jobs += [
        ('nothing', ['build'], False),
        ('several', [('dev', D[0], [(S[0],) + A, (S[1],) + B_, (S[2],) + C]), ('dev', D[1], [(S[0],) + C]), 'build'], False),
        ('reverse', [('dev', D[1], [(S[2],) + A, (S[1],) + B_, (S[0],) + C]), ('dev', D[0], [(S[1],) + C, (S[0],) + B_]), 'build'], False),
        ('measurement declared twice', [('dev', D[0], [(S[0],) + A, (S[1],) + A, (S[0],) + B_]), 'build'], False),
        ('device declared twice', [('dev', D[0], [(S[0],) + A, (S[1],) + B_]), ('dev', D[1], [(S[0],) + A]), ('dev', D[0], [(S[0],) + C]), 'build'], False),
        ('built twice', [('dev', D[0], [(S[0],) + A]), 'build', ('dev', D[1], [(S[1],) + B_]), 'build', 'build'], False),
        ('device built twice', [('dev', D[0], [(S[0],) + A, 'build', (S[1],) + B_]), 'build'], False),
    ]
    # beyond any small threshold
    big = [('dev', D[i], [(S[j],) + combos[(i * 8 + j) % 12] for j in range(8)]) for i in range(8)]
    jobs.append(('8 devices of 8 series', big + ['build'], False))
    env.cov['schemas'] = env.pool(rep, [('schema/' + n, ['P21', 'P15'], schema_seq(env.F, n, o, s)) for n, o, s in jobs])


# ---------------------------------------------------------------- codes
CODES = {'TSDataType': {'BOOLEAN': 0, 'INT32': 1, 'INT64': 2, 'FLOAT': 3, 'DOUBLE': 4, 'TEXT': 5},
         'TSEncoding': {'PLAIN': 0, 'DICTIONARY': 1, 'RLE': 2, 'DIFF': 3, 'TS2DIFF': 4, 'TS_2DIFF': 4, 'BITMAP': 5, 'GORILLA_V1': 6, 'REGULAR': 7, 'GORILLA': 8},
         'CompressionType': {'UNCOMPRESSED': 0, 'SNAPPY': 1, 'GZIP': 2, 'LZO': 3, 'SDT': 4, 'PAA': 5, 'PLA': 6, 'LZ4': 7}}


def code_table(F, en):
    def go(rep):
        vs = [v['n'] for v in F.adt(en)['v']]
        code = {}
        for v in vs:
            c = Client(F)
            r = c.call(en, 'serialize', c.new(c.case(en, v)))
            ob = 'codes/%s::%s' % (en, v)
            if r is None or r.op != 'k':
                rep.add('P10', ob, 'undecided', 'code ' + (sshow(r) if r is not None else 'none'))
                continue
            code[v] = r.a[0]
            if v in CODES[en] and CODES[en][v] != r.a[0]:
                rep.add('P10', ob, 'violation', '%s::%s is written as %d, the format has %d' % (en, v, r.a[0], CODES[en][v]), 'w')
            else:
                rep.add('P10', ob, 'ok')
        try:
            F.find(en, 'try_from')
        except Missing:
            return {}
        for k in range(256):
            c = Client(F)
            r = c.call(en, 'try_from', K(k))
            want = [v for v in vs if code.get(v) == k]
            ob = 'codes/%s from %d' % (en, k)
            if r is None or r.op != 'adt':
                rep.add('P10 P16', ob, 'undecided', sshow(r)[:100] if r is not None else 'none')
                continue
            got = None if r.a[1] == 1 else (vs[r.a[2].a[1]] if r.a[2].op == 'adt' else '?')
            if (got is None) != (not want) or want and got not in want:
                rep.add('P10 P16', ob, 'violation', '%s from code %d gives %s, writing it back gives %s' % (en, k, got, want or 'no such code'), 'w')
            else:
                rep.add('P10 P16', ob, 'ok')
        return {}
    return lambda: items(go)


def codes(env, rep):
    env.cov['code tables'] = env.pool(rep, [(e, ['P10', 'P16'], code_table(env.F, e)) for e in CODES if e in env.F.adts])
