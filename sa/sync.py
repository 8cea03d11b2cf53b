"""The sync module: the schema log, the order of a synchronisation, the messages.

The network is outside the program: RPC methods and the Thrift protocol objects
are replaced by stand-ins that record what is sent and answer arbitrarily.
"""
from modular import *
from reader import R, Bad, sshow
import itertools
import reader
from facts import Missing

TY = {'INT32': 1, 'INT64': 2, 'FLOAT': 3}
EN = {'PLAIN': 0, 'TS2DIFF': 4}
CO = {'UNCOMPRESSED': 0, 'SNAPPY': 1}


def build_schema(c, decl):
    """decl: [(device, [(series, type, encoding, compression)])]"""
    b = c.new(c.call('TsFileSchemaBuilder', 'new'))
    for d, ss in decl:
        db = c.new(c.call('DeviceBuilder', 'new'))
        for s, t, e, co in ss:
            c.call('DeviceBuilder', 'add', db, s, c.case('TSDataType', t), c.case('TSEncoding', e), c.case('CompressionType', co))
        c.call('TsFileSchemaBuilder', 'add', b, d, c.call('DeviceBuilder', 'build', db))
    return c.call('TsFileSchemaBuilder', 'build', b)


# ---------------------------------------------------------------- the schema log
def string4(r, what):
    n = r.ibe(4, what + ' length')
    return r.bytes(n, what)


def same_text(a, b):
    if a is b:
        return True
    x, y = reader.constbytes(a), reader.constbytes(b)
    return x is not None and x == y


def zero(r, what, n=1):
    for _ in range(n):
        b = r.byte(what)
        if b is not K(0):
            raise Bad(r.sect, '%s is %s, must be 0' % (what, sshow(b)), b.opq)


def parse_log(v):
    """the plans of a log, checking lengths and checksums"""
    r = R(v, sect='schema log')
    out = []
    while not r.atend():
        n = r.ibe(4, 'entry length')
        p0 = r.pos
        payload = r.bytes(n, 'an entry')
        crc = r.be(8, 'checksum')
        want = app('crc32', payload)
        if crc is not want and restrict(crc, TRUE) is not want:
            z = crc
            while z.op in ('wrap', 'cast') and isinstance(z.a[-1], T):
                z = z.a[-1]
            raise Bad('schema log', 'checksum %s is not the CRC32 of the entry as an unsigned number' % sshow(crc), crc.opq)
        q = R(payload, base=p0, sect='schema log')
        plans = []
        while not q.atend():
            k = q.byte('plan type')
            if k is K(3):
                path = string4(q, 'storage group path')
                plans.append(('sg', path))
                i = q.ibe(8, 'index')
                if i is not K(0):
                    raise Bad('schema log', 'index %s' % sshow(i), i.opq)
            elif k is K(4):
                path = string4(q, 'series path')
                codes = [q.byte('code') for _ in range(3)]
                t = q.ibe(8, 'tag offset')
                if t is not K(-1):
                    raise Bad('schema log', 'tag offset %s, must be -1' % sshow(t), t.opq)
                zero(q, 'flag of an absent alias, properties, tags or attributes', 4)
                i = q.ibe(8, 'index')
                if i is not K(0):
                    raise Bad('schema log', 'index %s' % sshow(i), i.opq)
                plans.append(('ts', path) + tuple(codes))
            else:
                raise Bad('schema log', 'unknown plan type %s' % sshow(k), k.opq)
        out.append(plans)
    return out


def mlog_ctx(F, nm, decl, order=False):
    def go(rep):
        import scen
        scen.HASHORDER[0] = order
        try:
            c = Client(F)
            c.I.maxvisits = 200000
            sg = name_sym('sg', 1000)
            f = F.find('SyncSender', 'write_mlog')
            sc = build_schema(c, decl)
            r = c.callf(f, *([sg, sc] if f['body']['argc'] == 2 else [UNIT, sg, sc]))
        finally:
            scen.HASHORDER[0] = False
        ob = 'log/' + nm
        panics(rep, c, ob, 'writing the log of schema ' + nm, 'P18')
        v = okval(c.I, r)
        if v is None:
            rep.add('P18', ob, 'undecided' if r is None or r.op != 'adt' else 'violation', 'writing the log gives %s' % (sshow(r) if r is not None else 'nothing'), 'w')
            return
        try:
            entries = parse_log(v)
        except Bad as b:
            rep.add('P18', ob + '/format', 'undecided' if b.opaque else 'violation', 'the log of schema %s: %s' % (nm, b), 'w')
            return
        rep.add('P18', ob + '/format', 'ok')
        plans = [p for e in entries for p in e]
        if not plans or plans[0][0] != 'sg' or not same_text(plans[0][1], sg):
            rep.add('P18', ob + '/storage group', 'violation', 'the log does not begin with the plan that creates storage group sg but with %s' % (
                plans and (plans[0][0], sshow(plans[0][1])) or 'nothing',), 'w')
        else:
            rep.add('P18', ob + '/storage group', 'ok')
        left = [p for p in plans[1:]]
        for d, ss in decl:
            for s, t, e, co in ss:
                path = seqval(segs_of(sg) + [e_(K(46))] + segs_of(d) + [e_(K(46))] + segs_of(s))
                hit = [p for p in left if p[0] == 'ts' and same_text(p[1], path)]
                o = '%s/%s.%s' % (ob, sshow(d), sshow(s))
                if len(hit) != 1:
                    opq_ = any(p[0] == 'ts' and p[1].opq for p in left)
                    rep.add('P18', o, 'undecided' if opq_ else 'violation', 'schema %s: series %s.%s has %d plans in the log (plans: %s)' % (
                        nm, sshow(d), sshow(s), len(hit), ', '.join(sshow(p[1]) for p in left)), 'w')
                    continue
                left.remove(hit[0])
                rep.add('P18', o, 'ok')
                for w, got, want in zip(('data type', 'encoding', 'compressor'), hit[0][2:], (TY[t], EN[e], CO[co])):
                    same(as_bits(got, 8), as_bits(K(want), 8), c.st.pc, rep, 'P18', '%s/%s' % (o, w), '%s code of series %s.%s in the log' % (w, sshow(d), sshow(s)))
        if left:
            rep.add('P18', ob + '/extra', 'violation', 'schema %s: the log has plans for nothing in the schema: %s' % (nm, ', '.join(sshow(p[1]) for p in left)), 'w')
        else:
            rep.add('P18', ob + '/extra', 'ok')
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def mlog(env, rep):
    from contexts import D, S
    if not env.F.has('SyncSender', 'write_mlog'):
        rep.add('P18', 'write_mlog', 'undecided', 'anchor not found')
        return
    combos = [(t, e, co) for t in TY for e in EN for co in CO]
    jobs = []
    for k in combos:
        jobs.append(('one %s %s %s' % k, [(D[0], [(S[0],) + k])], False))
    a, b, c_ = combos[0], combos[5], combos[10]
    jobs += [('empty', [], False),
             ('several', [(D[0], [(S[0],) + a, (S[1],) + b, (S[2],) + c_]), (D[1], [(S[0],) + c_])], False),
             ('same series in three devices', [(D[i], [(S[0],) + combos[i]]) for i in range(3)], False),
             ('several, other order', [(D[1], [(S[2],) + a, (S[0],) + b]), (D[0], [(S[1],) + c_])], 'desc'),
             ('6 devices of 6 series', [(D[i], [(S[j],) + combos[(i * 6 + j) % 12] for j in range(6)]) for i in range(6)], False)]
    dn, sn = [STR(b'root.sg.device%03d' % i) for i in range(200)], [STR(b'sensor%03d' % i) for i in range(300)]
    jobs += [('1 device of 300 series', [(dn[0], [(s,) + combos[i % 12] for i, s in enumerate(sn)])], False),
             ('200 devices of 1 series', [(d, [(sn[0],) + combos[i % 12]]) for i, d in enumerate(dn)], False),
             ('20 devices of 15 series', [(d, [(s,) + combos[(i + j) % 12] for j, s in enumerate(sn[:15])]) for i, d in enumerate(dn[:20])], False)]
    env.cov['schemas logged'] = env.pool(rep, [('log/' + n, ['P18'], mlog_ctx(env.F, n, d, o)) for n, d, o in jobs])


# ---------------------------------------------------------------- the order of a synchronisation
RPC = ('check', 'start_sync', 'init', 'init_sync_data', 'sync_data', 'check_data_digest', 'end_sync', 'sync_deleted_file_name')


def reply(k):
    return isv(sym('rpc%d' % k), 1, 2), lt(sym('code%d' % k), K(0))


def rpc_model(name):
    def m(I, st, a, c):
        r = models.deref1(I, st, a[0])
        v = I.load(st, r)
        args = [I.loadd(st, x) for x in a[1:]]

        def f(v, s):
            if v.op != 'adt' or v.a[0] != 'Peer':
                raise models.Und('call on ' + v.op)
            return models.perleaf(I, s, v.a[3], lambda k, s2: g(v, k.a[0], s2))

        def g(v, k, s):
            I.store(s, r, adt('Peer', 0, append(v.a[2], [e_(terms._mk('rpc', STR(name), *args))]), K(k + 1)))
            failed, _ = reply(k)
            code = sym('code%d' % k)
            TYPEOF[code] = ('int', 'i32')
            fixed = getattr(I, 'replies', None)
            if fixed is not None:
                x = fixed.get(k, fixed['else'])
                failed = B(x == 'error')
                code = K(x if x != 'error' else 0)
            st_ = I.F.adt('SyncStatus')
            fs = {'code': code, 'msg': sym('msg%d' % k)}
            return ite(failed, err(sym('thrifterror%d' % k)), ok(adt('SyncStatus', 0, *[fs.get(x[0], sym('other%d' % k)) for x in st_['v'][0]['f']]))), s
        return models.perleaf(I, st, v, f)
    return m


def sender(c):
    """a SyncSender whose peer answers arbitrarily"""
    F = c.F
    I = c.I
    for n in RPC:
        for s in ('?C', 'SyncServiceSyncClient'):
            if F.has(s, n):
                I.summaries[F.find(s, n)['key']] = rpc_model(n)
    fs = []
    for x in F.adt('SyncSender')['v'][0]['f']:
        if x[0] == 'client':
            fs.append(adt('Peer', 0, EMPTY, K(0)))
        elif x[0] in ('local_addr', 'uuid', 'version'):
            fs.append(name_sym('own_' + x[0], 2000 + len(fs)))
        else:
            raise Missing('unknown field %s of SyncSender' % x[0])
    return c.new(adt('SyncSender', 0, *fs))


def find_peer(v):
    out = []

    def w(v):
        if v.op == 'adt' and v.a[0] == 'Peer':
            out.append(v)
        elif isinstance(v, T):
            for x in v.a:
                if isinstance(x, T):
                    w(x)
    w(v)
    return out


def digest_of(b):
    return app('str_trim_start_matches', app('hex', app('sha256', b)), K(48))


def same_digest(x, b):
    for z in (K(48), STR('0')):
        if x is app('str_trim_start_matches', app('hex', app('sha256', b)), z):
            return True
    return False


def ends_with(name, suffix):
    a, b = segs_of(name), segs_of(suffix)
    return len(a) >= len(b) and a[len(a) - len(b):] == b


def confirmed_all(log, sg, fname, content):
    """None if this sequence of confirmed calls transfers schema and file, else what is missing"""
    i = 0

    def at(n):
        return i < len(log) and log[i].a[0] is STR(n)

    def show1():
        return '%s(%s)' % (log[i].a[0].a[0].decode() if isinstance(log[i].a[0].a[0], bytes) else log[i].a[0].a[0], ', '.join(sshow(x) for x in log[i].a[1:])) if i < len(log) else 'nothing'
    if at('check'):
        i += 1
    for n, arg in (('start_sync', None), ('init', sg)):
        if not at(n):
            return 'expected %s, confirmed was %s' % (n, show1())
        if arg is not None and not same_text(log[i].a[1], arg):
            return 'init names storage group %s' % sshow(log[i].a[1])
        i += 1
    files = []
    while at('init_sync_data') or at('sync_deleted_file_name'):
        if at('sync_deleted_file_name'):
            return 'a deletion was sent: ' + show1()
        nm = log[i].a[1]
        i += 1
        data = EMPTY
        n = 0
        while at('sync_data'):
            data = append(data, segs_of(log[i].a[1]))
            n += 1
            i += 1
        if not n:
            return 'no data was sent for %s, but %s' % (sshow(nm), show1())
        if not at('check_data_digest'):
            return 'no digest was checked for %s, but %s' % (sshow(nm), show1())
        if not same_digest(log[i].a[1], data):
            return 'the digest checked for %s is not the digest of the data sent: %s' % (sshow(nm), sshow(log[i].a[1]))
        i += 1
        files.append((nm, data))
    if not at('end_sync'):
        return 'expected end_sync, confirmed was ' + show1()
    i += 1
    if i != len(log):
        return 'more was sent after end_sync: ' + show1()
    if len(files) != 2 or reader.constbytes(files[0][0]) != b'mlog.bin':
        return 'the files sent are %s, must be mlog.bin and the file' % ', '.join(sshow(f[0]) for f in files)
    if not ends_with(files[1][0], fname):
        return 'the file is sent under the name %s' % sshow(files[1][0])
    if files[1][1] is not content:
        return 'the data sent is not the content of the file but %s' % sshow(files[1][1])
    try:
        plans = [p for e in parse_log(files[0][1]) for p in e]
    except Bad as b:
        return 'mlog.bin is not the schema log: %s' % b
    if len(plans) != 3 or plans[0][0] != 'sg' or not same_text(plans[0][1], sg):
        return 'mlog.bin is not the log of the schema'
    return None


def sync_run(F):
    def go(rep):
        n = sync_once(F, rep, None)
        # boundary codes, one run each
        for nm, fixed in [('every reply %d' % x, {'else': x}) for x in (0, 1, 200, 2 ** 31 - 1)] + \
                [('reply %d is %s' % (k, x), {k: x, 'else': 0}) for k in range(9) for x in ('error', -1, -2, -200, -2 ** 31)]:
            sync_once(F, rep, (nm, fixed))
        return n
    return lambda: items(go)


def sync_once(F, rep, fixed):
    from contexts import D, S
    c = Client(F)
    me = sender(c)
    c.I.replies = fixed and fixed[1]
    content = app('filecontent', name_sym('fname', 3000))
    lost = isv(sym('fileread'), 1, 2)

    def fread(I, st, a, cc):
        nm = I.loadd(st, a[0])
        return ite(lost, err(sym('readerror')), ok(app('filecontent', nm))), st
    c.I.models = dict(c.I.models, **{'fs::read': fread})
    sg = name_sym('sg', 1000)
    fname = name_sym('fname', 3000)
    sc = build_schema(c, [(D[0], [(S[0], 'INT32', 'PLAIN', 'SNAPPY'), (S[1], 'INT64', 'TS2DIFF', 'UNCOMPRESSED')])])
    r = c.call('SyncSender', 'sync', me, fname, sg, sc)
    panics(rep, c, 'sync', 'sync', 'P17')
    if r is None:
        rep.add('P17', 'sync', 'violation', 'sync never returns', 'w')
        return
    me_ = c.get(me)
    maxk = max([0] + [x.a[0] for p in find_peer(me_) for x in leaves(p.a[3]) if x.op == 'k'])
    cases = [('every reply positive', None, None)] + [('reply %d %s' % (k, w), k, w) for k in range(maxk) for w in ('an error', 'a negative code')] + \
        [('the file cannot be read', None, 'file')]
    n = 0
    if fixed:
        bad = [k for k in fixed[1] if k != 'else']
        if bad and bad[0] >= maxk:
            return
        cases = [(fixed[0], bad[0], 'a bad reply') if bad else (fixed[0], None, None)]
    for nm, bad, how in cases:
        pc = c.st.pc
        for k in range(maxk if not fixed else 0):
            f, neg = reply(k)
            pc = and_(pc, f if bad == k and how == 'an error' else not_(f))
            pc = and_(pc, neg if bad == k and how == 'a negative code' else not_(neg))
        pc = and_(pc, lost if how == 'file' else not_(lost))
        if pc is FALSE:
            continue
        n += 1
        rr = restrict(r, pc)
        ob = 'sync/' + nm
        ps = find_peer(restrict_deep_(me_, pc))
        if rr.op != 'adt' or len(ps) != 1:
            rep.add('P17', ob, 'undecided', 'result %s' % sshow(rr))
            continue
        log = [s.a[0] for s in rs(segs_of(ps[0].a[2]), pc)]
        if any(l.op != 'rpc' for l in log):
            rep.add('P17', ob, 'undecided', 'calls made: %s' % sshow(ps[0].a[2]))
            continue
        conf = [l for k, l in enumerate(log) if not (bad == k and how != 'file')]
        why = confirmed_all(conf, sg, fname, content)
        okk = rr.a[1] == 0
        opq_ = any(l.opq for l in log)
        if okk and (how == 'file' or why):
            rep.add('P17', ob, 'undecided' if opq_ else 'violation', 'sync reports success with %s: %s' % (nm, why or 'nothing was read'), 'w')
        elif not okk and how is None:
            rep.add('P17', ob, 'undecided' if opq_ else 'violation', 'sync reports an error although every reply was positive', 'w')
        elif bad is not None and bad < len(log) and okk is False and any(l.a[0] is STR('end_sync') for l in log[bad + 1:]):
            rep.add('P17', ob, 'violation', 'after %s the transfer is still ended as if it were complete' % nm, 'w')
        else:
            rep.add('P17', ob, 'ok')
    return {'calls analysed': c.I.callsites, 'reply patterns': n}


def restrict_deep_(v, pc):
    from interp import restrict_deep
    return restrict_deep(v, pc)


def handshake(F):
    def go(rep):
        c = Client(F)
        me = sender(c)
        r = c.call('SyncSender', '_connect', me)
        panics(rep, c, 'handshake', 'the handshake', 'P17')
        if r is None:
            rep.add('P17', 'handshake', 'violation', 'the handshake never returns', 'w')
            return
        f, neg = reply(0)
        for nm, pc, good in (('an error', f, False), ('a negative code', and_(not_(f), neg), False), ('a positive reply', and_(not_(f), not_(neg)), True)):
            rr = restrict(r, and_(c.st.pc, pc))
            ps = find_peer(restrict_deep_(c.get(me), and_(c.st.pc, pc)))
            ob = 'handshake/' + nm
            if rr.op != 'adt' or len(ps) != 1:
                # depends on more than the code
                same(isv(rr, 0, 2), B(good), and_(c.st.pc, pc), rep, 'P17', ob, 'that the handshake succeeds after %s' % nm)
                continue
            log = [s.a[0] for s in rs(segs_of(ps[0].a[2]), and_(c.st.pc, pc))]
            if not log or any(l.op != 'rpc' for l in log):
                rep.add('P17', ob, 'violation' if rr.a[1] == 0 and not log else 'undecided', 'connected without asking the receiver', 'w')
            elif (rr.a[1] == 0) != good and len(log) == 1:
                rep.add('P17', ob, 'violation', 'the handshake gives %s after %s' % ('success' if rr.a[1] == 0 else 'an error', nm), 'w')
            else:
                rep.add('P17', ob, 'ok')
            if good and len(log) == 1 and log[0].a[0] is STR('check'):
                info = log[0].a[1]
                for x in ('local_addr', 'uuid', 'version'):
                    y = {'local_addr': 'address'}.get(x, x)
                    try:
                        i = [z[0] for z in F.adt('ConfirmInfo')['v'][0]['f']].index(y)
                        got = info.a[2 + i]
                    except (ValueError, IndexError):
                        rep.add('P17', 'handshake/%s' % x, 'undecided', 'ConfirmInfo has changed')
                        continue
                    want = some(c.get(me).a[2 + [z[0] for z in F.adt('SyncSender')['v'][0]['f']].index(x)])
                    same(got, want, TRUE, rep, 'P17', 'handshake/' + x, 'field %s sent in the handshake' % y)
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def connecting(F):
    """a sender is only handed out after a handshake the receiver has agreed to"""
    def go(rep):
        c = Client(F)
        I = c.I
        sender(c)
        n = F.find('SyncServiceSyncClient', 'new')
        I.summaries[n['key']] = lambda I, st, a, cc: (adt('Peer', 0, EMPTY, K(0)), st)
        lost = isv(sym('not connected'), 1, 2)
        op = lambda I, st, a, cc: (UNIT, st)
        remote = name_sym('remote', 4000)
        peers = []

        def dial(I, st, a, cc):
            peers.append((I.loadd(st, a[1]) if len(a) > 1 else opq('address'), st.pc))
            return ite(lost, err(sym('no connection')), ok(UNIT)), st
        I.models = dict(I.models)
        I.models.update({'TTcpChannel::new': op, 'TTcpChannel::open': dial,
                         'TTcpChannel::split': lambda I, st, a, cc: (ok(adt('()', 0, UNIT, UNIT)), st),
                         'TIoChannel::split': lambda I, st, a, cc: (ok(adt('()', 0, UNIT, UNIT)), st)})
        for k in ('TBinaryInputProtocol', 'TBinaryOutputProtocol', 'TFramedReadTransport', 'TFramedWriteTransport', 'TBufferedReadTransport', 'TBufferedWriteTransport',
                  'TCompactInputProtocol', 'TCompactOutputProtocol'):
            I.models[k + '::new'] = op
        r = c.call('SyncSender', 'new', remote, some(name_sym('local', 4001)), some(name_sym('uuid', 4002)))
        if r is None:
            panics(rep, c, 'connecting', 'connecting', 'P17')
            return
        f, neg = reply(0)
        for nm, pc, good in (('there is no connection', lost, False), ('the handshake fails', and_(not_(lost), f), False),
                             ('the receiver answers with a negative code', and_(not_(lost), and_(not_(f), neg)), False),
                             ('the receiver agrees', and_(not_(lost), and_(not_(f), not_(neg))), True)):
            same(isv(restrict(r, and_(c.st.pc, pc)), 0, 2), B(good), and_(c.st.pc, pc), rep, 'P17', 'connecting/' + nm, 'that a sender is handed out when %s' % nm)
        if len(peers) != 1:
            rep.add('P17', 'connecting/address', 'undecided', 'connections are made at %d places' % len(peers))
        else:
            texts(rep, 'connecting/address', 'the address connected to', peers[0][0], remote, and_(peers[0][1], c.st.pc), 'P17')
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def identity(F, local, given):
    """what a new sender says of itself: what the caller gave, else its own address and the identifier it keeps in a file"""
    from models import display

    def go(rep):
        c = Client(F)
        I = c.I
        sender(c)
        n = F.find('SyncServiceSyncClient', 'new')
        I.summaries[n['key']] = lambda I, st, a, cc: (adt('Peer', 0, EMPTY, K(0)), st)
        files = c.new(EMPTY)          # what is written to files
        unread = isv(sym('identifier file unreadable'), 1, 2)
        unsaved = isv(sym('identifier file not writable'), 1, 2)
        op = lambda I, st, a, cc: (UNIT, st)
        op_ok = lambda I, st, a, cc: (ok(UNIT), st)
        kept = name_sym('kept identifier', 6000)
        fresh = name_sym('fresh identifier', 6001)
        addr = name_sym('address of the machine', 6002)
        names = []

        def rts(I, st, a, cc):
            names.append(I.loadd(st, a[0]))
            return ite(unread, err(sym('readerror')), ok(kept)), st

        def fw(I, st, a, cc):
            f, v = I.loadd(st, a[0]), I.loadd(st, a[1])
            I.store(st, files, lambda o: append(o, [e_(adt('filewrite', 0, f, v))]))
            return ite(unsaved, err(sym('writeerror')), ok(UNIT)), st

        def fcreate(I, st, a, cc):
            f = I.loadd(st, a[-1])
            if cc['n'] == 'open' and len(a) == 1:                 # File::open
                names.append(f)
                return ite(unread, err(sym('readerror')), ok(adt('InFile', 0, f))), st
            if cc['n'] == 'open' and not (I.loadd(st, a[0]).op == 'adt' and restrict(I.loadd(st, a[0]).a[2], st.pc) is TRUE):
                raise Undecided('how a file is opened')
            I.store(st, files, lambda o: append(o, [e_(adt('filewrite', 0, f, EMPTY))]))
            return ite(unsaved, err(sym('writeerror')), ok(adt('OutFile', 0, f))), st

        def options(I, st, a, cc):
            if cc['n'] in ('new', 'options'):
                return adt('OpenOptions', 0, FALSE), st           # is it cut?
            r = deref1(I, st, a[0])
            if cc['n'] in ('truncate', 'create_new'):
                I.store(st, r, adt('OpenOptions', 0, I.loadd(st, a[1])))
            return r, st

        def filled(name):
            base = I.models.get('Write::' + name)

            def m(I, st, a, cc):
                r = deref1(I, st, a[0])
                v = restrict(I.load(st, r), st.pc)
                if v.op == 'adt' and v.a[0] == 'OutFile':
                    if name in ('write_all', 'write'):
                        d = I.loadd(st, a[1])
                        I.store(st, files, lambda o: append(o, [e_(adt('fileadd', 0, v.a[2], d))]))
                        return ok(UNIT if name == 'write_all' else length(d)), st
                    return ok(UNIT), st
                return base(I, st, a, cc) if base else None
            return m

        def readall(I, st, a, cc):
            v = restrict(I.loadd(st, a[0]), st.pc)
            if v.op != 'adt' or v.a[0] != 'InFile':
                raise Undecided('what is read')
            I.store(st, deref1(I, st, a[1]), lambda o: append(o, segs_of(kept)))
            return ok(length(kept)), st

        def part(I, st, a, cc):
            return app(cc['n'], I.loadd(st, a[0])), st

        def ifaces(I, st, a, cc):
            ips = seqval([e_(addr)]) if local == 'one' else EMPTY
            fs = [sym('iface%d' % q) for q in range(4)] + [ips, sym('iface5')]
            return (EMPTY if local == 'none' else seqval([e_(adt('NetworkInterface', 0, *fs))])), st
        from models import deref1
        I.models = dict(I.models)
        for nm in ('write_all', 'write', 'flush'):
            I.models['Write::' + nm] = filled(nm)
        for nm in ('new', 'write', 'create', 'truncate', 'create_new', 'read', 'append'):
            I.models['OpenOptions::' + nm] = options
        for nm in ('simple', 'as_simple', 'hyphenated', 'as_hyphenated', 'urn', 'as_urn', 'braced', 'as_braced', 'to_simple', 'to_hyphenated', 'to_urn'):
            I.models['Uuid::' + nm] = part
        I.models.update({'File::create': fcreate, 'File::open': fcreate, 'OpenOptions::open': fcreate, 'File::options': options, 'File::sync_all': op_ok, 'File::sync_data': op_ok,
                         'Read::read_to_string': readall, 'Read::read_to_end': readall, 'fs::read': rts})
        I.models.update({'TTcpChannel::new': op, 'TTcpChannel::open': lambda I, st, a, cc: (ok(UNIT), st),
                         'TTcpChannel::split': lambda I, st, a, cc: (ok(adt('()', 0, UNIT, UNIT)), st),
                         'TIoChannel::split': lambda I, st, a, cc: (ok(adt('()', 0, UNIT, UNIT)), st),
                         'fs::read_to_string': rts, 'fs::write': fw, 'Uuid::new_v4': lambda I, st, a, cc: (fresh, st),
                         'datalink::interfaces': ifaces, 'IpNetwork::ip': lambda I, st, a, cc: (I.loadd(st, a[0]), st)})
        for k in ('TBinaryInputProtocol', 'TBinaryOutputProtocol', 'TFramedReadTransport', 'TFramedWriteTransport', 'TBufferedReadTransport', 'TBufferedWriteTransport',
                  'TCompactInputProtocol', 'TCompactOutputProtocol'):
            I.models[k + '::new'] = op
        mine = name_sym('given address', 6003)
        own = name_sym('given identifier', 6004)
        r = c.call('SyncSender', 'new', name_sym('remote', 4000), some(mine) if local == 'given' else adt('Option', 0), some(own) if given else adt('Option', 0))
        what = '%s, %s' % ({'given': 'address given', 'one': 'no address given', 'noip': 'no address given, an interface without address', 'none': 'no address given, no interface'}[local],
                           'identifier given' if given else 'no identifier given')
        if r is None:
            panics(rep, c, 'identity/' + what, 'connecting with ' + what, 'P26')
            return
        f, neg = reply(0)
        agreed = and_(not_(f), not_(neg))
        cases = [('', agreed)] if given else [
            (', one is kept', and_(agreed, not_(unread))),
            (', none is kept', and_(agreed, and_(unread, not_(unsaved)))),
            (', none is kept and none can be saved', and_(agreed, and_(unread, unsaved)))]
        for nm, pc in cases:
            pc = and_(c.st.pc, pc)
            if pc is FALSE:
                rep.add('P26', 'identity/%s%s' % (what, nm), 'undecided', 'not reached')
                continue
            ob = 'identity/%s%s' % (what, nm)
            rr = restrict(r, pc)
            wr = []
            for x in rs(segs_of(restrict(c.get(files), pc)), pc):
                x = x.a[0] if x.op == 'e' else x
                if x.op == 'adt' and x.a[0] == 'fileadd' and wr and wr[-1] is not None and wr[-1].a[2] is x.a[2]:
                    wr[-1] = adt('filewrite', 0, x.a[2], append(wr[-1].a[3], segs_of(x.a[3])))
                else:
                    wr.append(x if x.op == 'adt' and x.a[0] == 'filewrite' else None)
            if None in wr:
                rep.add('P26', 'identity/%s%s' % (what, nm), 'undecided', 'what is written to files')
                continue
            good = not nm.endswith('saved')
            if local == 'none':
                good = False
            if rr.op != 'adt':
                same(isv(rr, 0, 2), B(good), pc, rep, 'P26', ob, 'that a sender is made')
                continue
            if (rr.a[1] == 0) != good:
                rep.add('P26', ob, 'violation', '%s%s: %s' % (what, nm, 'a sender is handed out' if rr.a[1] == 0 else 'no sender is made'), 'w')
                continue
            rep.add('P26', ob, 'ok')
            if not good:
                continue
            ps = find_peer(restrict_deep_(rr, pc))
            log = [x.a[0] for x in rs(segs_of(ps[0].a[2]), pc)] if len(ps) == 1 else []
            log = [l for l in log if l.op == 'rpc' and l.a[0] is STR('check')]
            if len(log) != 1:
                rep.add('P26', ob + '/handshake', 'undecided', 'the handshake is not one call')
                continue
            info = restrict_deep_(log[0].a[1], pc)
            fn = [z[0] for z in F.adt('ConfirmInfo')['v'][0]['f']]
            if not {'address', 'uuid', 'partition_interval', 'version'} <= set(fn):
                rep.add('P26', ob + '/handshake', 'undecided', 'ConfirmInfo has changed')
                continue
            got = {k: info.a[2 + fn.index(k)] for k in fn}
            want = mine if local == 'given' else addr if local == 'one' else STR('127.0.0.1')
            if got['address'].op == 'adt' and got['address'].a[0] == 'Option' and got['address'].a[1] == 1:
                got['address'] = got['address'].a[2]
            texts(rep, ob + '/address', 'the address sent in the handshake (%s%s)' % (what, nm), got['address'], want, pc)
            u = got['uuid']
            if u.op != 'adt' or u.a[1] != 1:
                rep.add('P26', ob + '/identifier', 'undecided' if u.op != 'adt' else 'violation', '%s%s: the handshake carries no identifier' % (what, nm), 'w')
                continue
            u = u.a[2]
            if given or nm == ', one is kept':
                texts(rep, ob + '/identifier', 'the identifier sent in the handshake (%s%s)' % (what, nm), u, own if given else kept, pc)
                if wr and not given:
                    rep.add('P26', ob + '/file', 'violation' if not same_text(wr[-1].a[3], kept) else 'ok', '%s%s: the kept identifier is overwritten with %s' % (what, nm, sshow(wr[-1].a[3])), 'w')
                else:
                    rep.add('P26', ob + '/file', 'ok')
            else:
                if not occurs_(u, fresh) and anyopq(u):
                    rep.add('P26', ob + '/identifier', 'undecided', 'the identifier sent is %s' % sshow(u))
                elif not occurs_(u, fresh):
                    rep.add('P26', ob + '/identifier', 'violation', '%s%s: the identifier sent is not a fresh one but %s' % (what, nm, sshow(u)), 'w')
                else:
                    rep.add('P26', ob + '/identifier', 'ok')
                last = wr[-1] if wr else None
                if last is None:
                    rep.add('P26', ob + '/file', 'violation', '%s%s: the fresh identifier is not saved, the next sender will have another' % (what, nm), 'w')
                elif not any(same_text(last.a[2], z) for z in names):
                    rep.add('P26', ob + '/file', 'violation', '%s%s: the identifier is saved in %s but looked for in %s' % (what, nm, sshow(last.a[2]), ', '.join(sshow(z) for z in names) or 'no file'), 'w')
                else:
                    texts(rep, ob + '/file', 'the identifier saved (%s%s)' % (what, nm), last.a[3], u, pc)
            same(got['partition_interval'], some(K(604800)), pc, rep, 'P26', ob + '/interval', 'the partition interval sent in the handshake')
        return {'calls analysed': c.I.callsites}
    return lambda: items(go)


def anyopq(v):
    return v.op == 'opq' or any(isinstance(y, T) and anyopq(y) for y in v.a)


def occurs_(v, x):
    return v is x or any(isinstance(y, T) and occurs_(y, x) for y in v.a)


def texts(rep, ob, what, got, want, pc, prop='P26'):
    """two texts are the same"""
    g = restrict_deep_(got, pc)
    if same_text(g, want):
        rep.add(prop, ob, 'ok')
    elif g.op in ('sym', 'seq', 'str') and want.op in ('sym', 'seq', 'str'):
        rep.add(prop, ob, 'violation', '%s is %s, must be %s' % (what, sshow(g), sshow(want)), 'w')
    else:
        same(g, want, pc, rep, prop, ob, what)


def order(env, rep):
    if not env.F.has('SyncSender', 'sync'):
        rep.add('P17', 'sync', 'undecided', 'anchor not found')
        return
    env.cov['sequences'] = env.pool(rep, [('sync', ['P17'], sync_run(env.F)), ('handshake', ['P17'], handshake(env.F)),
                                             ('connecting', ['P17'], connecting(env.F))])


def who(env, rep):
    if not env.F.has('SyncSender', 'new'):
        rep.add('P26', 'identity', 'undecided', 'anchor not found')
        return
    env.cov['senders made'] = env.pool(rep, [('identity %s %s' % (l, g), ['P26'], identity(env.F, l, g))
                                              for l in ('given', 'one', 'noip', 'none') for g in (True, False)])


# ---------------------------------------------------------------- messages
TT = 'thrift::protocol::TType'
MT = 'thrift::protocol::TMessageType'
FI = 'thrift::protocol::TFieldIdentifier'
MI = 'thrift::protocol::TMessageIdentifier'
# the service definition: struct -> [(field, id, wire type, required, optional in Rust)]
STRUCTS = {
    'SyncStatus': [('code', 1, 'I32', True), ('msg', 2, 'String', True)],
    'ConfirmInfo': [('address', 1, 'String', False), ('uuid', 2, 'String', False), ('partition_interval', 3, 'I64', False), ('version', 4, 'String', False)],
    'SyncServiceCheckArgs': [('info', -1, 'ConfirmInfo', True)],
    'SyncServiceStartSyncArgs': [],
    'SyncServiceInitArgs': [('storage_group_name', 1, 'String', True)],
    'SyncServiceSyncDeletedFileNameArgs': [('file_name', 1, 'String', True)],
    'SyncServiceInitSyncDataArgs': [('filename', 1, 'String', True)],
    'SyncServiceSyncDataArgs': [('buff', 1, 'Bytes', True)],
    'SyncServiceCheckDataDigestArgs': [('md5', 1, 'String', True)],
    'SyncServiceEndSyncArgs': [],
}
METHODS = {'check': ('check', 'Check'), 'start_sync': ('startSync', 'StartSync'), 'init': ('init', 'Init'),
           'sync_deleted_file_name': ('syncDeletedFileName', 'SyncDeletedFileName'), 'init_sync_data': ('initSyncData', 'InitSyncData'),
           'sync_data': ('syncData', 'SyncData'), 'check_data_digest': ('checkDataDigest', 'CheckDataDigest'), 'end_sync': ('endSync', 'EndSync')}
for m, (w, R_) in METHODS.items():
    STRUCTS['SyncService%sResult' % R_] = [('result_value', 0, 'SyncStatus', False)]
WIRE = {'I32': 'I32', 'I64': 'I64', 'String': 'String', 'Bytes': 'String'}
KIND = {'I32': 'i32', 'I64': 'i64', 'String': 'string', 'Bytes': 'bytes'}


def tok(kind, *a):
    return terms._mk('tok', STR(kind), *a)


def kindof(t):
    k = t.a[0].a[0]
    return k.decode() if isinstance(k, bytes) else k


def proto(toks=()):
    return adt('Proto', 0, seqval([e_(t) for t in toks]))


def on_proto(I, st, r, f):
    r = models.deref1(I, st, r)
    v = I.load(st, r)

    def g(v, s):
        if v.op != 'adt' or v.a[0] != 'Proto':
            raise models.Und('protocol call on ' + v.op)
        if any(x.op != 'e' for x in segs_of(v.a[2])):
            raise models.Und('protocol in several states')
        return f(r, [x.a[0] for x in segs_of(v.a[2])], s)
    return models.perleaf(I, st, v, g)


def deepload(I, st, v):
    v = I.loadd(st, v)
    if v.op == 'adt':
        return adt(v.a[0], v.a[1], *[deepload(I, st, x) if isinstance(x, T) else x for x in v.a[2:]])
    return v


def w_model(kind):
    def m(I, st, a, c):
        args = [deepload(I, st, x) for x in a[1:]]

        def f(r, toks, s):
            I.store(s, r, proto(toks + [tok(kind, *args)]))
            return ok(UNIT), s
        return on_proto(I, st, a[0], f)
    return m


def misread(I, s, kind, t):
    I.misreads.append('reading %s where %s was sent' % (kind, 'nothing' if t is None else kindof(t) + ' ' + ' '.join(sshow(x) for x in t.a[1:])))
    return err(sym('protocolerror')), s


def r_model(kind):
    def m(I, st, a, c):
        def f(r, toks, s):
            if not toks:
                return misread(I, s, kind, None)
            t = toks[0]
            k = kindof(t)
            if kind == 'field_begin':
                if k == 'field_stop':
                    I.store(s, r, proto(toks[1:]))
                    return ok(adt(FI, 0, NONE, adt(TT, 0), NONE)), s
                if k != kind:
                    return misread(I, s, kind, t)
                I.store(s, r, proto(toks[1:]))
                fi = t.a[1]
                return ok(adt(FI, 0, NONE, fi.a[3], fi.a[4])), s
            if k != kind and not (kind == 'bytes' and k == 'string'):
                return misread(I, s, kind, t)
            I.store(s, r, proto(toks[1:]))
            if kind == 'struct_begin':
                return ok(NONE), s
            return ok(t.a[1] if len(t.a) > 1 else UNIT), s
        return on_proto(I, st, a[0], f)
    return m


def value_len(toks, i=0):
    """number of tokens of the value at i"""
    k = kindof(toks[i])
    if k != 'struct_begin':
        return 1
    d = 0
    for j in range(i, len(toks)):
        if kindof(toks[j]) == 'struct_begin':
            d += 1
        elif kindof(toks[j]) == 'struct_end':
            d -= 1
            if d == 0:
                return j - i + 1
    return len(toks) - i


def m_skip(I, st, a, c):
    ty = I.loadd(st, a[1])

    def f(r, toks, s):
        k = kindof(toks[0]) if toks else None
        want = {'i32': 6, 'i64': 7, 'string': 8, 'bytes': 8, 'struct_begin': 10}.get(k)
        if want is None or ty.op != 'adt' or ty.a[1] != want:
            return misread(I, s, 'to skip', toks[0] if toks else None)
        I.store(s, r, proto(toks[value_len(toks):]))
        return ok(UNIT), s
    return on_proto(I, st, a[0], f)


def protocol_models(I):
    I.misreads = []
    m = {}
    for k in ('struct_begin', 'struct_end', 'field_begin', 'field_end', 'field_stop', 'i32', 'i64', 'string', 'bytes', 'message_begin', 'message_end'):
        m['TOutputProtocol::write_' + k] = w_model(k)
        m['TInputProtocol::read_' + k] = r_model(k)
    m['TOutputProtocol::flush'] = w_model('flush')
    m['TInputProtocol::skip'] = m_skip

    def m_fi(I, st, a, c):
        nm = deepload(I, st, a[0])
        return adt(FI, 0, some(nm), I.loadd(st, a[1]), some(I.loadd(st, a[2]))), st
    m['TFieldIdentifier::new'] = m_fi
    m['TStructIdentifier::new'] = lambda I, st, a, c: (adt('thrift::protocol::TStructIdentifier', 0, deepload(I, st, a[0])), st)
    m['TMessageIdentifier::new'] = lambda I, st, a, c: (adt(MI, 0, deepload(I, st, a[0]), deepload(I, st, a[1]), deepload(I, st, a[2])), st)

    def m_fid(I, st, a, c):
        v = deepload(I, st, a[0])
        return models.perleaf(I, st, v.a[4], lambda o, s: (ok(o.a[2]) if o.a[1] == 1 else err(sym('noid')), s))
    m['protocol::field_id'] = m_fid

    def m_req(I, st, a, c):
        v = I.loadd(st, a[1])
        return ite(isv(v, 0, 2), err(sym('missingfield')), ok(UNIT)), st
    m['protocol::verify_required_field_exists'] = m_req

    def m_same(I, st, a, c):
        x, y = deepload(I, st, a[0]), deepload(I, st, a[1])
        if c['n'] == 'verify_expected_service_call':
            return ite(B(same_text(x, y)) if x.op == 'str' and y.op == 'str' or x is y else lit(terms._mk('atom', STR('namediffers'), x, y)), ok(UNIT), err(sym('wrongname'))), st
        if c['n'] == 'verify_expected_message_type':
            return ite(B(x is y), ok(UNIT), err(sym('wrongtype'))), st
        return ite(eq(x, y), ok(UNIT), err(sym('wrongsequence'))), st
    for n in ('verify_expected_message_type', 'verify_expected_sequence_number', 'verify_expected_service_call'):
        m['protocol::' + n] = m_same
    m['Error::read_application_error_from_in_protocol'] = lambda I, st, a, c: on_proto(
        I, st, a[0], lambda r, toks, s: (I.store(s, r, proto(toks[1:])), (ok(toks[0].a[1]), s))[1] if toks and kindof(toks[0]) == 'apperror' else misread(I, s, 'an error', toks[0] if toks else None))

    def m_wae(I, st, a, c):
        e = deepload(I, st, a[0])
        return on_proto(I, st, a[1], lambda r, toks, s: (I.store(s, r, proto(toks + [tok('apperror', e)])), (ok(UNIT), s))[1])
    m['Error::write_application_error_to_out_protocol'] = m_wae

    def m_hpr(I, st, a, c):
        def f(v, s):
            if v.a[1] == 0:
                return ok(UNIT), s
            e = v.a[2]
            mi = deepload(I, s, a[0])
            return on_proto(I, s, a[2], lambda r, toks, s: (I.store(s, r, proto(toks + [
                tok('message_begin', adt(MI, 0, mi.a[2], adt(MT, 2), mi.a[4])), tok('apperror', e), tok('message_end'), tok('flush')])), (ok(UNIT), s))[1])
        return models.perleaf(I, st, I.loadd(st, a[1]), f)
    m['server::handle_process_result'] = m_hpr
    m['ApplicationError::new'] = lambda I, st, a, c: (adt('thrift::errors::ApplicationError', 0, I.loadd(st, a[0]), deepload(I, st, a[1])), st)
    I.models = dict(I.models, **m)


def sample(F, T_, tag, absent=()):
    """a value of struct T_ with symbolic fields, and the tokens that stand for it"""
    fs = [x[0] for x in F.adt(T_)['v'][0]['f']]
    spec = STRUCTS[T_]
    if sorted(fs) != sorted(x[0] for x in spec):
        raise Missing('fields of %s: %s' % (T_, fs))
    vals = {}
    toks = [tok('struct_begin', STR(T_))]
    for nm, i, ty, req in spec:
        if ty in STRUCTS:
            v, tt = sample(F, ty, tag + nm)
            wt = 'Struct'
        else:
            v = sym(tag + nm)
            if ty in ('I32', 'I64'):
                TYPEOF[v] = ('int', ty.lower())
            wt = WIRE[ty]
            tt = [tok(KIND[ty], v)]
        if nm in absent:
            vals[nm] = NONE
            continue
        vals[nm] = v if req else some(v)
        no = [x['n'] for x in F.adt(TT)['v']].index(wt)
        toks += [tok('field_begin', adt(FI, 0, some(STR(nm)), adt(TT, no), some(K(i))))] + tt + [tok('field_end')]
    toks += [tok('field_stop'), tok('struct_end')]
    return adt(T_, 0, *[vals[x] for x in fs]), toks


def wire(toks):
    """what of the tokens is on the wire: no names, no ends"""
    out = []
    for t in toks:
        k = kindof(t)
        if k in ('struct_begin', 'struct_end', 'field_end', 'message_end'):
            continue
        if k == 'field_begin':
            fi = t.a[1]
            out.append(('field', fi.a[3], fi.a[4]))
        elif k == 'message_begin':
            mi = t.a[1]
            out.append(('message',) + mi.a[2:])
        elif k == 'bytes':
            out.append(('string',) + t.a[1:])
        else:
            out.append((k,) + t.a[1:])
    return out


def wshow(w):
    return '; '.join(x[0] + ' ' + ' '.join(sshow(y) if isinstance(y, T) else str(y) for y in x[1:]) for x in w)


def same_wire(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y) or x[0] != y[0]:
            return False
        for p, q in zip(x[1:], y[1:]):
            if p is not q and not same_text(p, q):
                return False
    return True


def balanced(toks):
    """struct and field markers nest"""
    stack = []
    for t in toks:
        k = kindof(t)
        if k.endswith('_begin'):
            stack.append(k[:-6])
        elif k.endswith('_end'):
            if not stack or stack.pop() != k[:-4]:
                return False
    return not stack


def protoclient(F):
    c = Client(F)
    protocol_models(c.I)
    return c


def result_tokens(c, h):
    v = c.get(h)
    if v.op != 'adt' or v.a[0] != 'Proto' or any(x.op != 'e' for x in segs_of(v.a[2])):
        return None
    return [x.a[0] for x in segs_of(v.a[2])]


def variants_of(F, T_):
    opt = [x[0] for x in STRUCTS[T_] if not x[3]]
    return [[]] + ([[o] for o in opt] + [opt] if len(opt) > 1 else [[o] for o in opt])


def struct_io(F, T_):
    def go(rep):
        n = 0
        for absent in variants_of(F, T_):
            v, toks = sample(F, T_, 'm_', absent)
            tag = T_ + ('/without ' + ','.join(absent) if absent else '')
            # writing
            c = protoclient(F)
            o = c.new(proto())
            r = c.call(T_, 'write_to_out_protocol', c.new(v), o)
            panics(rep, c, 'write ' + tag, 'writing ' + tag, 'P19')
            n += c.I.callsites
            got = result_tokens(c, o) if r is not None else None
            if r is None or got is None or r.op != 'adt':
                rep.add('P19', 'write ' + tag, 'undecided', 'result %s' % (sshow(r) if r is not None else None))
            elif r.a[1] != 0 or not same_wire(wire(got), wire(toks)) or not balanced(got):
                rep.add('P19', 'write ' + tag, 'violation' if not any(t.opq for t in got) else 'undecided',
                        '%s is written as (%s), the service definition demands (%s)' % (tag, wshow(wire(got)), wshow(wire(toks))), 'w')
            else:
                rep.add('P19', 'write ' + tag, 'ok')
            # reading back, in any order of the fields, with unknown fields between
            unk = [[tok('field_begin', adt(FI, 0, NONE, adt(TT, no), some(K(77)))), t, tok('field_end')]
                   for no, t in ((8, tok('string', sym('unknown'))), (6, tok('i32', sym('unknown32'))))] + \
                  [[tok('field_begin', adt(FI, 0, NONE, adt(TT, 10), some(K(78)))), tok('struct_begin', STR('x')),
                    tok('field_begin', adt(FI, 0, NONE, adt(TT, 7), some(K(1)))), tok('i64', sym('u64')), tok('field_end'), tok('field_stop'),
                    tok('struct_end'), tok('field_end')]]
            fields = split_fields(toks[1:-2])
            cases = [('as written', fields)]
            if len(fields) > 1:
                cases.append(('with its fields in reverse order', fields[::-1]))
            for i, u in enumerate(unk):
                cases.append(('after unknown field of kind %d' % i, [u] + fields))
                cases.append(('before unknown field of kind %d' % i, fields + [u]))
            want = v
            if absent and T_ == 'ConfirmInfo':
                # optional fields with a default
                fs = [x[0] for x in F.adt(T_)['v'][0]['f']]
                vals = list(v.a[2:])
                for x in absent:
                    vals[fs.index(x)] = None
                want = vals
            for nm, fl in cases:
                c = protoclient(F)
                rest = tok('i32', sym('after'))
                i = c.new(proto(toks[:1] + [t for f in fl for t in f] + toks[-2:] + [rest]))
                r = c.call(T_, 'read_from_in_protocol', i)
                ob = 'read %s/%s' % (tag, nm)
                panics(rep, c, ob, 'reading ' + tag + ' ' + nm, 'P19')
                n += c.I.callsites
                left = result_tokens(c, i) if r is not None else None
                if r is None or r.op != 'adt':
                    rep.add('P19', ob, 'undecided', 'result %s' % (sshow(r) if r is not None else None))
                elif r.a[1] != 0:
                    rep.add('P19', ob, 'violation', 'reading %s %s fails: %s' % (tag, nm, (c.I.misreads or ['an error is returned'])[0]), 'w')
                elif left != [rest]:
                    rep.add('P19', ob, 'undecided' if left is None else 'violation', 'reading %s %s leaves %s unread' % (tag, nm, wshow(wire(left or []))), 'w')
                elif isinstance(want, list):
                    def wrong(x, y, wt):
                        if y is not None:
                            return x is not y
                        # absent: its default, the empty text or 0
                        if x.op != 'adt' or x.a[0] != 'Option' or x.a[1] != 1:
                            return True
                        return x.a[2] is not K(0) if wt == 'I64' else not same_text(x.a[2], EMPTY) and constbytes(x.a[2]) != b''
                    wts = {y[0]: y[2] for y in STRUCTS[T_]}
                    bad = [k for k, (x, y) in enumerate(zip(r.a[2].a[2:], want)) if wrong(x, y, wts[fs[k]])]
                    rep.add('P19', ob, 'violation' if bad else 'ok', '%s %s is read back as %s' % (tag, nm, sshow(r.a[2])) if bad else '', *(['w'] if bad else []))
                else:
                    same(r.a[2], want, c.st.pc, rep, 'P19', ob, '%s read %s' % (tag, nm))
        # a required field is missing
        for nm, i, ty, req in STRUCTS[T_]:
            if not req:
                continue
            v, toks = sample(F, T_, 'm_', [nm])
            c = protoclient(F)
            r = c.call(T_, 'read_from_in_protocol', c.new(proto(toks)))
            n += c.I.callsites
            ob = 'read %s/%s missing' % (T_, nm)
            panics(rep, c, ob, 'reading %s without %s' % (T_, nm), 'P19')
            if r is None or r.op != 'adt':
                rep.add('P19', ob, 'undecided', 'result %s' % (sshow(r) if r is not None else None))
            else:
                rep.add('P19', ob, 'ok' if r.a[1] == 1 else 'violation', 'reading %s without its required field %s succeeds' % (T_, nm), *(['w'] if r.a[1] == 0 else []))
        return {'calls analysed': n}
    return lambda: items(go)


def split_fields(toks):
    out = []
    i = 0
    while i < len(toks):
        j = i + 1
        j += value_len(toks, j)
        out.append(toks[i:j + 1])
        i = j + 1
    return out


def rpc_client(F, m):
    """the client half of a call"""
    wname, R_ = METHODS[m]

    def go(rep):
        n = 0
        args_t, res_t = 'SyncService%sArgs' % R_, 'SyncService%sResult' % R_
        a, atoks = sample(F, args_t, 'a_')
        res, rtoks = sample(F, res_t, 'r_')
        status = res.a[2].a[2]
        none_, ntoks = sample(F, res_t, 'r_', ['result_value'])
        seq = sym('seq')
        TYPEOF[seq] = ('int', 'i32')
        pre = and_(le(K(0), seq), lt(seq, K(1000000)))
        mi = lambda name, ty, s: tok('message_begin', adt(MI, 0, STR(name), adt(MT, ty), s))
        nxt_ = add(seq, K(1))
        app_ = adt('thrift::errors::ApplicationError', 0, sym('ekind'), sym('emsg'))
        cases = [('reply', [mi(wname, 1, nxt_)] + rtoks + [tok('message_end')], True),
                 ('reply without a result', [mi(wname, 1, nxt_)] + ntoks + [tok('message_end')], False),
                 ('reply to another call', [mi(wname, 1, seq)] + rtoks + [tok('message_end')], False),
                 ('reply of another method', [mi('somethingElse', 1, nxt_)] + rtoks + [tok('message_end')], False),
                 ('exception', [mi(wname, 2, nxt_), tok('apperror', app_), tok('message_end')], False),
                 ('a call instead of a reply', [mi(wname, 0, nxt_)] + rtoks + [tok('message_end')], False),
                 ('a one-way message instead of a reply', [mi(wname, 3, nxt_)] + rtoks + [tok('message_end')], False)]
        f = None
        for s in ('?C', 'SyncServiceSyncClient'):
            if F.has(s, m):
                f = F.find(s, m)
        if f is None:
            rep.add('P19', 'call ' + m, 'undecided', 'anchor not found')
            return
        for nm, inp, good in cases:
            c = protoclient(F)
            c.st.pc = and_(c.st.pc, pre)
            fs = {'_i_prot': proto(inp), '_o_prot': proto(), '_sequence_number': seq}
            names = [x[0] for x in F.adt('SyncServiceSyncClient')['v'][0]['f']]
            if sorted(names) != sorted(fs):
                raise Missing('fields of SyncServiceSyncClient')
            h = c.new(adt('SyncServiceSyncClient', 0, *[fs[x] for x in names]))
            ob = 'call %s/%s' % (m, nm)
            r = c.callf(f, h, *a.a[2:])
            panics(rep, c, ob, 'calling %s, answered with %s' % (m, nm), 'P19')
            n += c.I.callsites
            if r is None:
                continue
            r = restrict(r, c.st.pc)
            cl = c.get(h)
            out = cl.a[2 + names.index('_o_prot')]
            if out.op != 'adt' or any(x.op != 'e' for x in segs_of(out.a[2])) or r.op != 'adt':
                rep.add('P19', ob, 'undecided', 'result %s' % sshow(r))
                continue
            sent = wire([x.a[0] for x in segs_of(out.a[2])])
            want = wire([mi(wname, 0, nxt_)] + atoks + [tok('message_end'), tok('flush')])
            if not same_wire([norm_msg(x) for x in sent], [norm_msg(x) for x in want]):
                rep.add('P19', ob + '/sent', 'violation', 'calling %s sends (%s), must send (%s)' % (m, wshow(sent), wshow(want)), 'w')
            else:
                rep.add('P19', ob + '/sent', 'ok')
            if good:
                same(r, ok(status), c.st.pc, rep, 'P19', ob + '/result', 'the result of calling %s' % m)
            else:
                rep.add('P19', ob + '/result', 'ok' if r.a[1] == 1 else 'violation', 'calling %s succeeds although the answer is %s' % (m, nm), *([] if r.a[1] == 1 else ['w']))
        return {'calls analysed': n}
    return lambda: items(go)


def norm_msg(x):
    return tuple(terms.unbits(y) or y if isinstance(y, T) and y.op == 'bits' else y for y in x)


def rpc_server(F, m):
    """the server half: dispatch by name, arguments to the handler, its answer back under the same number"""
    wname, R_ = METHODS[m]

    def go(rep):
        n = 0
        a, atoks = sample(F, 'SyncService%sArgs' % R_, 'a_')
        res, rtoks = sample(F, 'SyncService%sResult' % R_, 'r_')
        status = res.a[2].a[2]
        seq = sym('seq')
        TYPEOF[seq] = ('int', 'i32')
        mi = lambda name, ty, s: tok('message_begin', adt(MI, 0, STR(name), adt(MT, ty), s))
        app_ = adt('thrift::errors::ApplicationError', 0, sym('ekind'), sym('emsg'))
        errty = 'thrift::errors::Error'
        for nm in ('answer', 'application error', 'other error'):
            c = protoclient(F)
            seen = []

            def handler(name):
                def h(I, st, args, cc):
                    seen.append((name, [deepload(I, st, x) for x in args[1:]]))
                    if nm == 'answer':
                        return ok(status), st
                    return err(adt(errty, 2, app_) if nm == 'application error' else adt(errty, 0, sym('transporterror'))), st
                return h
            ms = {'SyncServiceSyncHandler::handle_' + x: handler(x) for x in METHODS}
            ms['ToString::to_string'] = lambda I, st, a, c, o=c.I.models.get('ToString::to_string'): (
                (sym('errortext'), st) if I.loadd(st, a[0]).op == 'adt' and I.loadd(st, a[0]).a[0] == errty else o(I, st, a, c))
            c.I.models = dict(c.I.models, **ms)
            i = c.new(proto([mi(wname, 0, seq)] + atoks + [tok('message_end')]))
            o = c.new(proto())
            p = c.new(adt('SyncServiceSyncProcessor', 0, adt('Handler', 0)))
            r = c.call('SyncServiceSyncProcessor', 'process', p, i, o, trait='TProcessor')
            ob = 'serve %s/%s' % (m, nm)
            panics(rep, c, ob, 'serving ' + m, 'P19')
            n += c.I.callsites
            if r is None:
                continue
            out = result_tokens(c, o)
            if out is None:
                rep.add('P19', ob, 'undecided', 'result %s' % sshow(r))
                continue
            if len(seen) != 1 or seen[0][0] != m or [x for x in seen[0][1]] != list(a.a[2:]):
                rep.add('P19', ob + '/handler', 'violation', 'serving %s calls %s' % (m, ', '.join('%s(%s)' % (x, ' '.join(sshow(y) for y in z)) for x, z in seen) or 'nothing'), 'w')
            else:
                rep.add('P19', ob + '/handler', 'ok')
            if nm == 'answer':
                want = wire([mi(wname, 1, seq)] + rtoks + [tok('message_end'), tok('flush')])
                got = wire(out)
            else:
                want = [x[:1] + x[1:] for x in wire([mi(wname, 2, seq), tok('apperror', app_), tok('message_end'), tok('flush')])]
                got = wire(out)
                if nm == 'other error':
                    want = [x[:1] if x[0] == 'apperror' else x for x in want]
                    got = [x[:1] if x[0] == 'apperror' else x for x in got]
            if not same_wire(got, want):
                rep.add('P19', ob + '/sent', 'violation', 'serving %s sends (%s), must send (%s)' % (m, wshow(got), wshow(want)), 'w')
            else:
                rep.add('P19', ob + '/sent', 'ok')
        return {'calls analysed': n}
    return lambda: items(go)


def messages(env, rep):
    F = env.F
    jobs = []
    for T_ in sorted(STRUCTS):
        if not F.adts.get(T_):
            rep.add('P19', T_, 'undecided', 'anchor not found')
            continue
        jobs.append(('message ' + T_, ['P19'], struct_io(F, T_)))
    for m in METHODS:
        jobs.append(('call ' + m, ['P19'], rpc_client(F, m)))
        jobs.append(('serve ' + m, ['P19'], rpc_server(F, m)))
    env.cov['messages'] = env.pool(rep, jobs)
