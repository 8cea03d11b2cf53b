"""Sinks of which one operation fails: the call during which it fails answers with an error, and a writer whose close
has been tried, whether that went well or not, accepts nothing more and adds nothing to the file."""
from contexts import *
from scen import *
import terms


def sink_of(v, seen=None, depth=0):
    seen = set() if seen is None else seen
    if v in seen or depth > 40:
        return []
    seen.add(v)
    if v.op == 'adt' and v.a[0] == 'FailSink':
        return [v]
    out = []
    for x in v.a:
        if isinstance(x, T):
            out += sink_of(x, seen, depth + 1)
    return out


class Broken(Ctx):
    """a context whose sink fails at operation number `failop` (and from then on, with `ever`)"""
    def __init__(self, F, name, devices, failop, ever, **kw):
        import client
        self.failop, self.ever = failop, ever
        orig = client.Interp

        def make(F):
            I = orig(F)
            I.failop, I.failever = failop, ever
            return I
        client.Interp = make
        try:
            Ctx.__init__(self, F, name, devices, sink=adt('FailSink', 0, EMPTY, K(0)), **kw)
        finally:
            client.Interp = orig
        self.log = []
        self.note('new', self.created)

    def state(self):
        s = sink_of(self.c.get(self.w)) if self.w is not None else sink_of(self.created)
        if len(s) != 1 or s[0].a[3].op != 'k':
            raise Undecided('the byte sink of the writer was not found')
        return s[0].a[3].a[0], s[0].a[2]

    def note(self, op, r):
        n = self.c.st and (self.w is None or r is None or isv(r, 1, 2) is not TRUE or op != 'new')
        if op == 'new' and (r is None or isv(r, 1, 2) is TRUE):
            self.log.append((op, r, None, None))
            self.dead = True
            return
        self.dead = False
        k, data = self.state() if self.c.st is not None else (None, None)
        self.log.append((op, r, k, data))

    def do(self, op, *a):
        if self.dead or self.c.st is None:
            return
        if op == 'write':
            d, s, ty, k, v = a
            r = Ctx.write(self, d, s, ty, k, v, None, t=K(k))
        elif op == 'write_many':
            d, k, pts = a
            r = Ctx.write_many(self, d, k, pts, None, t=K(k))
        elif op == 'seal':
            self.seal()
            return
        elif op == 'flush':
            r = self.c.call('TsFileWriter', 'flush_all_chunk_groups', self.w)
        else:
            r = self.c.call('TsFileWriter', 'close', self.w)
        self.note(op, r)

    def early(self):
        pass


def one(x):
    x.do('write', D[0], S[0], 'INT64', 10, x.value('INT64', 'a'))
    x.do('write', D[0], S[1], 'FLOAT', 11, x.value('FLOAT', 'b'))
    x.do('flush')
    x.do('write', D[0], S[0], 'INT64', 20, x.value('INT64', 'c'))
    x.do('close')
    x.do('write', D[0], S[0], 'INT64', 30, x.value('INT64', 'd'))
    x.do('write_many', D[0], 31, [(S[1], 'FLOAT', x.value('FLOAT', 'e'))])
    x.do('close')
    x.do('write', D[0], S[1], 'FLOAT', 40, x.value('FLOAT', 'f'))


def empty(x):
    x.do('close')
    for k in range(2):
        for d in x.devices[:1]:
            x.do('write', d.name, d.series[0][0], d.series[0][1], 10 + k, x.value(d.series[0][1], 'a%d' % k))
            x.do('write_many', d.name, 20 + k, [(d.series[0][0], d.series[0][1], x.value(d.series[0][1], 'b%d' % k))])
            x.do('write_many', d.name, 30 + k, [])
        x.do('close')


def flushed(x):
    x.do('write', D[0], S[0], 'INT64', 10, x.value('INT64', 'a'))
    x.do('write', D[1], S[0], 'INT32', 10, x.value('INT32', 'b'))
    x.do('flush')
    x.do('close')
    x.do('write_many', D[0], 31, [(S[0], 'INT64', x.value('INT64', 'e'))])
    x.do('write', D[1], S[0], 'INT32', 40, x.value('INT32', 'f'))
    x.do('close')
    x.do('close')


DEV2 = [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'FLOAT', 'PLAIN', 'SNAPPY')])]
DEVS = [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'SNAPPY')]), Dev(D[1], [(S[0], 'INT32', 'PLAIN', 'UNCOMPRESSED')])]
DEV3 = [Dev(D[i], [(S[j], 'INT64', 'PLAIN', 'UNCOMPRESSED') for j in range(3)]) for i in range(3)]


def tree(x):
    for i in range(3):
        for j in range(3):
            x.do('write', D[i], S[j], 'INT64', 10 + j, x.value('INT64', 'v%d%d' % (i, j)))
    x.do('close')
    x.do('write', D[0], S[0], 'INT64', 30, x.value('INT64', 'd'))
    x.do('close')


def pages(x):
    for k in range(3):
        x.do('write', D[0], S[0], 'INT64', 10 + k, x.value('INT64', 'a%d' % k))
        x.do('write', D[0], S[1], 'FLOAT', 10 + k, x.value('FLOAT', 'b%d' % k))
        if k < 2:
            x.do('seal')
    x.do('close')
    x.do('write', D[0], S[0], 'INT64', 30, x.value('INT64', 'd'))


SHAPES = [('one device', DEV2, one), ('nothing written', DEV2, empty), ('no devices', [], empty), ('flushed before close', DEVS, flushed), ('index of several levels', DEV3, tree),
          ('several pages', DEV2, pages)]


def judge(x, rep, nm, k):
    """every call during which the sink failed reports it; nothing is done after close"""
    who = '%s, %s' % (nm, 'no operation fails' if k is None else 'operation %d on the sink fails%s' % (k, ' and all later ones' if x.ever else ''))
    seen = set()
    for (ppc, kind, fn, sp, det) in x.I.panics:
        if (fn, sp) not in seen:
            seen.add((fn, sp))
            same(ppc, FALSE, TRUE, rep, 'P15 P01', '%s/panic %s' % (who, sp), '%s: a panic (%s in %s at %s) is reached' % (who, kind, fn, sp))
    before, closed, content = 0, False, None
    failed = False
    for i, (op, r, n, data) in enumerate(x.log):
        ob = '%s/call %d %s' % (who, i, op)
        if r is None:
            rep.add('P15 P01', ob, 'undecided' if any(p[0].opq for p in x.I.panics) else 'violation', '%s: call %d, %s, never returns' % (who, i, op), 'w')
            return
        hit = k is not None and (n is None or before <= k < n or x.ever and n > k and n > before)
        if hit:
            failed = True
            same(isv(r, 1, 2), TRUE, TRUE, rep, 'P01', ob + '/error', '%s: call %d, %s, during which it fails, returns an error' % (who, i, op))
        elif not failed and not closed:
            same(isv(r, 1, 2), FALSE, TRUE, rep, 'P01 P14', ob + '/ok', '%s: call %d, %s, returns an error' % (who, i, op))
        if closed:
            same(isv(r, 1, 2), TRUE, TRUE, rep, 'P22', ob + '/refused', '%s: call %d, %s, comes after close, and is answered with an error' % (who, i, op))
            if data is not None:
                rep.add('P22', ob + '/nothing added', 'ok' if data is content else 'violation', '%s: call %d, %s, comes after close and writes to the file' % (who, i, op), 'w')
        if op == 'close':
            if not closed:
                content = data
            closed = True
        before = n


def failing(env, rep):
    jobs = []
    for nm, devs, f in SHAPES:
        for part in range(8 if f not in (empty, flushed) else 3):
            def go(nm=nm, devs=devs, f=f, part=part, parts=8 if f not in (empty, flushed) else 3):
                rp = Report()
                n = 0
                x = Broken(env.F, 'failing', devs, None, False, cfg={'max_degree_of_index_node': 2} if f is tree else None)
                f(x)
                if part == 0:
                    judge(x, rp, nm, None)
                if x.c.st is None or x.dead:
                    raise Undecided('the calls do not return')
                total = x.log[-1][2]
                for k in range(part, total, parts):
                    for ever in ((False, True) if env.tier == 'thorough' or k % 2 and f is not tree else (False,)):
                        x = Broken(env.F, 'failing', devs, k, ever, cfg={'max_degree_of_index_node': 2} if f is tree else None)
                        if not x.dead:
                            f(x)
                        judge(x, rp, nm, k)
                        n += 1
                return rp.items, {'failing operations analysed': n}
            jobs.append(('failing sink/%s/%d' % (nm, part), ['P01', 'P22'], go))
    env.cov['sinks that fail'] = env.pool(rep, jobs)
