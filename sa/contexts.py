"""The client contexts analysed.  Each fixes a shape; ids, start time and values are symbols."""
from scen import *
import eval as ev_

D = [name_sym('d%d' % i, 100 + i) for i in range(8)]
S = [name_sym('s%d' % i, 200 + i) for i in range(8)]
X = name_sym('x', 300)            # a name the schema does not have
TYPES = ('INT32', 'INT64', 'FLOAT')
COMPS = ('UNCOMPRESSED', 'SNAPPY')
ENCS = ('PLAIN', 'TS2DIFF')
DELTAS = [0, 5, 7, 20, 21, 1000, 100000, 100003, 100004, 2**40]

REG = []


def ctx(name, tier='quick', props='', **kw):
    def d(f):
        REG.append((name, tier, props.split(), f, kw))
        return f
    return d


VDELTAS = [0, 5, -3, 20, 21, 1000, -100000, 100003, -2**20, 2**24]


def n_points(x, dev, ser, ty, n, k0=0, tag='', near=None):
    for i in range(n):
        if near is None:
            v = x.value(ty, '%s%s%d' % (tag, 'v', i))
        else:
            v = x.near(ty, near, VDELTAS[(i + k0) % 10])
        x.write(dev, ser, ty, k0 + DELTAS[i], v)


# ---------------------------------------------------------------- one series
def single(ty, en, co, n):
    def f(F):
        x = Ctx(F, '%s %s %s, %d points' % (ty, en, co, n), [Dev(D[0], [(S[0], ty, en, co)])])
        n_points(x, D[0], S[0], ty, n, near='v' if en == 'TS2DIFF' and n > 1 else None)
        x.close()
        return x
    return f


for ty in TYPES:
    for en in ENCS:
        for co in COMPS:
            if en == 'TS2DIFF' and ty == 'FLOAT':
                continue
            for n in (1, 2, 3):
                REG.append(('%s/%s/%s/%d' % (ty, en, co, n), 'quick' if (n != 2) else 'thorough', [], single(ty, en, co, n), {}))


# ---------------------------------------------------------------- empty files
@ctx('no devices')
def _(F):
    x = Ctx(F, 'no devices', [])
    x.close()
    return x


@ctx('nothing written')
def _(F):
    x = Ctx(F, 'nothing written', [Dev(D[0], [(S[0], 'INT32', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'FLOAT', 'PLAIN', 'SNAPPY')]),
                                   Dev(D[1], [(S[0], 'INT64', 'PLAIN', 'SNAPPY')])])
    x.close()
    return x


# ---------------------------------------------------------------- several series and devices
def many(x, order):
    for i, (d, s, ty, k) in enumerate(order):
        x.write(d, s, ty, k, x.value(ty, 'v%d' % i))


@ctx('two series interleaved')
def _(F):
    x = Ctx(F, 'two series interleaved', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'FLOAT', 'PLAIN', 'UNCOMPRESSED')])])
    many(x, [(D[0], S[1], 'FLOAT', 3), (D[0], S[0], 'INT64', 0), (D[0], S[0], 'INT64', 1), (D[0], S[1], 'FLOAT', 4)])
    x.close()
    return x


@ctx('two devices share a measurement name')
def _(F):
    x = Ctx(F, 'two devices share a measurement name', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED')]),
                                                       Dev(D[1], [(S[0], 'FLOAT', 'PLAIN', 'SNAPPY'), (S[1], 'INT64', 'TS2DIFF', 'SNAPPY')])])
    many(x, [(D[1], S[0], 'FLOAT', 3), (D[0], S[0], 'INT64', 0), (D[1], S[1], 'INT64', 0), (D[0], S[1], 'INT32', 0), (D[0], S[0], 'INT64', 2),
             (D[1], S[0], 'FLOAT', 9)])
    x.close()
    return x


@ctx('one of three series written')
def _(F):
    x = Ctx(F, 'one of three series written', [Dev(D[0], [(S[i], 'INT64', 'PLAIN', 'UNCOMPRESSED') for i in range(3)]), Dev(D[1], [(S[0], 'INT32', 'PLAIN', 'SNAPPY')])])
    many(x, [(D[0], S[1], 'INT64', 3), (D[0], S[1], 'INT64', 4)])
    x.close()
    return x


@ctx('devices and series declared in reverse order')
def _(F):
    x = Ctx(F, 'devices and series declared in reverse order', [Dev(D[2], [(S[2], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[0], 'INT32', 'PLAIN', 'UNCOMPRESSED')]),
                                               Dev(D[1], [(S[1], 'INT64', 'PLAIN', 'UNCOMPRESSED')])])
    many(x, [(D[2], S[2], 'INT64', 3), (D[2], S[0], 'INT32', 3), (D[1], S[1], 'INT64', 3)])
    x.close()
    return x


# ---------------------------------------------------------------- pages and chunk groups
@ctx('two pages')
def _(F):
    x = Ctx(F, 'two pages', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED')])])
    n_points(x, D[0], S[0], 'INT64', 2)
    x.seal()
    n_points(x, D[0], S[0], 'INT64', 2, 10, 'b')
    x.close()
    return x


@ctx('three pages, three types')
def _(F):
    x = Ctx(F, 'three pages, three types', [Dev(D[0], [(S[0], 'INT32', 'PLAIN', 'SNAPPY'), (S[1], 'FLOAT', 'PLAIN', 'UNCOMPRESSED'), (S[2], 'INT64', 'TS2DIFF', 'UNCOMPRESSED')])])
    for p in range(3):
        for s, ty in ((S[0], 'INT32'), (S[1], 'FLOAT'), (S[2], 'INT64')):
            n_points(x, D[0], s, ty, 1 if p != 1 else 2, 100 * p, '%sp%d' % (ty, p), near='v' if s is S[2] else None)
        x.seal()
    x.close()
    return x


@ctx('two chunk groups')
def _(F):
    x = Ctx(F, 'two chunk groups', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED')])])
    n_points(x, D[0], S[0], 'INT64', 2)
    n_points(x, D[0], S[1], 'INT32', 1, 0, 'i')
    x.flush()
    n_points(x, D[0], S[0], 'INT64', 1, 10, 'b')
    x.close()
    return x


@ctx('three chunk groups, two devices')
def _(F):
    x = Ctx(F, 'three chunk groups, two devices', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED')]), Dev(D[1], [(S[0], 'FLOAT', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'TS2DIFF', 'UNCOMPRESSED')])])
    for p in range(3):
        n_points(x, D[0], S[0], 'INT64', 1, 100 * p, 'a%d' % p)
        if p != 1:
            n_points(x, D[1], S[0], 'FLOAT', 2, 100 * p, 'b%d' % p)
        n_points(x, D[1], S[1], 'INT32', 1, 100 * p, 'c%d' % p)
        if p < 2:
            x.flush()
    x.close()
    return x


@ctx('several pages in several chunk groups')
def _(F):
    x = Ctx(F, 'several pages in several chunk groups', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED')])])
    for p in range(2):
        n_points(x, D[0], S[0], 'INT64', 1, 100 * p, 'a%d' % p)
        x.seal()
        n_points(x, D[0], S[0], 'INT64', 2, 100 * p + 10, 'b%d' % p)
        n_points(x, D[0], S[1], 'INT32', 2, 100 * p + 10, 'b%d' % p)
        if p == 0:
            x.flush()
    x.close()
    return x


@ctx('chunk group ends with nothing new')
def _(F):
    x = Ctx(F, 'chunk group ends with nothing new', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED')])])
    n_points(x, D[0], S[0], 'INT64', 1, 0)
    x.flush()
    x.close()
    return x


# ---------------------------------------------------------------- pages of any size
def big(specs, pages, flushes=1, write_last=True):
    """every page holds an unknown amount of earlier data"""
    def f(F):
        nm = 'pages of any size: %s, %d pages, %d chunk groups' % (', '.join('%s %s %s' % s for s in specs), pages, flushes)
        x = Ctx(F, nm, [Dev(D[0], [(S[j],) + s for j, s in enumerate(specs)])])
        k = 0
        for g in range(flushes):
            for p in range(pages):
                for j, (ty, en, co) in enumerate(specs):
                    near = '%d' % j if en == 'TS2DIFF' else None
                    n_points(x, D[0], S[j], ty, 1, 100 * k, 'a%d.%d' % (j, k), near=near)
                    x.blob(D[0], S[j], '%d.%d' % (j, k))
                    if (p + j) % 2 == 0:
                        n_points(x, D[0], S[j], ty, 1, 100 * k + 50, 'b%d.%d' % (j, k), near=near)
                k += 1
                if p + 1 < pages:
                    x.seal()
            if g + 1 < flushes:
                x.flush()
        x.close()
        return x
    return f


for co in COMPS:
    for ty in TYPES:
        for en in ENCS:
            if (ty, en) != ('FLOAT', 'TS2DIFF'):
                for np in (1, 2, 3):
                    REG.append(('big/%s/%s/%s/%d' % (ty, en, co, np), 'quick', [], big([(ty, en, co)], np), {}))
REG.append(('big/three series', 'quick', [], big([('INT32', 'PLAIN', 'SNAPPY'), ('FLOAT', 'PLAIN', 'UNCOMPRESSED'), ('INT64', 'TS2DIFF', 'UNCOMPRESSED')], 2, 2), {}))


# ---------------------------------------------------------------- rejected points
@ctx('out of order points rejected')
def _(F):
    x = Ctx(F, 'out of order points rejected', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED')])])
    x.write(D[0], S[0], 'INT64', 5, x.value('INT64', 'v0'))
    x.write(D[0], S[0], 'INT64', 5, x.value('INT64', 'w0'), accepted=False)
    x.write(D[0], S[0], 'INT64', 4, x.value('INT64', 'w1'), accepted=False)
    x.write(D[0], S[0], 'INT64', 6, x.value('INT64', 'v1'))
    x.write(D[0], S[1], 'INT32', 2, x.value('INT32', 'v2'))
    x.write(D[0], S[0], 'INT64', 6, x.value('INT64', 'w2'), accepted=False)
    x.write(D[0], S[0], 'INT64', 7, x.value('INT64', 'v3'))
    x.close()
    return x


@ctx('out of order after page and chunk group ends')
def _(F):
    x = Ctx(F, 'out of order after page and chunk group ends', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED')])])
    x.write(D[0], S[0], 'INT64', 5, x.value('INT64', 'v0'))
    x.seal()
    x.write(D[0], S[0], 'INT64', 5, x.value('INT64', 'w0'), accepted=False)
    x.write(D[0], S[0], 'INT64', 6, x.value('INT64', 'v1'))
    x.flush()
    x.write(D[0], S[0], 'INT64', 6, x.value('INT64', 'w1'), accepted=False)
    x.write(D[0], S[0], 'INT64', 3, x.value('INT64', 'w1'), accepted=False)
    x.write(D[0], S[1], 'INT32', 3, x.value('INT32', 'v2'))
    x.write(D[0], S[0], 'INT64', 7, x.value('INT64', 'v3'))
    x.flush()
    x.write(D[0], S[1], 'INT32', 3, x.value('INT32', 'w3'), accepted=False)
    x.flush()
    x.write(D[0], S[0], 'INT64', 7, x.value('INT64', 'w4'), accepted=False)
    x.write(D[0], S[0], 'INT64', 8, x.value('INT64', 'v4'))
    x.close()
    return x


@ctx('wrong type, unknown names')
def _(F):
    x = Ctx(F, 'wrong type, unknown names', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED'), (S[2], 'FLOAT', 'PLAIN', 'UNCOMPRESSED')])])
    k = 0
    for s, ty in ((S[0], 'INT64'), (S[1], 'INT32'), (S[2], 'FLOAT')):
        for t2 in TYPES:
            if t2 != ty:
                x.write(D[0], s, t2, 5, x.value(t2, 'w%d' % k), accepted=False)
                k += 1
        x.write(D[0], s, ty, 5, x.value(ty, 'v%s' % ty))
        for t2 in TYPES:
            if t2 != ty:
                x.write(D[0], s, t2, 6, x.value(t2, 'w%d' % k), accepted=False)
                k += 1
    x.write(D[0], X, 'INT64', 9, x.value('INT64', 'y0'), accepted=False)
    x.write(X, S[0], 'INT64', 9, x.value('INT64', 'y1'), accepted=False)
    x.write(D[0], S[0], 'INT64', 6, x.value('INT64', 'z'))
    x.write(D[0], S[1], 'INT32', 6, x.value('INT32', 'z2'))
    x.close()
    return x


def refusals(nm, decl, other, ends=('flush', ''), good=True):
    """each series given the values of every other type, and unknown names, in a device of this shape"""
    def f(F):
        x = Ctx(F, 'refused, ' + nm, [Dev(D[0], [(S[i],) + d for i, d in enumerate(decl)])] + [Dev(D[1 + i], [(S[0],) + d]) for i, d in enumerate(other)])
        k = 0
        for g in range(len(ends)):
            if g and ends[g - 1] == 'seal':
                # nothing good comes after the page end
                x.write(D[0], S[0], 'DOUBLE', 20 * g + 3, x.value('DOUBLE', 'e%d' % g), accepted=False)
                if g + 1 == len(ends):
                    break
            for i, (ty, en, co) in enumerate(decl):
                for t2 in TYPES + ('DOUBLE',):
                    if t2 != ty:
                        x.write(D[0], S[i], t2, 20 * g + 5, x.value(t2, 'w%d' % k), accepted=False)
                        x.write_many(D[0], 20 * g + 5, [(S[i], t2, x.value(t2, 'm%d' % k))], accepted=False)
                        k += 1
                    x.write(D[0], X, t2, 20 * g + 7, x.value(t2, 'x%d' % k), accepted=False)
                    x.write_many(D[0], 20 * g + 7, [(X, t2, x.value(t2, 'y%d' % k))], accepted=False)
                    x.write(X, S[i], t2, 20 * g + 8, x.value(t2, 'z%d' % k), accepted=False)
                    k += 1
                x.write_many(X, 20 * g + 9, [], accepted=False)
                x.write_many(D[0], 20 * g + 9, [])
                if good:
                    x.write(D[0], S[i], ty, 20 * g, x.value(ty, 'v%d' % k))
            if g < len(ends) and ends[g]:
                getattr(x, ends[g])()
        x.close()
        return x
    REG.append(('refused/' + nm, 'quick', [], f, {}))


for ty in TYPES:
    for en in ENCS:
        if (ty, en) != ('FLOAT', 'TS2DIFF'):
            refusals('one %s %s' % (ty, en), [(ty, en, 'UNCOMPRESSED')], [])
refusals('pages end', [('INT64', 'PLAIN', 'UNCOMPRESSED'), ('FLOAT', 'PLAIN', 'SNAPPY')], [], ('seal', 'flush', 'seal', ''))
refusals('nothing accepted', [('INT32', 'TS2DIFF', 'UNCOMPRESSED'), ('FLOAT', 'PLAIN', 'SNAPPY')], [('INT64', 'PLAIN', 'SNAPPY')], ('flush', ''), good=False)
refusals('two series, two devices', [('INT64', 'PLAIN', 'UNCOMPRESSED'), ('FLOAT', 'PLAIN', 'SNAPPY')], [('INT32', 'PLAIN', 'UNCOMPRESSED')])


@ctx('float series with TS_2DIFF')
def _(F):
    x = Ctx(F, 'float series with TS_2DIFF', [Dev(D[0], [(S[0], 'FLOAT', 'TS2DIFF', 'UNCOMPRESSED'), (S[1], 'INT64', 'TS2DIFF', 'UNCOMPRESSED'),
                                                         (S[2], 'FLOAT', 'TS2DIFF', 'SNAPPY')])])
    x.also = ' P21'
    for g in range(3):
        x.write(D[0], S[0], 'FLOAT', 10 * g + 1, x.value('FLOAT', 'w'), accepted=False)
        x.write(D[0], S[1], 'INT64', 10 * g + 1, x.value('INT64', 'v%d' % g))
        x.write(D[0], S[2], 'FLOAT', 10 * g + 2, x.value('FLOAT', 'u'), accepted=False)
        x.write(D[0], S[0], 'FLOAT', 10 * g + 2, x.value('FLOAT', 'w2'), accepted=False)
        if g == 0:
            x.seal()
        if g == 1:
            x.flush()
    x.close()
    return x


# ---------------------------------------------------------------- with every message formatted
def logged(co):
    def f(F):
        x = Ctx(F, 'messages on, ' + co, [Dev(D[0], [(S[0], 'INT64', 'PLAIN', co), (S[1], 'FLOAT', 'PLAIN', co)]),
                                          Dev(D[1], [(S[0], 'INT32', 'TS2DIFF', co)])], logging=True)
        for g in range(2):
            for p in range(2):
                k = 1000 * g + 100 * p
                n_points(x, D[0], S[0], 'INT64', 2, k, 'a%d.%d' % (g, p), near='u')
                n_points(x, D[0], S[1], 'FLOAT', 1, k, 'b%d.%d' % (g, p))
                n_points(x, D[1], S[0], 'INT32', 1, k, 'c%d.%d' % (g, p), near='v')
                x.write(D[0], S[0], 'INT64', k, x.value('INT64', 'w'), accepted=False)
                x.write(X, S[0], 'INT64', k, x.value('INT64', 'w'), accepted=False)
                x.write(D[1], X, 'INT64', k, x.value('INT64', 'w'), accepted=False)
                if p == 0:
                    x.seal()
            if g == 0:
                x.flush()
        x.close()
        x.close(accepted=False)
        return x
    REG.append(('messages on/' + co, 'quick', [], f, {}))


for co in COMPS:
    logged(co)


# ---------------------------------------------------------------- write_many
@ctx('write_many')
def _(F):
    x = Ctx(F, 'write_many', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED'), (S[2], 'FLOAT', 'PLAIN', 'UNCOMPRESSED')])])
    x.write_many(D[0], 0, [(S[0], 'INT64', x.value('INT64', 'a')), (S[2], 'FLOAT', x.value('FLOAT', 'b'))])
    x.write_many(D[0], 1, [(S[1], 'INT32', x.value('INT32', 'c')), (S[0], 'INT64', x.value('INT64', 'd'))])
    x.write_many(D[0], 2, [])
    x.write_many(X, 3, [(S[1], 'INT32', x.value('INT32', 'w'))], accepted=False)
    x.write(D[0], S[0], 'INT64', 2, x.value('INT64', 'e'))
    x.write(D[0], S[0], 'INT64', 2, x.value('INT64', 'w2'), accepted=False)
    x.close()
    return x


def refused(nm, first, pts, upto, props='P03 P04 P14'):
    """write_many of which a later point is refused: the earlier ones are kept, the others leave no trace"""
    def f(F):
        x = Ctx(F, 'write_many, ' + nm, [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED'), (S[2], 'FLOAT', 'PLAIN', 'UNCOMPRESSED')]),
                                              Dev(D[1], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED')])])
        last = {}
        for s, ty, k in first:
            x.write(D[0], s, ty, k, x.value(ty, 'f%s%d' % (s.a[0], k)))
            last[s] = k
        x.write(D[1], S[0], 'INT64', 3, x.value('INT64', 'other'))
        x.write_many(D[0], 10, [(s, ty, x.value(ty, 'm%d' % i)) for i, (s, ty) in enumerate(pts)], accepted=upto == len(pts), upto=upto)
        for s, ty in pts[:upto]:
            last[s] = 10
        for g in (0, 1):
            # the times remembered are those of the points accepted
            for s, ty in ((S[0], 'INT64'), (S[1], 'INT32'), (S[2], 'FLOAT')):
                k = last.get(s)
                if k is not None:
                    x.write(D[0], s, ty, k, x.value(ty, 'w%d%s' % (g, s.a[0])), accepted=False)
                last[s] = 0 if k is None else k + 1
                x.write(D[0], s, ty, last[s], x.value(ty, 'g%d%s' % (g, s.a[0])))
            if g == 0:
                x.flush()
        x.write(D[1], S[0], 'INT64', 4, x.value('INT64', 'other2'))
        x.close()
        return x
    REG.append(('write_many/' + nm, 'quick', [], f, {}))


refused('second series behind', [(S[1], 'INT32', 12)], [(S[0], 'INT64'), (S[1], 'INT32'), (S[2], 'FLOAT')], 1)
refused('second series at the same time', [(S[1], 'INT32', 10), (S[0], 'INT64', 9)], [(S[0], 'INT64'), (S[1], 'INT32'), (S[2], 'FLOAT')], 1)
refused('second series ahead of the first', [(S[1], 'INT32', 2), (S[0], 'INT64', 9)], [(S[0], 'INT64'), (S[1], 'INT32'), (S[2], 'FLOAT')], 3)
refused('the same series twice', [(S[0], 'INT64', 4)], [(S[0], 'INT64'), (S[0], 'INT64'), (S[1], 'INT32')], 1)
refused('the same series again after another', [(S[0], 'INT64', 4)], [(S[0], 'INT64'), (S[1], 'INT32'), (S[0], 'INT64')], 2)
refused('first of the wrong type', [(S[0], 'INT64', 4)], [(S[0], 'FLOAT'), (S[1], 'INT32'), (S[2], 'FLOAT')], 0)
refused('second of the wrong type', [(S[0], 'INT64', 4)], [(S[1], 'INT32'), (S[0], 'FLOAT'), (S[2], 'FLOAT')], 1)
refused('third unknown', [(S[2], 'FLOAT', 4)], [(S[1], 'INT32'), (S[0], 'INT64'), (X, 'INT64')], 2)
refused('more points than series, the last twice', [(S[2], 'FLOAT', 4)], [(S[1], 'INT32'), (S[0], 'INT64'), (S[2], 'FLOAT'), (S[0], 'INT64')], 3)
refused('more points than series, the last unknown', [(S[2], 'FLOAT', 4)], [(S[1], 'INT32'), (S[0], 'INT64'), (S[2], 'FLOAT'), (X, 'INT64')], 3)
refused('the same point next to itself', [], [(S[1], 'INT32'), (S[0], 'INT64'), (S[0], 'INT64')], 2)
refused('last behind', [(S[2], 'FLOAT', 11)], [(S[1], 'INT32'), (S[0], 'INT64'), (S[2], 'FLOAT')], 2)


# ---------------------------------------------------------------- any time stamps
def lasttimes(nm, order, between, top=2**60):
    """two series of one name in two devices, and another series; each has its own last time"""
    def f(F):
        x = Ctx(F, 'any times, ' + nm, [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'INT32', 'PLAIN', 'UNCOMPRESSED')]),
                                           Dev(D[1], [(S[0], 'FLOAT', 'PLAIN', 'UNCOMPRESSED')])])
        ss = {'a': (D[0], S[0], 'INT64'), 'b': (D[0], S[1], 'INT32'), 'c': (D[1], S[0], 'FLOAT')}
        last = {}
        n = 0
        for i, (k, good) in enumerate(order):
            d, s, ty = ss[k]
            v = x.value(ty, 'v%d' % i)
            if not good:
                t = x.anytime('early time %d' % i, -2**63)
                x.assume(le(t, last[k]))
            elif k in last:
                t = add(last[k], x.anytime('step %d' % i, 1, 2**60))
            else:
                t = x.anytime('time %d' % i, 0, top)
            x.write(d, s, ty, 0, v, accepted=good, t=t)
            if good:
                last[k] = t
            if i + 1 in between:
                getattr(x, between[i + 1])()
        x.close()
        return x
    REG.append(('any times/' + nm, 'quick', [], f, {}))


lasttimes('one page', [('a', True), ('c', True), ('a', False), ('b', True), ('a', True), ('b', False), ('c', False), ('c', True)], {})
lasttimes('page ends', [('a', True), ('c', True), ('a', False), ('b', True), ('a', True), ('b', False), ('c', False), ('c', True), ('b', True)], {2: 'seal', 6: 'seal'})
lasttimes('chunk group ends', [('a', True), ('c', True), ('a', False), ('b', True), ('a', True), ('b', False), ('c', False), ('c', True), ('b', True), ('c', False), ('a', False)], {2: 'flush', 5: 'flush', 8: 'flush'})
lasttimes('chunk group with nothing of a series', [('a', True), ('b', True), ('a', False), ('b', False), ('c', True), ('a', True), ('a', False), ('b', False), ('b', True)], {1: 'flush', 2: 'flush', 5: 'flush', 7: 'flush'})


lasttimes('up to the largest', [('a', True), ('c', True), ('a', False), ('b', True), ('b', False), ('c', False)], {1: 'flush', 4: 'flush'}, 2**63 - 1)


# ---------------------------------------------------------------- a sink that takes its bytes one by one
@ctx('bytes taken one by one')
def _(F):
    d = [STR(b'root.device'), STR(b'root.e')]
    x = Ctx(F, 'bytes taken one by one', [Dev(d[0], [(STR(b'measurement'), 'INT64', 'PLAIN', 'UNCOMPRESSED'), (STR(b's2'), 'FLOAT', 'PLAIN', 'SNAPPY')]),
                                             Dev(d[1], [(STR(b'm'), 'INT32', 'TS2DIFF', 'UNCOMPRESSED')])], stingy=True)
    for p in range(2):
        n_points(x, d[0], STR(b'measurement'), 'INT64', 2, 100 * p, 'a%d' % p)
        n_points(x, d[0], STR(b's2'), 'FLOAT', 1, 100 * p, 'b%d' % p)
        n_points(x, d[1], STR(b'm'), 'INT32', 2, 100 * p, 'c%d' % p, near='v')
        if p == 0:
            x.seal()
            x.flush()
    x.close()
    return x


# ---------------------------------------------------------------- files longer than 32 bits can say
def long_file(nm, flushes, pages):
    def f(F):
        x = Ctx(F, 'long file, ' + nm, [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED'), (S[1], 'FLOAT', 'PLAIN', 'SNAPPY')]),
                                           Dev(D[1], [(S[0], 'INT32', 'TS2DIFF', 'UNCOMPRESSED')])])
        x.ahead()
        for g in range(flushes):
            for p in range(pages):
                k = 1000 * g + 100 * p
                n_points(x, D[0], S[0], 'INT64', 2, k, 'a%d.%d' % (g, p), near='u')
                n_points(x, D[0], S[1], 'FLOAT', 1, k, 'b%d.%d' % (g, p))
                n_points(x, D[1], S[0], 'INT32', 2, k, 'c%d.%d' % (g, p), near='v')
                if p + 1 < pages:
                    x.seal()
            if g + 1 < flushes:
                x.flush()
        x.close()
        return x
    REG.append(('long file/' + nm, 'quick', [], f, {}))


long_file('one chunk group', 1, 1)
long_file('two chunk groups of two pages', 2, 2)


# ---------------------------------------------------------------- close
@ctx('calls after close')
def _(F):
    x = Ctx(F, 'calls after close', [Dev(D[0], [(S[0], 'INT64', 'PLAIN', 'UNCOMPRESSED')])])
    n_points(x, D[0], S[0], 'INT64', 2)
    x.close()
    x.close(accepted=False)
    x.write(D[0], S[0], 'INT64', 1000, x.value('INT64', 'w'), accepted=False)
    x.write_many(D[0], 1001, [(S[0], 'INT64', x.value('INT64', 'w'))], accepted=False)
    x.close(accepted=False)
    return x


# ---------------------------------------------------------------- index trees
def index_tree(nd, ns, deg):
    nm = 'index: %d devices, %d series, degree %d' % (nd, ns, deg)

    def f(F):
        dv = [name_sym('d%02d' % i, 1000 + i) for i in range(nd)]
        sv = [name_sym('s%02d' % i, 2000 + i) for i in range(ns)]
        x = Ctx(F, nm, [Dev(d, [(s, 'INT64', 'PLAIN', 'UNCOMPRESSED') for s in sv]) for d in dv], cfg={'max_degree_of_index_node': deg})
        x.deg = deg
        for i, d in enumerate(dv):
            for j, s in enumerate(sv):
                x.write(d, s, 'INT64', 0, x.value('INT64', 'v%d_%d' % (i, j)))
        x.close()
        return x
    return nm, f


for nd, ns, deg, tier in ((1, 2, 2, 'quick'), (1, 3, 2, 'quick'), (2, 1, 2, 'quick'), (3, 1, 2, 'quick'), (2, 3, 2, 'quick'), (3, 3, 2, 'quick'), (5, 1, 2, 'quick'),
                          (1, 5, 2, 'quick'), (4, 4, 3, 'quick'), (1, 9, 2, 'quick'), (9, 1, 2, 'quick'), (10, 2, 3, 'thorough'), (5, 5, 2, 'thorough'), (2, 10, 3, 'thorough'), (17, 1, 4, 'thorough'), (10, 1, 4, 'quick'), (1, 10, 4, 'quick'), (13, 1, 5, 'thorough')):
    nm, f = index_tree(nd, ns, deg)
    REG.append((nm, tier, ['P08'], f, {'maxdeg': deg}))


# ---------------------------------------------------------------- the bloom filter of a whole file
def bloom_file(shape, nchunks, small):
    def f(F):
        ds = [Dev(D[i], [(S[j], TYPES[(i + j) % 3], 'PLAIN', COMPS[(i + j) % 2]) for j in range(m)]) for i, m in enumerate(shape)]
        x = Ctx(F, 'bloom filter of %s series' % (shape,), ds, murmur='table', small=small)
        for r in range(nchunks):
            for d in ds:
                for s in d.series:
                    n_points(x, d.name, s[0], s[1], 1, k0=10 * r)
            if r + 1 < nchunks:
                x.flush()
        x.close()
        return x
    return f


for shape, n, small in (((1,), 1, False), ((2, 1), 1, False), ((1, 3, 2), 2, False), ((4, 4, 4), 1, False), ((2, 2), 1, True)):
    REG.append(('bloom/%s/%d%s' % ('-'.join(map(str, shape)), n, '/small' if small else ''), 'quick', [], bloom_file(shape, n, small), {}))


# ---------------------------------------------------------------- many of everything
def const_of(ty, i):
    return FL('f32', ev_.fbits('f32', float((i * 37) % 101 - 50))) if ty == 'FLOAT' else K((i * 7919) % 4001 - 2000)


def plenty(nm, pages, flushes, ty='INT32', en='PLAIN', co='UNCOMPRESSED', per=1, fixed=False):
    """many pages and chunk groups; the values are fixed, to keep this cheap, and the names are not where they need not be"""
    def f(F):
        dn, sn = (STR(b'root.some.device'), STR(b'measurement')) if fixed else (D[0], S[0])
        x = Ctx(F, 'many, ' + nm, [Dev(dn, [(sn, ty, en, co)])])
        x.I.maxvisits = 200000
        i = 0
        for g in range(flushes):
            for p in range(pages):
                for _ in range(per if p % 2 == 0 else 1):
                    x.write(dn, sn, ty, 0, const_of(ty, i), t=K(1000 + 3 * i + (i * i) % 2))
                    i += 1
                if p + 1 < pages:
                    x.seal()
            if g + 1 < flushes:
                x.flush()
        x.close()
        return x
    return f


for nm, tier, a in (('6 pages', 'quick', (6, 1)), ('7 chunk groups', 'quick', (1, 7, 'INT64')), ('130 pages', 'quick', (130, 1, 'FLOAT')), ('260 pages', 'quick', (260, 1)),
                    ('140 chunk groups', 'thorough', (1, 140, 'INT64', 'TS2DIFF', 'UNCOMPRESSED', 1, True)), ('260 chunk groups', 'quick', (1, 260, 'INT64', 'TS2DIFF', 'UNCOMPRESSED', 1, True))):
    REG.append(('many/' + nm, tier, [], plenty(nm, *a), {}))


def crowd(nd, ns):
    """more devices or series than an index node has room for, at the usual degree"""
    def f(F):
        dv = [STR(b'root.device%03d' % i) for i in range(nd)]
        sv = [STR(b'sensor%03d' % i) for i in range(ns)]
        x = Ctx(F, 'many, %d devices of %d series' % (nd, ns), [Dev(d, [(s, 'INT32', 'PLAIN', 'UNCOMPRESSED') for s in sv]) for d in dv])
        x.I.maxvisits = 200000
        for i, d in enumerate(dv):
            for j, s in enumerate(sv):
                x.write(d, s, 'INT32', 0, const_of('INT32', 7 * i + j), t=K(1000 + i + 3 * j))
        x.close()
        return x
    return f


NAMES = [['root.sg.d1', 'root.sg.d10', 'root.sg.d'], ['', '\0', ' '], ['d', 'D', 'd '], ['root.r\u00f6\u00df', 'root.\u20ac', 'root.\U0001f600'], ['a.b', 'a', 'a.b.c'],
         ['`a.b`', '"x y"', "it's"], ['root.**', 'root.*', 'a/b\\c'], ['TsFile', '1', '-1'], ['x' * 64, 'x' * 63, 'x' * 130], ['\t', 'n\n', 'n\r\n'], ['s\0', 's\0\0', 's'],
         ['x' * 300, 'x' * 299, 'yx' * 4100], ['x' * 33000, 'x', 'y' * 66000]]


def awkward(k, shared):
    """names as written here, so that what is done with their text is decided; every path must be told apart from the others"""
    def f(F):
        ns = [STR(n) for n in NAMES[k]]
        ss = ns if shared else [STR('m'), STR('n'), STR('o')]
        ds = ns if shared else ns
        x = Ctx(F, 'names, %s%s' % ([n if len(n) < 12 else n[:4] + '...' for n in NAMES[k]], ', series of the same names' if shared else ''),
                [Dev(d, [(s, TYPES[(i + j) % 3], 'PLAIN', COMPS[j % 2]) for j, s in enumerate(ss[:3 - i])]) for i, d in enumerate(ds)], murmur='table', small=False)
        for r in range(2):
            for i, d in enumerate(x.devices):
                for j, s in enumerate(d.series):
                    x.write(d.name, s[0], s[1], 0, const_of(s[1], 5 * r + 3 * i + j), t=K(100 * r + 10 * i + j))
                    x.write(d.name, s[0], s[1], 0, const_of(s[1], 9 * r + i + j), t=K(100 * r + 10 * i + j + 50))
            x.write(x.devices[1].name, x.devices[0].series[2][0], 'INT32', 0, K(1), t=K(300 + 50 * r), accepted=False)
            if r == 0:
                x.flush()
        x.close()
        return x
    REG.append(('names/%d%s' % (k, ' shared' if shared else ''), 'thorough' if shared and any(len(n) > 5000 for n in NAMES[k]) else 'quick', [], f, {}))


for k in range(len(NAMES)):
    awkward(k, False)
    awkward(k, True)


for nd, ns, tier, props in ((1, 257, 'quick', ['P08 P14 P21 P06 P15']), (257, 1, 'thorough', ['P08']), (2, 260, 'thorough', ['P08']), (20, 3, 'quick', []), (130, 1, 'quick', ['P08 P14 P21 P06 P15'])):
    REG.append(('many/%d devices of %d series' % (nd, ns), tier, props, crowd(nd, ns), {'only': props[0]} if props else {}))

REG.sort(key=lambda e: not e[0].startswith('many/'))     # the long ones first
