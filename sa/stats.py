"""Statistics: one step of accumulation and of merging, from an arbitrary state."""
from scen import *
from scen import same, approx
from modular import items, panics
import reader
import terms
from limits import rsym

FIELDS = ('ts_first', 'ts_last', 'min_value', 'max_value', 'first_value', 'last_value', 'count', 'sum_value')


def anyint(name, w):
    s = sym('%s:%s' % (name, w), ('int', w))
    return s


class Acc:
    """what a statistics object holding an unknown number of points stands for"""
    def __init__(self, ty, tag, after=None):
        v, kind, w = VT[ty]
        self.n = rsym('n' + tag, 1, 2**30)
        if after is None:
            self.t0 = rsym('first time' + tag, 0, 2**60, 'i64')
        else:
            self.t0 = add(after, rsym('gap' + tag, 1, 2**60, 'i64'))
        self.t1 = add(self.t0, rsym('span' + tag, 0, 2**60, 'i64'))
        if kind == 'int':
            lim = 2**30 if ty == 'INT32' else 2**62
            self.mn = sym('min%s:near %s' % (tag, w), ('int', w))
            terms.BOUND[self.mn] = (-lim, lim)
            self.mx = add(self.mn, rsym('width' + tag, 0, lim // 2, 'i64'))
            self.first, self.last = anyint('first' + tag, w), anyint('last' + tag, w)
        else:
            self.mn, self.mx, self.first, self.last = [sym('%s%s:%s' % (k, tag, w), (kind, w)) for k in ('min', 'max', 'first', 'last')]
        if ty == 'INT32':
            self.sum = sym('sum%s:i64' % tag, ('int', 'i64'))
            terms.BOUND[self.sum] = (-2**62, 2**62)
        else:
            self.sum = sym('sum%s:f64' % tag, ('float', 'f64'))

    def into(self, F, s):
        """the abstract object"""
        name = 'StatisticsStruct'
        if s.op == 'adt' and s.a[0] != name and len(s.a) == 3:
            return adt(s.a[0], s.a[1], self.into(F, s.a[2]))
        return setf(F, s, **dict(zip(FIELDS, (self.t0, self.t1, self.mn, self.mx, self.first, self.last, self.n, self.sum))))


CASES = {'below the minimum': (2, 4, 0), 'the minimum': (0, 4, 0), 'within': (0, 4, 2), 'the maximum': (0, 4, 4), 'above the maximum': (0, 2, 4),
         'below the only value': (2, 2, 0), 'the only value': (2, 2, 2), 'above the only value': (2, 2, 4)}


def arrange(ty, case, a):
    """minimum, maximum and a new value in a known order (an arbitrary order is what a comparison may be undecided on)"""
    v, kind, w = VT[ty]
    lo, hi, x = CASES[case]
    if kind == 'float':
        out = {}
        for k in (0, 2, 4):
            s = out[k] = sym('value no. %d:%s' % (k, w), (kind, w))
            FRANK[s] = k
    else:
        lim = 2**29 if ty == 'INT32' else 2**61
        b = sym('near value:%s' % w, ('int', w))
        terms.BOUND[b] = (-lim, lim)
        d1, d2 = rsym('first step', 1, lim // 2, 'i64'), rsym('second step', 1, lim // 2, 'i64')
        out = {0: b, 2: add(b, d1), 4: add(add(b, d1), d2)}
    a.mn, a.mx = out[lo], out[hi]
    return out[x]


def blank(F, c, ty):
    return c.call('Statistics', 'new', c.case('TSDataType', ty))


def check(rep, c, F, h, ty, want, ob, what):
    """what is written for the object h, against want"""
    out = c.new(EMPTY)
    r = c.call('Statistics', 'serialize', h, out, trait='Serializable')
    panics(rep, c, ob, what, 'P05')
    if r is None:
        return
    try:
        st = reader.R(c.get(out), sect='statistics').stats(ty)
    except Bad as b:
        rep.add('P05', ob, 'undecided' if b.opaque else 'violation', '%s: %s' % (what, b), 'w')
        return
    pc = c.st.pc
    for k in ('count', 'ts_first', 'ts_last', 'min', 'max', 'first', 'last'):
        g, e = st[k], want[k]
        if ty == 'FLOAT' and k in ('min', 'max', 'first', 'last'):
            e = lift(lambda x: fbits_of('f32', x), e)
        else:
            w = 32 if k == 'count' else 64 if k in ('ts_first', 'ts_last') or ty == 'INT64' else 32
            g, e = strip(g, w), strip(e, w)
        same(g, e, pc, rep, 'P05', '%s/%s' % (ob, k), '%s %s' % (NAMES[k], what))
    g, e = st['sum'], want['sum']
    if ty == 'INT32':
        same(strip(g), e, pc, rep, 'P05', ob + '/sum', 'sum ' + what)
    else:
        if g.op == 'fbits' and sorted(map(id, fsum_terms(g.a[1]))) == sorted(map(id, fsum_terms(e))):
            rep.add('P05', ob + '/sum', 'ok')
        else:
            same(g, fbits_of('f64', e), pc, rep, 'P05', ob + '/sum', 'sum ' + what, norm=approx)


def step(F, ty, empty, case=None):
    ob = '%s, one more point%s%s' % (ty, ', first' if empty else '', ', ' + case if case else '')

    def go(rep):
        c = Client(F)
        summ.install(c.I, 'var')
        I = c.I
        s = blank(F, c, ty)
        a = Acc(ty, '')
        v = sym('v:%s' % VT[ty][2], VT[ty][1:])
        if ty != 'FLOAT':
            terms.BOUND.pop(v, None)
        if case:
            v = arrange(ty, case, a)
        t = rsym('first time', 0, 2**60, 'i64') if empty else add(a.t1, rsym('gap', 1, 2**60, 'i64'))
        h = c.new(s if empty else a.into(F, s))
        r = c.call('Statistics', 'update', h, t, c.new(c.case('IoTDBValue', VT[ty][0], v)))
        if r is None:
            panics(rep, c, ob, 'adding a point to the statistics', 'P05 P15')
            return {}
        conv = v if ty == 'INT32' else I.i2f('f64', v) if ty == 'INT64' else app('f2f', 'f64', v)
        lt_ = (lambda x, y: I.flt(x, y)) if ty == 'FLOAT' else lt
        if empty:
            want = dict(count=K(1), ts_first=t, ts_last=t, min=v, max=v, first=v, last=v, sum=conv)
        else:
            want = dict(count=add(a.n, K(1)), ts_first=a.t0, ts_last=t, min=ite(lt_(v, a.mn), v, a.mn), max=ite(lt_(a.mx, v), v, a.mx),
                        first=a.first, last=v, sum=add(a.sum, v) if ty == 'INT32' else I.fop('fadd', 'f64', a.sum, conv))
        check(rep, c, F, h, ty, want, ob, 'after one more point')
        return {'calls analysed': I.callsites}
    return lambda: items(go)


def merge(F, ty, empty):
    ob = '%s, merged with later points%s' % (ty, ', from nothing' if empty else '')

    def go(rep):
        c = Client(F)
        summ.install(c.I, 'var')
        I = c.I
        s = blank(F, c, ty)
        a = Acc(ty, ' 1')
        b = Acc(ty, ' 2', after=a.t1)
        h = c.new(s if empty else a.into(F, s))
        g = c.new(b.into(F, s))
        r = c.call('Statistics', 'merge', h, g)
        if r is None:
            panics(rep, c, ob, 'merging statistics', 'P05')
            return {}
        lt_ = (lambda x, y: I.flt(x, y)) if ty == 'FLOAT' else lt
        if empty:
            want = dict(count=b.n, ts_first=b.t0, ts_last=b.t1, min=b.mn, max=b.mx, first=b.first, last=b.last, sum=b.sum)
        else:
            want = dict(count=add(a.n, b.n), ts_first=a.t0, ts_last=b.t1, min=ite(lt_(b.mn, a.mn), b.mn, a.mn), max=ite(lt_(a.mx, b.mx), b.mx, a.mx),
                        first=a.first, last=b.last, sum=add(a.sum, b.sum) if ty == 'INT32' else I.fop('fadd', 'f64', a.sum, b.sum))
        check(rep, c, F, h, ty, want, ob, 'after merging')
        return {'calls analysed': I.callsites}
    return lambda: items(go)


def steps(env, rep):
    jobs = []
    for ty in ('INT32', 'INT64', 'FLOAT'):
        for e in (True, False):
            if ty != 'FLOAT' or e:
                jobs.append(('one more point: %s%s' % (ty, ', first' if e else ''), ['P05'], step(env.F, ty, e)))
            if not e:
                for k in CASES:
                    jobs.append(('one more point: %s, %s' % (ty, k), ['P05'], step(env.F, ty, e, k)))
            jobs.append(('merge: %s%s' % (ty, ', from nothing' if e else ''), ['P05'], merge(env.F, ty, e)))
    env.cov['steps of the statistics analysed from an arbitrary state'] = env.pool(rep, jobs)
