"""Abstract interpretation of MIR in the value-numbering domain of terms.py.

Every local and every place reachable from it holds a term.  Control flow is
joined at every block (no path enumeration): where two flows meet, values that
differ become decision diagrams over the branch conditions.  Blocks are visited
in a weak topological order, so a loop stabilises before its exits are visited.
Loops over containers run over the abstract container's entries; a loop whose
trip count the abstract state does not bound is cut off and the result is
reported as undecided, never as a violation.
"""
import os
import re
import struct
from terms import *
import terms
from facts import Facts, Missing, short, INTS


class Undecided(Exception):
    stack = None
    sp = None


class St:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self, pc=None):
        return St(dict(self.mem), self.pc if pc is None else pc)


SEQOPS = ('seq', 'arr', 'str', 'be', 'le', 'repeat', 'slice')


def bytelike(v):
    return all(s.op != 'e' or s.a[0].op not in ('adt', 'tuple', 'map', 'seq', 'ref') for s in segs_of(v))


def mergeval(c, a, b):
    """the value that is a where c holds and b elsewhere"""
    if a is b or b is DEAD:
        return a
    if a is DEAD:
        return b
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.op == b.op:
        if a.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return mk2('adt', a.a[:2], [mergeval(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
        if a.op == 'tuple' and len(a.a) == len(b.a):
            return mk2('tuple', (), [mergeval(c, x, y) for x, y in zip(a.a, b.a)])
        if a.op == 'arr' and len(a.a) == len(b.a):
            return mk2('arr', (), [mergeval(c, x, y) for x, y in zip(a.a, b.a)])
        if a.op == 'clo' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            return mk2('clo', a.a[:1], [mergeval(c, x, y) for x, y in zip(a.a[1:], b.a[1:])])
        if a.op == 'map' and a.a[0] == b.a[0] and len(a.a) == len(b.a) and \
                all(x is y for x, y in zip(a.a[1::2], b.a[1::2])):
            out = []
            for i in range(1, len(a.a)):
                out.append(a.a[i] if i % 2 else mergeval(c, a.a[i], b.a[i]))
            return mk2('map', a.a[:1], out)
        if a.op == 'seq' and len(a.a) == len(b.a) and all(x.op == y.op == 'e' for x, y in zip(a.a, b.a)):
            return seq([e_(mergeval(c, x.a[0], y.a[0])) for x, y in zip(a.a, b.a)])
    if a.op in SEQOPS and b.op in SEQOPS and bytelike(a) and bytelike(b):
        return seqval(altc(c, segs_of(a), segs_of(b)))
    if a.op == 'ite' or b.op == 'ite':
        # keep variants of one enum together
        r = ite(c, a, b)
        return fuse(r)
    return ite(c, a, b)


def mk2(op, pre, xs):
    return terms._mk(op, *(tuple(pre) + tuple(xs)))


_fuse = {}


def fuse(t):
    """merge the leaves of a diagram that are the same variant of the same type"""
    if t.op != 'ite':
        return t
    r = _fuse.get(t)
    if r is not None:
        return r
    ls = leaves(t)
    groups = {}
    for l in ls:
        if l.op == 'adt' and len(l.a) > 2:
            groups.setdefault(('adt',) + l.a[:2] + (len(l.a),), []).append(l)
        elif l.op == 'tuple':
            groups.setdefault(('tuple', len(l.a)), []).append(l)
    r = t
    if any(len(g) > 1 for g in groups.values()) and len(ls) <= 24:
        def guard(s, leafset):
            memo = {}

            def go(x):
                if x.op != 'ite':
                    return B(x in leafset)
                if x in memo:
                    return memo[x]
                m = ite(lit(x.a[0]), go(x.a[1]), go(x.a[2]))
                memo[x] = m
                return m
            return go(s)
        out = None
        done = set()
        for g, mem in groups.items():
            if len(mem) < 2:
                continue
            acc = mem[-1]
            for m in mem[:-1]:
                # condition of m among the members seen so far
                gm = guard(t, {m})
                acc = mergeval(gm, m, acc)
            gs = guard(t, set(mem))
            r = ite(gs, acc, r) if True else r
    _fuse[t] = r
    return r


def restrict_deep(v, pc):
    return restrict(v, pc)


class Frame:
    __slots__ = ('fid', 'fn', 'body')


class Interp:
    def __init__(self, facts, extra=None):
        self.F = facts
        self.extra = extra
        self.nf = 0
        self.panics = []          # (pc, kind, function, span, detail)
        self.notes = []
        self.summaries = {}       # fn key -> python model
        self.unmodelled = {}      # external callee -> count
        self.trace = []           # events recorded by models (external calls of interest)
        self.visited = {}         # fn key -> blocks visited
        self.callsites = 0
        self.maxvisits = 3000
        self.implkeys = None
        self.depth = 0
        self.hash_rev = False     # iterate hash maps in reverse insertion order
        self.logging = bool(os.environ.get('SALOG'))      # whether messages are formatted
        self.ovf = []             # (pc, op, ty, a, b, fn, span) checked arithmetic
        self.frames = []
        self.cursp = ''
        self.assume = []
        self.opaque_methods = {}
        import models
        self.models = models.MODELS
        self.M = models

    # ---------------------------------------------------------------- memory
    def newloc(self, st, v, name='h'):
        self.nf += 1
        loc = (name, self.nf)
        st.mem[loc] = v
        return loc

    def ref(self, loc, path=()):
        return terms._mk('ref', loc, tuple(path))

    def walk(self, v, path, pc=TRUE):
        for p in path:
            if pc is not TRUE and v.op == 'ite':
                v = restrict(v, pc)
            v = self.step(v, p)
        return v

    def step(self, v, p):
        k = p[0]
        if k == 'f':
            return fld(v, p[3] or '?', p[1], p[2], p[4] if len(p) > 4 else None)
        if k == 'i':
            return self.index_any(v, p[1], p[2] if len(p) > 2 else None)
        if k == 'mv':
            return lift(lambda m: m.a[2 + 2 * p[1]] if m.op == 'map' and 2 + 2 * p[1] < len(m.a) else opq('mv'), v)
        if k == 'sl':
            return slice_(v, p[1], p[2])
        raise Undecided('path')

    def index_any(self, v, i, ty=None):
        if i.op != 'ite' and i.op not in ('k', 'bits') and not isk(i):
            def f(s):
                if s.op in ('seq', 'arr') and all(x.op == 'e' for x in segs_of(s)) and len(s.a) <= 64:
                    ss = segs_of(s)
                    r = DEAD
                    for j in range(len(ss) - 1, -1, -1):
                        r = ite(eq(i, K(j)), ss[j].a[0], r)
                    return r
                return index(s, i, ty)
            return lift(f, v)
        return index(v, i, ty)

    def put(self, v, path, x):
        """v with the place at path replaced by x"""
        if not path:
            return x
        p = path[0]
        k = p[0]

        def f(v):
            if v.op == 'dead':
                return v
            if k == 'f':
                if v.op == 'adt':
                    if v.a[1] != p[1]:
                        return DEAD
                    l = list(v.a)
                    l[2 + p[2]] = self.put(l[2 + p[2]], path[1:], x)
                    return terms._mk('adt', *l)
                if v.op == 'tuple':
                    l = list(v.a)
                    l[p[2]] = self.put(l[p[2]], path[1:], x)
                    return terms._mk('tuple', *l)
                if v.op == 'clo':
                    l = list(v.a)
                    l[1 + p[2]] = self.put(l[1 + p[2]], path[1:], x)
                    return terms._mk('clo', *l)
                return opq('write to a field of ' + v.op)
            if k == 'i':
                i = p[1]
                i2 = unbits(i)
                if i2 is not None:
                    i = i2
                if i.op != 'k' and v.op in ('seq', 'arr') and all(s.op == 'e' for s in segs_of(v)) and len(v.a) <= 64:
                    ss = segs_of(v)
                    return seq([e_(mergeval(eq(i, K(j)), self.put(s.a[0], path[1:], x), s.a[0]))
                                for j, s in enumerate(ss)])
                return update(v, i, self.put(self.index_any(v, i), path[1:], x))
            if k == 'mv':
                if v.op != 'map':
                    return opq('map')
                l = list(v.a)
                if 2 + 2 * p[1] >= len(l):
                    return DEAD
                l[2 + 2 * p[1]] = self.put(l[2 + 2 * p[1]], path[1:], x)
                return terms._mk('map', *l)
            if k == 'sl' and len(path) > 1 and path[1][0] == 'i':
                return self.put(v, (('i', add(p[1], path[1][1])),) + tuple(path[2:]), x)
            return opq('write through ' + k)
        # a write under a conditional value distributes over its leaves
        if v.op == 'ite':
            return fuse(lift(f, v))
        return f(v)

    def load(self, st, r):
        """the value a reference points to (identity on plain values)"""
        def f(r):
            if r.op == 'ref':
                loc, path = r.a
                if loc not in st.mem:
                    return opq('dangling')
                return self.walk(st.mem[loc], path, st.pc)
            return r
        v = r
        if r.op == 'ite':
            r = restrict(r, st.pc)
        v = lift(f, r) if r.op == 'ite' else f(r)
        if v.op == 'ite':
            v = restrict(v, st.pc)
            v = fuse(v)
        return v

    def loadd(self, st, r):
        """load through every level of reference"""
        n = 0
        v = self.load(st, r)
        while n < 6 and any(l.op == 'ref' for l in (leaves(v) if v.op == 'ite' else [v])):
            v = self.load(st, v)
            n += 1
        return v

    def store(self, st, r, x):
        def rec(r, cond):
            if r.op == 'ite':
                c = lit(r.a[0])
                rec(r.a[1], and_(cond, c))
                rec(r.a[2], and_(cond, not_(c)))
                return
            if r.op == 'dead' or cond is FALSE:
                return
            if r.op != 'ref':
                self.notes.append('store through %s' % r.op)
                raise Undecided('store through %s' % r.op)
            loc, path = r.a
            old = st.mem.get(loc, DEAD)
            xv = x(self.walk(old, path, st.pc)) if callable(x) else x
            if cond is TRUE:
                st.mem[loc] = self.put(old, path, xv)
            else:
                # only the innermost place is conditional
                cur = self.walk(old, path, st.pc)
                st.mem[loc] = self.put(old, path, mergeval(cond, xv, cur))
        if r.op == 'ite':
            r = restrict(r, st.pc)
        rec(r, TRUE)

    def subref(self, r, p):
        """reference to a component of what r refers to"""
        def f(r):
            if r.op == 'ref':
                return self.ref(r.a[0], r.a[1] + (p,))
            return self.step(r, p)
        return lift(f, r)

    # ---------------------------------------------------------------- states
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        pc = or_(a.pc, b.pc)
        c = restrict(a.pc, pc)
        if c is TRUE:
            # overlapping flows (both may happen): keep them apart if possible
            c = restrict(not_(restrict(b.pc, pc)), pc)
            if c is FALSE:
                return a
        mem = dict(a.mem)
        for k, y in b.mem.items():
            x = mem.get(k)
            if x is None:
                mem[k] = y
            elif x is not y:
                mem[k] = mergeval(c, x, y)
        return St(mem, pc)

    def joinv(self, outs):
        """[(value, state)] -> (value, state)"""
        outs = [o for o in outs if o is not None and o[1] is not None and o[1].pc is not FALSE]
        if not outs:
            return None
        loc = ('tmpv', 0)
        acc = None
        for v, s in outs:
            s.mem[loc] = v
            acc = self.merge(acc, s)
        v = acc.mem.pop(loc)
        return v, acc

    def branch(self, st, c):
        c = restrict(c, st.pc)
        if c.opq:
            raise Undecided('branch on an unknown value')
        if c is TRUE:
            return st, None
        if c is FALSE:
            return None, st
        p1 = and_(st.pc, c)
        p0 = and_(st.pc, not_(c))
        s1 = st.copy(p1) if p1 is not FALSE else None
        s0 = st.copy(p0) if p0 is not FALSE else None
        return s1, s0

    # ---------------------------------------------------------------- control flow order
    def wto(self, fn):
        b = fn['body']
        if '_wto' in b:
            return b['_wto']
        blocks = b['blocks']
        n = len(blocks)
        succ = [self.succs(bl['t']) for bl in blocks]
        # Bourdoncle's weak topological order
        dfn = [0] * n
        num = [0]
        stack = []
        import sys

        def component(v):
            part = []
            for w in succ[v]:
                if dfn[w] == 0:
                    visit(w, part)
            part.insert(0, v)
            return part

        def visit(v, part):
            stack.append(v)
            num[0] += 1
            dfn[v] = num[0]
            head = num[0]
            loop = False
            for w in succ[v]:
                if dfn[w] == 0:
                    m = visit(w, part)
                else:
                    m = dfn[w]
                if m <= head:
                    head = m
                    loop = True
            if head == dfn[v]:
                dfn[v] = 10**9
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    part.insert(0, component(v))
                else:
                    part.insert(0, v)
            return head
        part = []
        visit(0, part)
        order = {}
        loops = []

        def flat(p):
            for x in p:
                if isinstance(x, list):
                    loops.append(x[0])
                    flat(x)
                else:
                    order[x] = len(order)
        flat(part)
        b['_wto'] = (order, loops)
        return b['_wto']

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []

    # ---------------------------------------------------------------- functions
    def run(self, fn, args, st):
        """(return value, state) or None when no execution returns"""
        if isinstance(fn, str):
            fn = self.F.fns[fn]
        key = fn['key']
        if self.depth > 60:
            raise Undecided('recursion')
        body = fn['body']
        self.nf += 1
        fid = self.nf
        self.visited.setdefault(key, set())
        order, loops = self.wto(fn)
        for i, a in enumerate(args):
            st.mem[('l', fid, i + 1)] = a
        pend = {0: st}
        ret = None
        visits = 0
        self.depth += 1
        self.frames.append(key)
        try:
            while pend:
                b = min(pend, key=lambda x: order.get(x, 10**6))
                s = pend.pop(b)
                visits += 1
                if visits > self.maxvisits:
                    raise Undecided('loop in %s not bounded by the abstract state' % fn['p'])
                self.visited[key].add(b)
                for t, s2 in self.block(fn, fid, b, s):
                    if s2 is None or s2.pc is FALSE:
                        continue
                    if t == 'ret':
                        ret = self.merge(ret, s2)
                    else:
                        pend[t] = self.merge(pend.get(t), s2)
        except Undecided as e:
            if e.stack is None:
                e.stack = list(self.frames)
                e.sp = self.cursp
            raise
        finally:
            self.depth -= 1
            self.frames.pop()
        if ret is None:
            return None
        v = ret.mem.get(('l', fid, 0), UNIT)
        for k in [k for k in ret.mem if k[0] == 'l' and k[1] == fid]:
            del ret.mem[k]
        if v.op == 'ite':
            v = fuse(restrict(v, ret.pc))
        return v, ret

    def block(self, fn, fid, b, st):
        bl = fn['body']['blocks'][b]
        for s in bl['s']:
            if s[0] == '=':
                v = self.rvalue(fn, fid, st, s[2], s[3] if len(s) > 3 else '')
                self.assign(fn, fid, st, s[1], v)
            elif s[0] == 'setdiscr':
                raise Undecided('set discriminant')
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            return self.switch(fn, fid, st, t)
        if k == 'assert':
            return self.assertion(fn, fid, st, t, bl['sp'])
        if k == 'call':
            return self.callterm(fn, fid, st, t, bl)
        if k in ('unreachable', 'diverge'):
            return []
        raise Undecided('terminator ' + k)

    def switch(self, fn, fid, st, t):
        v = self.operand(fn, fid, st, t[1])
        v = restrict(v, st.pc)
        if v.opq:
            raise Undecided('branch on an unknown value in %s: %s' % (fn['p'], show(v)[:300]))
        out = []
        rest = st
        ty = self.F.tyof(t[4])
        for val, tgt in t[2]:
            if rest is None:
                break
            if ty == ('bool',):
                c = asb(v) if val else not_(asb(v))
            else:
                val2 = self.signed(val, ty)
                c = eq(v, K(val2))
            s1, rest = self.branch(rest, c)
            if s1 is not None:
                out.append((tgt, s1))
        if rest is not None and t[3] is not None:
            out.append((t[3], rest))
        return out

    def signed(self, val, ty):
        if ty[0] == 'int' and ty[1][0] == 'i':
            w = WIDTH[ty[1]]
            if val >> (w - 1):
                return val - (1 << w)
        return val

    def assertion(self, fn, fid, st, t, sp):
        c = self.operand(fn, fid, st, t[1])
        if not t[2]:
            c = not_(asb(c))
        else:
            c = asb(c)
        c = restrict(c, st.pc)
        if c.opq:
            return [(t[5], st)]       # the check is assumed to pass; not decidable here
        s1, s0 = self.branch(st, c)
        if s0 is not None:
            self.panics.append((s0.pc, t[3], fn['p'], sp, None))
        return [(t[5], s1)] if s1 is not None else []

    # ---------------------------------------------------------------- places
    def baseref(self, fn, fid, st, place):
        """reference term for a place"""
        l = place[0]
        r = self.ref(('l', fid, l))
        var = 0
        cur = fn['body']['locals'][l][0]
        for p in place[1:]:
            k = p[0]
            if k == 'd':
                t = self.F.types[cur] if cur is not None else None
                if t is not None and t['k'] == 'adt':
                    cur = t['a'][0] if t['a'] and isinstance(t['a'][0], int) else None   # a box is its content
                else:
                    r = self.load_nofuse(st, r)
                    cur = t.get('e') if t is not None else None
            elif k == 'v':
                var = p[1]
            elif k == 'f':
                key = None
                if cur is not None:
                    t = self.F.types[cur]
                    key = short(t['key']) if t['k'] == 'adt' else t['k']
                r = self.subref(r, ('f', var, p[1], key, self.F.tyof(p[3])))
                cur = p[3]
                var = 0
            elif k == 'i':
                i = self.load(st, self.ref(('l', fid, p[1])))
                r = self.subref(r, ('i', i, self.elemty(cur)))
                cur = self.F.types[cur].get('e') if cur is not None else None
            elif k == 'ci':
                n, minlen, fromend = p[1], (p[2] if len(p) > 2 else 0), (p[3] if len(p) > 3 else False)
                if fromend:
                    L = length(self.load(st, r))
                    i = sub(L, K(n))
                else:
                    i = K(n)
                r = self.subref(r, ('i', i, self.elemty(cur)))
                cur = self.F.types[cur].get('e') if cur is not None else None
            else:
                raise Undecided('projection ' + k)
        return r

    def elemty(self, cur):
        if cur is None:
            return None
        e = self.F.types[cur].get('e')
        return self.F.tyof(e) if e is not None else None

    def load_nofuse(self, st, r):
        return self.load(st, r)

    def assign(self, fn, fid, st, place, v):
        if len(place) == 1:
            st.mem[('l', fid, place[0])] = v
            return
        r = self.baseref(fn, fid, st, place)
        self.store(st, r, v)

    def operand(self, fn, fid, st, op):
        k = op[0]
        if k in ('cp', 'mv'):
            pl = op[1]
            if len(pl) == 1:
                v = st.mem.get(('l', fid, pl[0]))
                if v is None:
                    return opq('uninitialised local')
                if v.op == 'ite':
                    v = restrict(v, st.pc)
                return v
            return self.load(st, self.baseref(fn, fid, st, pl))
        return self.const(op[1], st)

    def const(self, c, st):
        if 'fn' in c:
            t = terms._mk('fn', c['fn']['key'], c['fn'].get('rk') or '')
            FNS[t] = c['fn']
            return t
        if 'prom' in c:
            return self.promoted(c, st)
        ty = self.F.tyof(c['t'])
        if 'cst' not in c:
            return opq('constant')
        k = self.F.consts[c['cst']]
        if 'bits' in k:
            n = k['bits']
            if ty[0] == 'int':
                return K(self.signed(n, ty))
            if ty == ('bool',):
                return B(n)
            if ty[0] == 'float':
                return FL(ty[1], n)
            if ty == ('char',):
                return K(n)
            if ty[0] == 'adt':
                a = self.F.adts.get(ty[1])
                if a:
                    for i, v in enumerate(a['v']):
                        if v['d'] == n and not v['f']:
                            return adt(ty[1], i)
                if a and a['kind'] == 'struct' and len(a['v'][0]['f']) == 1:
                    f = a['v'][0]['f'][0]
                    if f[1] is not None:
                        return adt(ty[1], 0, K(self.signed(n, self.F.tyof(f[1]))))
            return opq('constant bits')
        if 'str' in k:
            return STR(k['str'])
        if 'refarr' in k or 'arr' in k:
            return terms._mk('arr', *[K(x) for x in k.get('refarr', k.get('arr'))])
        if 'zst' in k:
            t = self.F.types[c['t']]
            if t['k'] == 'adt':
                return adt(short(t['key']), 0)
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'array':
                return terms._mk('arr')
            if t['k'] == 'closure':
                return terms._mk('clo', t.get('key') or t.get('p'))
            if t['k'] == 'fndef':
                return opq('fndef')
            return UNIT
        return opq('constant')

    def promoted(self, c, st):
        f = self.F.fns.get(c['of'])
        if f is None:
            return opq('promoted')
        pb = f['prom'][c['prom']]
        if 'body' in pb:
            pb = pb['body']
        key = c['of'] + '#prom%d' % c['prom']
        fake = {'key': key, 'p': key, 'body': pb, 'prom': f['prom']}
        r = self.run(fake, [], St({}, TRUE))
        if r is None:
            return opq('promoted')
        v, s = r
        # promoted constants are values; references into them are the values themselves
        if v.op == 'ref':
            # the local has been dropped: re-evaluate keeping it
            self.nf += 1
            fid = self.nf
            s = St({}, TRUE)
            for st_ in pb['blocks'][0]['s']:
                self.assign(fake, fid, s, st_[1], self.rvalue(fake, fid, s, st_[2], ''))
            v = s.mem[('l', fid, 0)]
            for _ in range(4):
                if v.op == 'ref':
                    v = self.load(s, v)
        return v

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fn, fid, st, rv, sp):
        k = rv[0]
        if k == 'use':
            return self.operand(fn, fid, st, rv[1])
        if k == 'ref':
            return self.baseref(fn, fid, st, rv[2])
        if k == 'addr' or k == 'rawptr':
            return self.baseref(fn, fid, st, rv[2] if len(rv) > 2 else rv[1])
        if k == 'bin':
            a = self.operand(fn, fid, st, rv[2])
            b = self.operand(fn, fid, st, rv[3])
            return self.binop(rv[1], a, b, self.F.tyof(rv[4]), st, fn, sp)
        if k == 'un':
            a = self.operand(fn, fid, st, rv[2])
            ty = self.F.tyof(rv[3])
            if rv[1] == 'Not':
                if ty == ('bool',):
                    return not_(asb(a))
                return self.bnot(ty[1], a)
            if rv[1] == 'Neg':
                if ty[0] == 'float':
                    return app('fneg', ty[1], a)
                return scale(a, -1)
            if rv[1] == 'PtrMetadata':
                v = self.loadd(st, a)
                return self.length(v)
            raise Undecided('unary ' + rv[1])
        if k == 'len':
            return self.length(self.loadd(st, self.baseref(fn, fid, st, rv[1])))
        if k == 'discr':
            r = self.baseref(fn, fid, st, rv[1])
            v = self.load(st, r)
            for _ in range(2):
                if v.op == 'ref':
                    v = self.load(st, v)
            return self.discr(v, rv[2])
        if k == 'cast':
            v = self.operand(fn, fid, st, rv[2])
            return self.cast(rv[1], v, rv[3], rv[4])
        if k == 'agg':
            ops = [self.operand(fn, fid, st, o) for o in rv[2]]
            if rv[1] == 'tuple':
                return tup(*ops)
            if rv[1] == 'array':
                return terms._mk('arr', *ops)
            if rv[1] == 'adt':
                return adt(short(rv[3]), rv[4], *ops)
            if rv[1] == 'closure':
                return terms._mk('clo', rv[3], *ops)
        if k == 'repeat':
            n = rv[2]
            v = self.operand(fn, fid, st, rv[1])
            if isinstance(n, int) and n <= 4096:
                return terms._mk('arr', *([v] * n))
        raise Undecided('rvalue %s' % k)

    def length(self, v):
        def f(v):
            if v.op == 'map':
                return K((len(v.a) - 1) // 2)
            return length(v)
        return lift(f, v)

    def discr(self, v, tyi):
        t = self.F.types[tyi]
        key = short(t['key']) if t['k'] == 'adt' else None
        a = self.F.adts.get(key) if key else None
        nv = len(a['v']) if a else NVAR.get(key, 0)
        if key == 'Ordering':
            return lift(lambda v: K(v.a[1] - 1) if v.op == 'adt' else opq('ordering'), v)

        def f(v):
            if v.op == 'adt':
                if a:
                    return K(a['v'][v.a[1]]['d'])
                return K(v.a[1])
            if v.op == 'dead':
                return v
            if v.op in ('opq',):
                return opq('discr')
            if not nv:
                return opq('discr')
            r = None
            for i in range(nv - 1, -1, -1):
                d = K(a['v'][i]['d'] if a else i)
                r = d if r is None else ite(isv(v, i, nv), d, r)
            return r
        return lift(f, v)

    def bnot(self, ty, a):
        w = WIDTH[ty]

        def f(a):
            if a.op == 'bits':
                return bits_not(ty, a)
            # !x == -x - 1
            return wrap(ty, sub(scale(a, -1), K(1)))
        return lift(f, a)

    def binop(self, op, a, b, ty, st=None, fn=None, sp=''):
        if ty[0] == 'float':
            return self.fbin(op, a, b, ty[1])
        if op in ('Eq', 'Ne'):
            if ty == ('bool',):
                r = ite(asb(a), asb(b), not_(asb(b)))
            else:
                if st is not None and (a.op == 'ref' or b.op == 'ref') and not (a.op == b.op == 'ref'):
                    a, b = self.loadd(st, a), self.loadd(st, b)
                r = eq(a, b)
            return r if op == 'Eq' else not_(r)
        if ty == ('bool',):
            a, b = asb(a), asb(b)
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            if op == 'BitXor':
                return ite(a, not_(b), b)
            if op in ('Lt',):
                return and_(not_(a), b)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if ty[0] != 'int':
            return opq('binop on ' + str(ty))
        t = ty[1]
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            m = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            ov = self.overflow(m, t, op[0], a, b)
            if ov is None:
                self.ovf.append((st.pc if st else TRUE, op[:3], t, a, b, fn['p'] if fn else '', sp))
                ov = FALSE
            return tup(self.typed(m, t), ov)
        if op == 'Add' or op == 'AddUnchecked':
            return wrap(t, add(a, b))
        if op == 'Sub' or op == 'SubUnchecked':
            return wrap(t, sub(a, b))
        if op == 'Mul' or op == 'MulUnchecked':
            return wrap(t, mul(a, b))
        if op == 'Div':
            return self.typed(div(a, b), t)
        if op == 'Rem':
            return self.typed(rem(a, b), t)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return bitop(op[3:].lower(), t, a, b)
        if op in ('Shl', 'ShlUnchecked'):
            return shl(t, a, b)
        if op in ('Shr', 'ShrUnchecked'):
            return shr(t, a, b)
        raise Undecided('binary ' + op)

    def typed(self, m, t):
        return m

    def overflow(self, m, t, op='', a=None, b=None):
        """TRUE/FALSE when known, None otherwise"""
        lo, hi = INT_RANGE[t]
        if op == 'M' and not a.opq and not b.opq and a.op != 'ite' and b.op != 'ite':
            r, q = rng(unbits(a) or a), rng(unbits(b) or b)
            if r and q and all(lo <= x * y <= hi for x in r for y in q):
                return FALSE

        def f(m):
            m = unbits(m) or m
            r = rng(m)
            if r is not None:
                if lo <= r[0] and r[1] <= hi:
                    return FALSE
                if r[1] < lo or r[0] > hi:
                    return TRUE
            return terms._mk('opq', 'ovf', 0)
        r = lift(f, m)
        return None if r.opq else r

    def fbin(self, op, a, b, w):
        if op == 'Lt':
            return self.flt(a, b)
        if op == 'Gt':
            return self.flt(b, a)
        if op == 'Le':
            return self.fle(a, b)
        if op == 'Ge':
            return self.fle(b, a)
        if op == 'Eq':
            return self.feq(a, b)
        if op == 'Ne':
            return not_(self.feq(a, b))
        return self.fop('f' + op.lower(), w, a, b)

    def cast(self, kind, v, tyi, fromi):
        to, fr = self.F.tyof(tyi), self.F.tyof(fromi)
        if kind == 'IntToInt':
            if fr == ('bool',):
                return ite(asb(v), K(1), K(0))
            if to == ('char',):
                return v
            if fr[0] == 'adt':
                return wrap(to[1], self.discr(v, fromi))
            if to[0] == 'int':
                if fr[0] == 'int':
                    v = self.unsign(v, fr[1], to[1])
                return wrap(to[1], v)
        if kind == 'IntToFloat':
            return self.i2f(to[1], v)
        if kind == 'FloatToFloat':
            return self.f2f(fr[1], to[1], v)
        if kind == 'FloatToInt':
            return self.f2i(v, to[1])
        if kind.startswith('ptr') or kind in ('PtrToPtr', 'Transmute'):
            return v
        raise Undecided('cast ' + kind)

    def f2i(self, v, t):
        def f(v):
            x = self.fconst(v)
            if x is not None:
                lo, hi = INT_RANGE[t]
                if x != x:
                    return K(0)
                return K(lo if x <= lo else hi if x >= hi else int(x))
            r = terms._mk('f2i', t, v)
            TYPEOF.setdefault(r, ('int', t))
            return r
        return lift(f, v)

    def unsign(self, v, fr, to):
        return v

    # ---------------------------------------------------------------- calls
    def fresh_id(self):
        self.nf += 1
        return self.nf

    def require(self, st, cond, kind):
        """continue where cond holds; elsewhere the program panics"""
        c = restrict(cond, st.pc)
        if c.opq:
            return st
        s1, s0 = self.branch(st, c)
        if s0 is not None:
            self.panics.append((s0.pc, kind, self.frames[-1] if self.frames else '', self.cursp, None))
        return s1

    def default(self, tyi, st):
        t = self.F.tyof(tyi)
        if t[0] == 'int':
            return K(0)
        if t[0] == 'bool':
            return FALSE
        if t[0] == 'float':
            return FL(t[1], 0)
        if t[0] == 'tuple':
            return tup(*[self.default(x, st) for x in t[1:]])
        if t[0] == 'adt':
            k = t[1]
            if k in ('alloc::vec::Vec', 'alloc::string::String'):
                return EMPTY
            if k == 'Option':
                return NONE
            if k == 'alloc::collections::btree::map::BTreeMap':
                return self.M.mkmap('btree', [])
            if k == 'std::collections::hash::map::HashMap':
                return self.M.mkmap('hash', [])
            key = self.F.trait_impl.get(('core::default::Default::default', k))
            if key and key in self.F.fns:
                r = self.run(key, [], St({}, TRUE))
                if r is not None:
                    return r[0]
        if t[0] in ('ref', 'str'):
            return EMPTY
        raise Undecided('default value of ' + str(t))

    def callterm(self, fn, fid, st, t, bl):
        callee, argops, dest, target, sp = t[1], t[2], t[3], t[4], t[5]
        argty = t[6] if len(t) > 6 else None
        args = [self.operand(fn, fid, st, o) for o in argops]
        self.cursp = sp
        self.callsites += 1
        if callee[0] == 'c' and 'fn' in callee[1]:
            c = dict(callee[1]['fn'])
            c['argty'] = argty
            r = self.callfn_c(c, args, st)
        else:
            f = self.operand(fn, fid, st, callee)
            r = self.callfn(f, args, st)
        if r is None:
            return []
        v, s = r
        if target is None or s is None or s.pc is FALSE:
            return []
        self.assign(fn, fid, s, dest, v)
        return [(target, s)]

    def callfn(self, f, args, st, fref=None):
        """call a closure or function value"""
        if f.op == 'ref':
            return self.callfn(self.load(st, f), args, st, f)
        if f.op == 'clo':
            fn = self.F.fns.get(f.a[0])
            if fn is None:
                raise Undecided('closure without a body')
            t = self.F.types[fn['body']['locals'][1][0]]
            if t['k'] == 'ref':
                if fref is None:
                    fref = self.ref(self.newloc(st, f, 'clo'))
                env = fref
            else:
                env = f
            return self.run(fn, [env] + args, st)
        if f.op == 'fn':
            c = dict(FNS[f])
            c.setdefault('argty', None)
            return self.callfn_c(c, args, st)
        if f.op == 'ite':
            return self.M.perleaf(self, st, f, lambda g, s: self.callfn(g, args, s))
        if f.op == 'pyfn':
            return PYFNS[f](self, st, args)
        raise Undecided('call of an unknown function value (%s)' % f.op)

    def callfn_c(self, c, args, st):
        key = c.get('rk') or c['key']
        for kk in (key, c['key']):
            if kk in self.summaries:
                r = self.summaries[kk](self, st, args, c)
                if r is not NotImplemented:
                    return r
        if not c.get('virt') and key in self.F.fns and 'body' in self.F.fns[key] and (c.get('rk') or not c.get('trait')):
            return self.run(self.F.fns[key], args, st)
        # a method of a trait of the analysed program on a value: dispatch on what the value is
        if c.get('trait') and args:
            r = self.dispatch(c, args, st)
            if r is not NotImplemented:
                return r
        # tuple-struct or variant constructor
        if c.get('ctor'):
            return adt(short(c['ctor'][0]), c['ctor'][1], *args), st
        for p in (c.get('rp'), c['p']):
            if not p:
                continue
            for n in self.M.norm(p, c.get('trait')):
                m = self.models.get(n)
                if m is not None:
                    if '<' not in n and m is self.models.get('Write::write_all'):
                        pass
                    c2 = c if c['p'] == p else dict(c, p=p)
                    try:
                        r = m(self, st, args, c2)
                    except self.M.Und as e:
                        raise Undecided(str(e))
                    if r is None or isinstance(r, tuple):
                        return r
        r = self.ctor(c, args)
        if r is not None:
            return r, st
        return self.unknown(c, args, st)

    def ctor(self, c, args):
        """enum variant or tuple struct used as a function"""
        p = c['p'].split('::')
        name = c['n']
        ret = c.get('ret')
        if ret is None:
            return None
        t = self.F.types[ret]
        if t['k'] != 'adt':
            return None
        k = short(t['key'])
        a = self.F.adts.get(k)
        if k == 'Option' and name == 'Some':
            return some(args[0])
        if k == 'Result' and name in ('Ok', 'Err'):
            return (ok if name == 'Ok' else err)(args[0])
        if a and re.sub(r'<.*', '', c['p']).startswith(a['p'].split('<')[0]):
            for i, v in enumerate(a['v']):
                if v['n'] == name and len(v['f']) == len(args):
                    return adt(k, i, *args)
        return None

    def dispatch(self, c, args, st):
        tk = c['key']
        if self.implkeys is None:
            self.implkeys = {k[0] for k in self.F.trait_impl}
        has_impl = tk in self.implkeys
        default = self.F.fns.get(tk)
        if not has_impl and not (default and 'body' in default):
            return NotImplemented
        v = self.loadd(st, args[0])
        ls = leaves(v) if v.op == 'ite' else [v]
        keys = {self.valkey(l) for l in ls}

        def one(l, s):
            k = self.valkey(l)
            f = self.F.trait_impl.get((tk, k)) if k else None
            if f is None and k in ('alloc::vec::Vec',):
                f = self.F.trait_impl.get((tk, k))
            if f and f in self.F.fns and 'body' in self.F.fns[f]:
                a0 = args[0]
                while a0.op == 'ref' and self.load(s, a0).op == 'ref':
                    a0 = self.load(s, a0)
                return self.run(self.F.fns[f], [a0] + list(args[1:]), s)
            if k and self.implements(k, c.get('trait')) and default and 'body' in default:
                a0 = args[0]
                while a0.op == 'ref' and self.load(s, a0).op == 'ref':
                    a0 = self.load(s, a0)
                return self.run(default, [a0] + list(args[1:]), s)
            return self.special(c, l, args, s)
        if len(keys) == 1:
            return one(ls[0], st)
        return self.M.perleaf(self, st, v, one)

    def implements(self, k, trait):
        for im in self.F.impls:
            if self.F.selfkey(im['self']) == k and im['trait'].split('<')[0].endswith((trait or '?').split('<')[0].split('::')[-1]):
                return True
        return False

    def valkey(self, v):
        if v.op == 'adt':
            return v.a[0]
        if v.op in ('seq', 'arr', 'str', 'be', 'le'):
            return 'alloc::vec::Vec'
        t = TYPEOF.get(v)
        if t and t[0] == 'adt':
            return t[1]
        return None

    def special(self, c, v, args, st):
        """trait methods on the analysis' own objects"""
        n = c['n']
        if v.op == 'adt' and v.a[0] == 'Sink':
            if n == 'get_position':
                return add(v.a[2], length(v.a[3])), st
            m = self.models.get('Write::' + n)
            if m:
                return m(self, st, args, c)
        if v.op == 'adt' and v.a[0] in ('ShortSink', 'FailSink'):
            if n == 'get_position' and v.a[0] == 'FailSink':
                return length(v.a[2]), st
            m = self.models.get('Write::' + n)
            if m:
                return m(self, st, args, c)
        if v.op == 'adt' and v.a[0] == 'Opaque':
            # an object of an abstract type: its methods are uninterpreted functions of it
            m = self.opaque_methods.get(n)
            if m:
                return m(self, st, args, v)
        return NotImplemented

    def unknown(self, c, args, st):
        p = c.get('rp') or c['p']
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        # everything reachable through a mutable reference may change
        for i, a in enumerate(args):
            ty = c['argty'][i] if c.get('argty') and i < len(c['argty']) else None
            t = self.F.types[ty] if ty is not None else None
            if a.op == 'ref' and (t is None or (t['k'] == 'ref' and t.get('m') in (True, 'm'))):
                try:
                    self.store(st, a, opq('changed by ' + p))
                except Undecided:
                    pass
        return opq(p), st

    # ---------------------------------------------------------------- floats
    def fconst(self, t):
        if t.op != 'f':
            return None
        if t.a[0] == 'f32':
            return struct.unpack('>f', struct.pack('>I', t.a[1]))[0]
        return struct.unpack('>d', struct.pack('>Q', t.a[1]))[0]

    def mkf(self, w, x):
        if w == 'f32':
            import ctypes
            return FL('f32', struct.unpack('>I', struct.pack('>f', ctypes.c_float(x).value))[0])
        return FL('f64', struct.unpack('>Q', struct.pack('>d', x))[0])

    def ftyped(self, t, w):
        if t.op not in ('ite', 'f'):
            TYPEOF.setdefault(t, ('float', w))
        return t

    def flt(self, a, b):
        def f(a, b):
            x, y = self.fconst(a), self.fconst(b)
            if x is not None and y is not None:
                return B(x < y)
            if a is b:
                return FALSE
            if a in FRANK and b in FRANK:
                return B(FRANK[a] < FRANK[b])
            return lit(terms._mk('flt', a, b))
        return lift(f, a, b)

    def fle(self, a, b):
        def f(a, b):
            x, y = self.fconst(a), self.fconst(b)
            if x is not None and y is not None:
                return B(x <= y)
            if a in FRANK and b in FRANK:
                return B(FRANK[a] <= FRANK[b])
            return lit(terms._mk('fle', a, b))
        return lift(f, a, b)

    def feq(self, a, b):
        def f(a, b):
            x, y = self.fconst(a), self.fconst(b)
            if x is not None and y is not None:
                return B(x == y)
            if a in FRANK and b in FRANK:
                return B(FRANK[a] == FRANK[b])
            if b.id < a.id:
                a, b = b, a
            return lit(terms._mk('feq', a, b))
        return lift(f, a, b)

    def fop(self, op, w, a, b):
        def f(a, b):
            x, y = self.fconst(a), self.fconst(b)
            if x is not None and y is not None:
                try:
                    r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y,
                         'fmax': lambda: max(x, y), 'fmin': lambda: min(x, y)}[op]()
                    return self.mkf(w, r)
                except (KeyError, ZeroDivisionError, OverflowError):
                    pass
            if op in ('fmax', 'fmin') and a in FRANK and b in FRANK:
                return a if (FRANK[a] > FRANK[b]) == (op == 'fmax') else b
            if op in ('fadd', 'fmul', 'fmax', 'fmin') and b.id < a.id:
                a, b = b, a
            return self.ftyped(terms._mk(op, w, a, b), w)
        return lift(f, a, b)

    def ffun(self, name, w, a):
        def f(a):
            x = self.fconst(a)
            if x is not None:
                import math
                try:
                    g = {'ln': math.log, 'sqrt': math.sqrt, 'floor': math.floor, 'ceil': math.ceil, 'abs': abs, 'trunc': math.trunc,
                         'round': lambda x: math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2**52 and abs(x) != 0.49999999999999994 else abs(x) if abs(x) >= 2**52 else 0, x),
                         'exp': math.exp, 'log2': math.log2, 'log10': math.log10}.get(name)
                    if g:
                        return self.mkf(w, float(g(x)))
                except (ValueError, OverflowError):
                    pass
            return self.ftyped(terms._mk('f_' + name, w, a), w)
        return lift(f, a)

    def i2f(self, w, v):
        def f(v):
            v = unbits(v) or v
            if isk(v):
                return self.mkf(w, float(v.a[0]) if w == 'f64' else v.a[0])
            return self.ftyped(terms._mk('i2f', w, v), w)
        return lift(f, v)

    def f2f(self, fr, to, v):
        if fr == to:
            return v

        def f(v):
            x = self.fconst(v)
            if x is not None:
                return self.mkf(to, x)
            return self.ftyped(terms._mk('f2f', to, v), to)
        return lift(f, v)


FNS = {}
PYFNS = {}
