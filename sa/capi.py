"""P16: path-wise ownership analysis of the C interface.

Every path through an exported function is followed (helpers inlined).  Raw pointer arguments belong to the caller
until Box::from_raw; a box is freed when its owner is dropped, released by into_raw, leak or forget."""
from facts import *
from rules import callee, plain, istest

MOVED = ('moved',)


class Und(Exception):
    pass


class Bad(Exception):
    pass


class S:
    """one path"""
    def __init__(self):
        self.conds = []          # numeric conditions of the path: (value, taken, the others)
        self.status = {}         # object -> caller / owned / released / freed
        self.nonnull = {}        # param -> True / False
        self.calls = []          # calls into the library
        self.n = 0
        self.freed = []

    def copy(self):
        o = S()
        o.conds = list(self.conds)
        o.status, o.nonnull, o.calls, o.n, o.freed = dict(self.status), dict(self.nonnull), list(self.calls), self.n, list(self.freed)
        return o


RANGE = {'%s%d' % (c, w): (0, 2**w - 1) if c == 'u' else (-2**(w - 1), 2**(w - 1) - 1) for c in 'iu' for w in (8, 16, 32, 64, 128)}
RANGE['usize'], RANGE['isize'] = RANGE['u64'], RANGE['i64']
NUMFN = ('wrapping_abs', 'abs', 'wrapping_neg', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_add', 'saturating_sub', 'saturating_mul',
         'max', 'min', 'rem_euclid', 'div_euclid')
OWNED = ('String', 'Box<', 'CString', 'Vec<', 'PathBuf', 'OsString')
PASS = ('to_str', 'unwrap', 'expect', 'as_str', 'deref', 'as_ref', 'borrow', 'to_bytes', 'from_utf8', 'to_string_lossy', 'branch', 'unwrap_unchecked',
        'deref_mut', 'as_mut', 'borrow_mut', 'new_unchecked', 'as_ptr', 'cast', 'cast_mut', 'cast_const', 'ok', 'map_err', 'as_deref', 'ok_or', 'from_utf8_unchecked')
COPY = ('into', 'to_owned', 'to_string', 'from', 'into_owned', 'to_vec', 'into_boxed_str', 'clone', 'into_string', 'to_boxed_str')


def inside(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from inside(x)


def boxes(v):
    return [x for x in inside(v) if len(x) == 2 and x[0] == 'box']


def borrowed(v):
    """caller memory the value still refers to"""
    if isinstance(v, tuple):
        if v and v[0] == 'str':
            return {v[1]}
        if v and v[0] == 'copy':
            return set()
        r = set()
        for x in v:
            if isinstance(x, tuple):
                r |= borrowed(x)
        return r
    return set()


def params(v):
    """the parameters a value is made from"""
    r = set()
    for x in inside(v):
        if len(x) == 2 and x[0] in ('param', 'str') and isinstance(x[1], int):
            r.add(x[1])
    return r


class Exec:
    def __init__(self, F, limit=3000):
        self.F, self.limit, self.steps = F, limit, 0

    def place(self, env, s, p):
        v = env.get(p[0], ('undef',))
        for x in p[1:]:
            if x[0] == 'd':
                if v[0] == 'param':
                    self.needs(s, v, 'dereferences')
                    v = ('in', v)
                elif v[0] == 'box':
                    v = ('in', v[1])
                elif v[0] in ('ref', 'rawof'):
                    v = v[1] if v[0] == 'ref' else ('in', v[1])
                if v[0] == 'in' and s.status.get(v[1]) == 'freed':
                    raise Bad('uses %s after it was freed' % self.name(v[1]))
            elif x[0] == 'f':
                v = v[2][x[1]] if v[0] == 'agg' and x[1] < len(v[2]) else ('field', x[1], v)
            elif x[0] == 'v':
                pass
            else:
                v = ('elem', v)
        return v

    def name(self, o):
        return 'the object of argument %d' % o[1] if o[0] == 'param' else 'a new object'

    def needs(self, s, v, what):
        if v[0] == 'param' and s.nonnull.get(v) is not True:
            raise Bad('%s argument %d, which may be null' % (what, v[1]))

    def operand(self, env, s, o):
        if o[0] in ('mv', 'cp'):
            v = self.place(env, s, o[1])
            if o[0] == 'mv' and len(o[1]) == 1:
                env[o[1][0]] = MOVED
            elif o[0] == 'mv' and boxes(v):
                raise Und('moves a part that owns')
            return v
        if isinstance(o[1], dict) and 'fn' not in o[1] and 'cst' in o[1] and self.F.tyof(o[1]['t'])[0] in ('int', 'bool'):
            return ('const', str(o[1]['cst']), self.F.tyof(o[1]['t'])[1] if self.F.tyof(o[1]['t'])[0] == 'int' else 'bool')
        return ('const', str(o[1].get('cst', o[1]))) if not (isinstance(o[1], dict) and 'fn' in o[1]) else ('fnptr', o[1]['fn']['p'])

    def write(self, env, s, p, v):
        if len(p) == 1:
            env[p[0]] = v
        elif boxes(v):
            raise Und('stores an owner through a place')

    def drop(self, s, v):
        if v[0] == 'in':
            return
        for _, o in boxes(v):
            st = s.status.get(o)
            if st == 'freed':
                raise Bad('frees %s twice' % self.name(o))
            s.status[o] = 'freed'
            s.freed.append(o)

    def run(self, f, args, s, depth=0):
        """-> [(value, S)] for every normally returning path"""
        if depth > 6:
            raise Und('recursion')
        env = {i + 1: a for i, a in enumerate(args)}
        out = []
        work = [(0, env, s, {})]
        blocks = f['body']['blocks']
        while work:
            b, env, s, vis = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                raise Und('too many paths')
            vis = dict(vis)
            vis[b] = vis.get(b, 0) + 1
            if vis[b] > 3:
                raise Und('loop')
            for st in blocks[b]['s']:
                if st[0] == '=':
                    self.write(env, s, st[1], self.rvalue(f, env, s, st[2]))
            t = blocks[b]['t']
            k = t[0]
            if k == 'return':
                out.append((env.get(0, ('unit',)), s))
            elif k == 'goto':
                work.append((t[1], env, s, vis))
            elif k in ('unreachable', 'diverge', 'resume'):
                pass
            elif k == 'drop':
                v = env.get(t[1][0], ('undef',))
                if len(t[1]) == 1:
                    if v is not MOVED:
                        self.drop(s, v)
                    env[t[1][0]] = MOVED
                work.append((t[2], env, s, vis))
            elif k == 'assert':
                work.append(([x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-1], env, s, vis))
            elif k == 'switch':
                v = self.operand(env, s, t[1])
                for val, nb in [(x[0], x[1]) for x in t[2]] + ([(None, t[3])] if t[3] is not None else []):
                    s2 = s.copy()
                    s2.conds.append((v, val, tuple(x[0] for x in t[2])))
                    if self.refine(s2, v, val, [x[0] for x in t[2]]):
                        work.append((nb, dict(env), s2, vis))
            elif k == 'call':
                c = callee(t)
                av = [self.operand(env, s, a) for a in t[2]]
                for v, s2 in self.call(f, c, av, s, t, depth):
                    if t[4] is not None:
                        e2 = dict(env)
                        self.write(e2, s2, t[3], v)
                        work.append((t[4], e2, s2, vis))
            else:
                raise Und('terminator ' + k)
        return out

    def refine(self, s, v, val, others):
        """s takes the branch where v is val (None: none of the others); False: impossible"""
        neg = False
        while v[0] == 'not':
            v, neg = v[1], not neg
        if val is not None:
            truth = bool(val)
        elif set(others) == {0}:
            truth = True
        elif set(others) == {1}:
            truth = False
        else:
            return True
        if neg:
            truth = not truth
        if v[0] == 'isnull' and v[1][0] == 'param':
            want = not truth
            if s.nonnull.get(v[1], want) != want:
                return False
            s.nonnull[v[1]] = want
        elif v[0] == 'isnull':
            return not truth          # a reference or a new object is never null
        elif v[0] == 'discr' and v[1][0] == 'maybe':
            return self.refine(s, ('isnull', v[1][1]), 0 if truth else 1, [0, 1])
        return True

    def rvalue(self, f, env, s, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(env, s, rv[1])
        if k in ('ref', 'rawptr', 'addr', 'raw'):
            p = rv[-1]
            v = self.place(env, s, p)
            if len(p) == 1:
                return ('ref', v)
            if p[-1][0] == 'd':
                b = self.place(env, s, p[:-1])
                return b if b[0] in ('ref', 'str') else ('ref', v)
            return ('ref', v)
        if k == 'cast' and rv[1] == 'IntToInt' and self.F.tyof(rv[3])[0] == 'int' and self.F.tyof(rv[4])[0] == 'int':
            v = self.operand(env, s, rv[2])
            lo, hi = RANGE[self.F.tyof(rv[3])[1]]
            l2, h2 = RANGE[self.F.tyof(rv[4])[1]]
            return v if lo <= l2 and h2 <= hi else ('num', 'cast', self.F.tyof(rv[3])[1], (v,))
        if k == 'cast':
            o = [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ('mv', 'cp', 'c')]
            return self.operand(env, s, o[0]) if o else ('op', 'cast')
        if k == 'agg':
            return ('agg', rv[1] if rv[1] != 'adt' else (rv[3], rv[4]), tuple(self.operand(env, s, o) for o in rv[2]))
        if k == 'discr':
            return ('discr', self.place(env, s, rv[1]))
        os_ = [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ('mv', 'cp', 'c')]
        vs = tuple(self.operand(env, s, o) for o in os_)
        flat = str(rv)
        if k == 'un' and self.F.tyof(rv[3])[0] == 'int' and rv[1] in ('Not', 'Neg'):
            return ('num', rv[1], self.F.tyof(rv[3])[1], vs)
        if k in ('un', 'unop', 'not') and len(vs) == 1:
            return ('not', vs[0]) if 'Not' in flat or 'not' in flat.lower() else ('op', 'un', vs)
        if len(vs) == 2 and ('Eq' in flat or 'Ne' in flat):
            a, b = vs
            if b[0] == 'nullc' or a[0] == 'nullc':
                r = ('isnull', a if b[0] == 'nullc' else b)
                return r if 'Eq' in flat else ('not', r)
        if k == 'bin' and self.F.tyof(rv[4])[0] == 'int':
            return ('num', rv[1], self.F.tyof(rv[4])[1], vs)
        if not vs:
            try:
                return ('op', k, self.place(env, s, rv[-1]))
            except Exception:
                return ('op', k)
        return ('op', k, vs)

    def call(self, f, c, a, s, t, depth):
        if c is None:
            raise Und('call through a pointer')
        p = c.get('rp') or c['p']
        key = c.get('rk') or c['key']
        n = c['n']
        ret = self.F.tystr(f['body']['locals'][t[3][0]][0]) if len(t[3]) == 1 else ''
        if t[4] is None:
            return []
        if key in self.F.fns:
            r = self.run(self.F.fns[key], a, s, depth + 1)
            return r
        if n == 'is_null':
            return [(('isnull', a[0]), s)]
        if n in ('null', 'null_mut'):
            return [(('nullc',), s)]
        if 'Box' in p and n == 'from_raw' or 'boxed' in key and n == 'from_raw':
            v = a[0]
            if v[0] == 'nullc':
                raise Bad('makes a box of a null pointer')
            if v[0] == 'param':
                self.needs(s, v, 'takes')
                o = v
            elif v[0] == 'rawof' or v[0] == 'ref' and v[1][0] == 'in':
                o = v[1] if v[0] == 'rawof' else v[1][1]
            else:
                raise Und('from_raw of ' + v[0])
            if s.status.get(o) == 'freed':
                raise Bad('takes %s after it was freed' % self.name(o))
            s.status[o] = 'owned'
            return [(('box', o), s)]
        if 'ffi::CString' in p and n == 'from_raw' or n == 'free':
            raise Bad('frees a string of the caller')
        if 'boxed' in key or '::boxed::Box' in p:
            if n == 'new':
                o = ('new', s.n, a[0])
                s.n += 1
                s.status[o] = 'owned'
                return [(('box', o), s)]
            if n in ('into_raw', 'leak', 'into_non_null', 'into_raw_with_allocator'):
                if a[0][0] == 'box':
                    if s.status.get(a[0][1]) == 'freed':
                        raise Bad('returns %s after it was freed' % self.name(a[0][1]))
                    s.status[a[0][1]] = 'released'
                    return [(('rawof', a[0][1]), s)]
                return [(a[0] if a[0][0] == 'copy' else ('op', n, a[0]), s)]
            if n == 'clone':
                v = a[0][1] if a[0][0] == 'ref' else a[0]
                v = ('in', v[1]) if v[0] == 'box' else v
                o = ('new', s.n, ('clone', v))
                s.n += 1
                s.status[o] = 'owned'
                return [(('box', o), s)]
        if n == 'forget' or n == 'new' and 'ManuallyDrop' in p:
            for _, o in boxes(a[0]):
                if s.status.get(o) == 'freed':
                    raise Bad('keeps %s after it was freed' % self.name(o))
                s.status[o] = 'released'
            v = a[0]
            return [(('rawof', v[1]) if v[0] == 'box' else ('op', n, v), s)]
        if n == 'drop' and key.startswith('core::mem'):
            self.drop(s, a[0])
            return [(('unit',), s)]
        if n == 'from_ptr' and 'CStr' in p:
            v = a[0]
            if v[0] != 'param':
                raise Und('from_ptr of ' + v[0])
            self.needs(s, v, 'reads')
            return [(('str', v[1]), s)]
        if n in ('as_ref', 'as_mut') and a and a[0][0] == 'param':
            return [(('maybe', a[0]), s)]
        if a and a[0][0] == 'maybe' and n in ('unwrap', 'expect'):
            s.nonnull[a[0][1]] = True
            return [(('ref', ('in', a[0][1])), s)]
        if key.startswith('core::ptr') and any(x[0] == 'param' for x in a):
            raise Und('ptr::' + n)
        v = a[0] if a else ('unit',)
        while v[0] == 'ref' and v[1][0] in ('str', 'copy', 'ref'):
            v = v[1]
        if n in PASS and v[0] in ('str', 'copy', 'conv'):
            return [(v, s)]
        if n in ('try_into', 'try_from') and len(a) == 1 and v[0] == 'param':
            return [(('conv', v), s)]
        if n in COPY and v[0] in ('str', 'copy') and any(ret.startswith(o) for o in OWNED):
            return [(('copy', v), s)]
        if n in ('unwrap', 'expect', 'unwrap_unchecked') and len(a) >= 1 and (c['key'].startswith('core::result') or c['key'].startswith('core::option')):
            return [(v, s)]
        if n in ('deref', 'deref_mut', 'borrow', 'as_ref', 'as_mut'):
            v = a[0][1] if a[0][0] == 'ref' else a[0]
            return [(('ref', ('in', v[1])) if v[0] == 'box' else ('ref', v), s)]
        if p.startswith('tsfile_writer::') and not p.startswith('tsfile_writer_c'):
            for x in a:
                if boxes(x):
                    raise Und('an owner is given to %s' % p)
            s.calls.append((p, n, tuple(a), t[5]))
            return [(('lib', len(s.calls) - 1, p, tuple(a)), s)]
        if n in NUMFN and self.F.tyof(f['body']['locals'][t[3][0]][0])[0] == 'int':
            return [(('num', n, self.F.tyof(f['body']['locals'][t[3][0]][0])[1], tuple(a)), s)]
        for x in a:
            if boxes(x) and x[0] != 'ref':
                raise Und('an owner is given to %s' % p)
            if any(y[0] == 'param' and y in s.status or y[0] == 'in' for y in inside(x)) and n in ('spawn', 'catch_unwind'):
                raise Und(n)
        return [(('op', n, tuple(a)), s)]


class Unknown(Exception):
    pass


def numval(F, v, env):
    """the number a value stands for when the parameters are the numbers in env"""
    v = simp(v)
    if v[0] == 'param' and v[1] in env:
        return env[v[1]]
    if v[0] == 'const':
        return const_of(F, v)
    if v[0] == 'not':
        return int(not numval(F, v[1], env))
    if v[0] == 'field' and v[1] == 0 and v[2][0] == 'num' and v[2][1].endswith('WithOverflow'):
        v = ('num', v[2][1][:-len('WithOverflow')]) + v[2][2:]
    if v[0] != 'num':
        raise Unknown()
    _, op, ty, a = v
    a = [numval(F, x, env) for x in a]
    lo, hi = RANGE[ty]
    w = lambda n: (n - lo) % (hi - lo + 1) + lo
    two = len(a) == 2
    if op == 'cast' or op == 'Neg' or op == 'Not' or op in ('wrapping_abs', 'abs', 'wrapping_neg'):
        x = a[0]
        return w(x if op == 'cast' else ~x if op == 'Not' else abs(x) if 'abs' in op else -x)
    if not two:
        raise Unknown()
    x, y = a
    if op in ('Add', 'wrapping_add'):
        return w(x + y)
    if op in ('Sub', 'wrapping_sub'):
        return w(x - y)
    if op in ('Mul', 'wrapping_mul'):
        return w(x * y)
    if op in ('saturating_add', 'saturating_sub', 'saturating_mul'):
        r = x + y if 'add' in op else x - y if 'sub' in op else x * y
        return min(max(r, lo), hi)
    if op in ('max', 'min'):
        return max(x, y) if op == 'max' else min(x, y)
    if op in ('Div', 'Rem', 'rem_euclid', 'div_euclid'):
        if y == 0:
            raise Unknown()
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if op == 'Div':
            return w(q)
        if op == 'Rem':
            return w(x - q * y)
        r = x % abs(y)
        return w(r if op == 'rem_euclid' else (x - r) // y)
    if op == 'BitAnd':
        return x & y
    if op == 'BitOr':
        return x | y
    if op == 'BitXor':
        return x ^ y
    if op in ('Shl', 'Shr') and 0 <= y < (hi - lo + 1).bit_length() - 1:
        return w(x << y) if op == 'Shl' else x >> y
    c = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}.get(op)
    if c is None:
        raise Unknown()
    return int(c)


def const_of(F, v):
    try:
        k = F.consts[int(v[1])]
    except (ValueError, IndexError):
        raise Unknown()
    if 'bits' not in k or len(v) < 3:
        raise Unknown()
    lo, hi = RANGE.get(v[2], (0, 1))
    return (k['bits'] - lo) % (hi - lo + 1) + lo


def samples(ty):
    lo, hi = RANGE[ty]
    for n in [0, 1, 2, 3, 7, 10, 100, 1000, 10**6, 10**9] + [2**k + d for k in range(3, 64) for d in (-1, 0, 1)]:
        for x in (n, -n):
            if lo <= x <= hi:
                yield x
    yield from (lo, hi)


def holds(F, s, env):
    """whether the path is taken with these numbers; Unknown when that depends on something else that involves them"""
    for v, val, others in s.conds:
        if not params(v) & set(env):
            continue
        n = numval(F, v, env)
        if (n != val if val is not None else n in others):
            return False
    return True


def differs(F, f, i, kind, x, s):
    """a number for parameter i for which the value x, computed from it, is another one; None if none is found"""
    x = simp(x)
    if kind == 'INT' and x[0] == 'agg' and len(x[2]) == 1:
        x = simp(x[2][0])
    elif kind == 'conv' and x[0] == 'conv':
        x = simp(x[1])
    elif kind != 'param':
        return None
    ty = F.tyof(f['body']['locals'][i][0])
    if ty[0] != 'int':
        return None
    for n in samples(ty[1]):
        try:
            if holds(F, s, {i: n}):
                r = numval(F, x, {i: n})
                if r != n:
                    return n, r
        except Unknown:
            return None
    return None


def simp(v):
    """through references and to the object itself"""
    while v and v[0] in ('ref',):
        v = v[1]
    return v


# which arguments each function owns, and what it asks of the library: (method, arguments made from the parameters)
SPEC = {
    'schema_simple': dict(frees=(), makes=True, call=('simple', [('str', 1), ('str', 2), ('conv', 3), ('conv', 4), ('conv', 5)])),
    'schema_free': dict(frees=(1,), makes=False, call=None),
    'file_writer_new': dict(frees=(), makes=True, call=('new', [('str', 1), ('in', 2), None])),
    'file_writer_write_int32': dict(frees=(), same=1, call=('write', [('in', 1), ('str', 2), ('str', 3), ('param', 4), ('INT', 5)])),
    'file_writer_close': dict(frees=(1,), makes=False, call=('close', [('in', 1)])),
}


def matches(F, want, v):
    v0 = v
    v = simp(v)
    if want is None:
        return True
    k, i = want
    if k == 'str':
        while v[0] == 'copy' or v[0] == 'rawof' and v[1][0] == 'new' or v[0] == 'in' or v[0] == 'op' and v[1] in ('leak', 'into_boxed_str', 'into'):
            v = simp(v[1] if v[0] == 'copy' else (v[1][2] if v[0] == 'rawof' else (v[1] if v[0] == 'in' else (v[2][0] if isinstance(v[2], tuple) and v[2] and isinstance(v[2][0], tuple) else v[2]))))
        return v == ('str', i)
    if k == 'conv':
        return v == ('conv', ('param', i))
    if k == 'in':
        return any(x == ('in', ('param', i)) for x in inside(v0)) and params(v0) == {i}
    if k == 'param':
        return v == ('param', i)
    if k == 'INT':
        return v[0] == 'agg' and isinstance(v[1], tuple) and v[2] == (('param', i),)
    return False


def analyse(F, Flib, rep):
    n = 0
    exported = [f for f in F.fns.values() if str(f.get('abi', '')).startswith('C')]
    if not exported:
        rep.add('P16', 'C interface', 'undecided', 'no exported functions found')
    for f in exported:
        name = f['name']
        spec = SPEC.get(name)
        args = [('param', i + 1) for i in range(f['body']['argc'])]
        s = S()
        for a, l in zip(args, f['body']['locals'][1:]):
            if F.types[l[0]]['k'] == 'ptr':
                s.status[a] = 'caller'
        where = '%s (%s)' % (name, f['span'])
        try:
            paths = Exec(F).run(f, args, s)
        except Bad as b:
            rep.add('P16', name, 'violation', '%s: %s' % (where, b))
            continue
        except Und as u:
            rep.add('P16', name, 'undecided', '%s: %s' % (where, u))
            continue
        n += len(paths)
        if not paths:
            rep.add('P16', name, 'undecided', where + ' never returns')
        for pi, (v, s) in enumerate(paths):
            ob = '%s/path %d' % (name, pi)
            bad = []
            ptr = F.types[f['body']['locals'][0][0]]['k'] == 'ptr'
            for a in args:
                if a not in s.status:
                    continue
                st = s.status[a]
                if spec is None:
                    continue
                isnull = s.nonnull.get(a) is False
                if a[1] in spec['frees']:
                    if st != 'freed' and not isnull:
                        bad.append('argument %d is not freed on a path on which it is not null (%s)' % (a[1], st))
                elif st == 'freed':
                    bad.append('argument %d, which still belongs to the caller, is freed' % a[1])
                elif st == 'owned':
                    bad.append('argument %d is neither given back nor freed' % a[1])
            if spec is None:
                # not one of the known functions: nothing may be freed and given back
                if v[0] == 'rawof' and s.status.get(v[1]) == 'freed' or v[0] == 'param' and s.status.get(v) == 'freed':
                    bad.append('a freed object is returned')
            elif ptr:
                o = v[1] if v[0] == 'rawof' else (v if v[0] == 'param' else (v[1][1] if v[0] == 'ref' and v[1][0] == 'in' else None))
                if v[0] == 'nullc':
                    pass
                elif o is None:
                    rep.add('P16', ob + '/returned', 'undecided', '%s returns %s' % (where, str(v)[:200]))
                elif s.status.get(o) == 'freed':
                    bad.append('the returned object is already freed')
                elif o[0] == 'new' and s.status.get(o) == 'owned':
                    bad.append('the returned object is still owned by the function')
                elif 'same' in spec and o != ('param', spec['same']):
                    bad.append('the pointer returned is not the one that was given')
                elif spec.get('makes') and o[0] != 'new':
                    bad.append('no new object is returned')
                elif o[0] == 'new' and name != 'file_writer_new':
                    b = borrowed(o[2])
                    if b:
                        bad.append('the returned object keeps references to the strings of argument %s, which the caller may free' % ', '.join(map(str, sorted(b))))
            # new objects that nobody owns any more
            for o, st in s.status.items():
                if o[0] == 'new' and st == 'owned':
                    pass
            if spec and spec['call'] and not (v[0] == 'nullc') and not all(s.nonnull.get(('param', i)) is False for i in spec['frees'] or (0,)):
                m, want = spec['call']
                cs = [c for c in s.calls if c[1] == m]
                if len(cs) != 1:
                    bad.append('%s is called %d times' % (m, len(cs)))
                elif len(cs[0][2]) != len(want):
                    rep.add('P16', ob + '/call', 'undecided', 'arguments of ' + m)
                else:
                    for k, (w, x) in enumerate(zip(want, cs[0][2])):
                        if not matches(F, w, x):
                            e = differs(F, f, w[1], w[0], x, s)
                            if e is not None:
                                bad.append('argument %d of %s is %s where parameter %d is %s' % (k, m, e[1], w[1], e[0]))
                            elif params(x) == {w[1]}:
                                rep.add('P16', '%s/argument %d' % (ob, k), 'undecided', '%s is given %s' % (m, str(x)[:200]))
                            else:
                                bad.append('argument %d of %s is made from the parameters %s, not from parameter %d' % (k, m, sorted(params(x)), w[1]))
                        elif w is not None and w[0] == 'INT' and Flib is not None:
                            try:
                                iv = Flib.variant('IoTDBValue', 'INT')
                            except Missing:
                                iv = None
                            if iv is not None and simp(x)[1][1] != iv:
                                bad.append('the number is passed as another type of value')
            if bad:
                rep.add('P16', ob, 'violation', '%s: %s' % (where, '; '.join(bad)))
            else:
                rep.add('P16', ob, 'ok')
    return n


def capi(env, rep):
    for n in SPEC:
        if not any(f['name'] == n for f in env.Fc.fns.values()):
            rep.add('P16', n, 'undecided', 'function not found')
    env.cov['paths through the C interface'] = analyse(env.Fc, env.F, rep)


def kept(env, rep):
    """the strings given with a point belong to a C caller: write may look them up, not keep them"""
    F = env.F
    try:
        start = F.find('TsFileWriter', 'write')
    except Missing:
        rep.add('P16', 'kept strings', 'undecided', 'TsFileWriter::write not found')
        return
    isstr = lambda ty: F.tystr(ty).replace('mut ', '') in ('&str', '&&str')
    roots = frozenset(i for i in range(1, start['body']['argc'] + 1) if isstr(start['body']['locals'][i][0]))
    work, seen, n = [(start['key'], roots)], set(), 0
    while work:
        key, ps = work.pop()
        if (key, ps) in seen:
            continue
        seen.add((key, ps))
        f = F.fns[key]
        tainted = set(ps)
        b = f['body']
        bad = []
        ch = True
        while ch:
            ch = False
            for blk in b['blocks']:
                for s in blk['s']:
                    if s[0] != '=':
                        continue
                    src = []

                    def rec(x):
                        if isinstance(x, list):
                            if len(x) == 2 and x[0] in ('mv', 'cp') and isinstance(x[1], list):
                                src.append(x[1])
                                return
                            for y in x:
                                rec(y)
                    rec(s[2][1:])
                    if s[2][0] in ('ref', 'rawptr'):
                        src.append(s[2][-1])
                    hit = [p for p in src if p[0] in tainted]
                    if not hit or s[2][0] in ('discr', 'bin', 'len', 'un'):
                        continue
                    d = s[1]
                    if any(x[0] == 'd' for x in d[1:]):
                        bad.append((s[3], 'stores'))
                    elif d[0] not in tainted and (isstr(b['locals'][d[0]][0]) or s[2][0] == 'agg' or len(d) > 1 or s[2][0] == 'use'):
                        tainted.add(d[0])
                        ch = True
        calls = []
        for blk in b['blocks']:
            t = blk['t']
            if t[0] != 'call' or blk.get('cl'):
                continue
            c = callee(t)
            hit = [i for i, a in enumerate(t[2]) if a[0] in ('mv', 'cp') and a[1][0] in tainted]
            if not hit or c is None:
                continue
            n += 1
            k = c.get('rk') or c['key']
            if k in F.fns:
                g = F.fns[k]
                calls.append((k, frozenset(i + 1 for i in hit if i + 1 <= g['body']['argc'])))
            elif c['n'] in ('insert', 'entry', 'push', 'push_back', 'get_or_insert', 'replace') and any(i > 0 for i in hit) and not any(
                    F.tystr(b['locals'][t[2][i][1][0]][0]).startswith(('&String', 'String')) for i in hit):
                bad.append((t[5], 'puts into a collection (%s)' % c['n']))
        work += calls
        ob = 'kept strings/' + f['name']
        if bad:
            rep.add('P16', ob, 'violation', '%s (%s) %s a string of the caller of write, which a C caller may free: %s' % (f['p'], bad[0][0], bad[0][1], bad[0][0]))
        else:
            rep.add('P16', ob, 'ok')
    env.count('calls that get strings of the caller', n)
