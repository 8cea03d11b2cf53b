"""Structural rules on the MIR: dataflow over every function of the analysed crates."""
from facts import *

# errors that only say a conversion is impossible; a default for one is not a lost failure
MILD = ('TryFromIntError', 'TryFromSliceError', 'Utf8Error', 'FromUtf8Error', 'ParseIntError', 'ParseFloatError', 'Infallible', 'NulError',
        'VarError', 'SetLoggerError', 'LayoutError', 'SystemTimeError')
TESTFILES = ('writer/test.rs', 'writer/test_utils.rs')


def istest(f):
    return any(t in f['span'] for t in TESTFILES)


def callee(t):
    """the called function's description, or None for a call through a pointer"""
    if t[1][0] == 'c' and isinstance(t[1][1], dict) and 'fn' in t[1][1]:
        return t[1][1]['fn']
    return None


def plain(k):
    return k.split('::')[-1]


def deref(p):
    return any(isinstance(x, list) and x[0] == 'd' for x in p[1:])


def opplaces(o):
    return [o[1]] if o[0] in ('mv', 'cp') else []


def operands(r):
    """the operands and places an rvalue reads"""
    k = r[0]
    if k in ('use',):
        return opplaces(r[1])
    if k in ('ref', 'rawptr', 'addr'):
        return [r[-1]]
    if k == 'discr':
        return [r[1]]
    out = []

    def rec(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('mv', 'cp') and isinstance(x[1], list):
                out.append(x[1])
                return
            for y in x:
                rec(y)
    rec(r[1:])
    if not out and k in ('len',):
        out.append(r[1])
    return out


class Flow:
    """follows the Result of one call (or a parameter) to everything that may become of it"""
    KEEP = {'map_err', 'map', 'and_then', 'as_ref', 'as_mut', 'as_deref', 'copied', 'cloned', 'inspect', 'inspect_err', 'into', 'from', 'transpose', 'clone'}

    def __init__(self, F, f, flocal, checked):
        self.F, self.f, self.checked = F, f, checked
        self.b = f['body']
        self.locals = self.b['locals']
        self.flocal = flocal

    def tyname(self, l):
        return self.F.tystr(self.locals[l][0])

    def succ(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-1:]
        return []

    def reach(self, b):
        s, w = set(), [b]
        while w:
            x = w.pop()
            if x in s:
                continue
            s.add(x)
            w += self.succ(self.b['blocks'][x]['t'])
        return s

    def run(self, start, kind, local):
        """start block, and the local that holds the Result: None, or why the failure may be lost"""
        init = (start, 'P', frozenset([(kind, local)]), frozenset())
        seen = set()
        work = [init]
        self.n = 0
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            self.n += 1
            if self.n > 20000:
                return 'undecided', 'too many states'
            r = self.block(st)
            if isinstance(r, tuple):
                return r
            work += r
        return None

    def block(self, st):
        bi, mode, car, region = st
        blk = self.b['blocks'][bi]
        d = {}
        for k, l in car:
            d.setdefault(l, k)
        inreg = mode == 'E' and bi in region

        def implicit(l, isunit):
            # what is set only where the failure is known carries the failure
            if inreg and not isunit:
                d[l] = 'I'
        for s in blk['s']:
            if s[0] != '=':
                continue
            dst, rv = s[1], s[2]
            src = [p[0] for p in operands(rv) if p[0] in d]
            l = dst[0]
            if src:
                k = d[src[0]]
                p = [p for p in operands(rv) if p[0] == src[0]][0]
                nk = None
                if rv[0] == 'discr':
                    nk = ('D', k)
                    if len(p) > 1 and p != [p[0], ['d']]:
                        nk = 'W' if k == 'W' else None
                elif rv[0] == 'use' or rv[0] == 'cast' or rv[0] in ('ref', 'copyref', 'rawptr'):
                    var = [x for x in p[1:] if isinstance(x, list) and x[0] == 'v']
                    flds = [x for x in p[1:] if isinstance(x, list) and x[0] == 'f']
                    if not var and not flds:
                        nk = k
                    elif k in ('R', 'C', 'Opt', 'OE') and var:
                        v = var[0][1]
                        bad = {'R': 1, 'C': 1, 'OE': 1, 'Opt': 0}[k]
                        if v == bad:
                            nk = {'R': 'E', 'C': 'R', 'OE': 'E'}.get(k, 'W')
                        else:
                            return []          # the value of a success
                    else:
                        nk = 'W'
                elif rv[0] == 'agg':
                    nk = 'W'
                    if mode == 'E' and rv[1] == 'adt' and rv[3] == 'core::result::Result' and rv[4] == 0 and k != 'W':     # success, although the failure is known
                        nk = None
                elif rv[0] in ('un', 'bin', 'not') and (k == 'B' or (isinstance(k, tuple) and k[0] == 'B')):
                    nk = ('B', 'not ' + k[1]) if rv[0] in ('un', 'not') and isinstance(k, tuple) else 'W'
                else:
                    nk = 'W'
                if k == 'I' and nk == 'W':
                    nk = 'I'
                if nk is not None:
                    if deref(dst):
                        if nk not in ('B',) and not isinstance(nk, tuple):
                            return []          # kept in memory that outlives this
                    elif len(dst) > 1:
                        d[l] = 'W'
                    else:
                        d[l] = nk
                elif len(dst) == 1:
                    d.pop(l, None)
                if rv[0] == 'use' and rv[1][0] == 'mv' and rv[1][1] == [src[0]] and src[0] != l:
                    d.pop(src[0], None)
            else:
                isres = rv[0] == 'agg' and rv[1] == 'adt' and rv[3] == 'core::result::Result'
                if isres and rv[4] == 1 and mode == 'E' and len(dst) == 1:
                    d[l] = 'W'                 # another error in its place
                elif isres and rv[4] == 0 and len(dst) == 1:
                    d.pop(l, None)
                elif len(dst) == 1:
                    d.pop(l, None)
                    implicit(l, self.tyname(l) in ('()',) or self.F.types[self.locals[l][0]].get('k') == 'tuple' and not self.F.types[self.locals[l][0]]['a'])
                elif deref(dst):
                    if inreg:
                        return []              # an effect of the failure outside this function
                elif inreg and l not in d:
                    d[l] = 'I'
        t = blk['t']
        k = t[0]
        if k in ('unreachable', 'diverge', 'resume'):
            return []
        if k == 'return':
            if 0 in d and d[0] in ('R', 'E', 'W', 'C'):
                return []
            if 0 in d and d[0] in ('Opt', 'OE'):
                return []
            if 0 in d:
                return []
            return 'violation', 'returns as if nothing had failed' if mode == 'E' else 'returns without looking at the result'
        if k == 'switch':
            o = opplaces(t[1])
            l = o[0][0] if o else None
            kd = d.get(l) if l is not None else None
            if isinstance(kd, tuple) and kd[0] in ('D', 'B'):
                if kd[0] == 'D' and kd[1] in ('R', 'C', 'Opt', 'OE'):
                    bad = 0 if kd[1] == 'Opt' else 1
                elif kd[0] == 'B':
                    neg = kd[1].count('not ') % 2
                    bad = (1 if kd[1].endswith('err') else 0) ^ neg
                else:
                    bad = None
                if bad is not None:
                    good = [b for v, b in t[2] if v != bad]
                    err = [b for v, b in t[2] if v == bad]
                    if not err and t[3] is not None:
                        err = [t[3]]
                    elif t[3] is not None and not good:
                        good = [t[3]]
                    out = []
                    gr = set()
                    for g in good:
                        gr |= self.reach(g)
                    for e in err:
                        reg = frozenset(self.reach(e) - gr)
                        out.append((e, 'E', frozenset((kk, ll) for ll, kk in d.items() if ll != l), reg))
                    return out
            return [(x, mode, self.pack(d), region) for x in self.succ(t)]
        if k == 'call':
            return self.call(t, bi, mode, d, region, inreg)
        return [(x, mode, self.pack(d), region) for x in self.succ(t)]

    def pack(self, d):
        return frozenset((k, l) for l, k in d.items())

    def call(self, t, bi, mode, d, region, inreg):
        c = callee(t)
        name = c['n'] if c else '?'
        key = c['key'] if c else ''
        args = t[2]
        dst = t[3]
        nxt = t[4]
        if nxt is None:
            return []
        hit = [(a[0], a[1], d[a[1][0]]) for a in args if a[0] in ('mv', 'cp') and d.get(a[1][0], 'I') != 'I']
        res = None
        if hit:
            how, p, k = hit[0]
            l = p[0]
            first = args and args[0][0] in ('mv', 'cp') and args[0][1][0] == l
            isr = key.startswith('core::result') or key.startswith('core::option')
            if k in ('R', 'Opt', 'OE', 'C', 'E') and key.startswith('core::mem') and name in ('drop', 'forget'):
                if mode == 'P' or k != 'E':
                    return 'violation', 'drops the result at %s' % t[5]
                d.pop(l, None)
            elif key.endswith('Try::branch'):
                res = 'C' if k in ('R', 'Opt') else None
                if k == 'Opt':
                    res = 'C'
                d.pop(l, None)
            elif name == 'from_residual':
                res = 'W'
                d.pop(l, None)
            elif isr and first and k in ('R', 'Opt', 'OE'):
                if name in ('unwrap', 'expect', 'unwrap_unchecked', 'unwrap_err', 'expect_err'):
                    if k == 'OE' or name.endswith('_err'):
                        return []
                    return []
                if name in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else') and k in ('R', 'Opt'):
                    return 'violation', 'puts a default in place of the failure at %s' % t[5]
                if name in ('ok',):
                    res = 'Opt'
                    d.pop(l, None)
                elif name == 'err':
                    res = 'OE'
                    d.pop(l, None)
                elif name in ('is_ok', 'is_err', 'is_some', 'is_none'):
                    res = ('B', {'is_ok': 'ok', 'is_err': 'err', 'is_some': 'ok' if k == 'Opt' else 'err', 'is_none': 'err' if k == 'Opt' else 'ok'}[name])
                elif name in ('ok_or', 'ok_or_else'):
                    res = 'R'
                    d.pop(l, None)
                elif name in self.KEEP:
                    res = k
                    if how == 'mv':
                        d.pop(l, None)
                elif name == 'or' and k == 'R' and len(args) == 2:
                    if args[1][0] in ('mv', 'cp') and not self.iserr(args[1][1][0]):
                        return 'violation', 'puts what came of something else, done in any case, in place of the failure at %s' % t[5]
                    return []
                elif name in ('or', 'or_else'):
                    return []
                else:
                    res = 'W'
            elif k == 'R' and name in ('from', 'into', 'clone', 'branch'):
                res = 'R'
            elif isinstance(k, tuple):
                res = None
            else:
                ty = self.F.types[self.locals[l][0]]
                byref = ty.get('k') in ('ref', 'ptr')
                if byref:
                    res = 'W' if k in ('R', 'E', 'W') and dst[1:] == [] and self.refout(dst) else None
                elif how == 'mv' and mode == 'P':
                    return []                  # handed on whole
                else:
                    if any(a[0] in ('mv', 'cp') and a[1][0] != l and self.F.types[self.locals[a[1][0]][0]].get('m') in (True, 'm') for a in args):
                        return []              # put into something
                    res = 'W'
        if mode == 'E' and inreg and res is None and not hit:
            if self.checked(c, t, self.f):
                return []                      # the failure is answered by another attempt, itself checked
        if res is not None:
            if deref(dst):
                return []
            d[dst[0]] = 'W' if len(dst) > 1 else res
        else:
            if len(dst) == 1:
                d.pop(dst[0], None)
                if inreg and self.tyname(dst[0]) != '()' and not (self.F.types[self.locals[dst[0]][0]].get('k') == 'tuple' and not self.F.types[self.locals[dst[0]][0]]['a']):
                    d[dst[0]] = 'I'
            elif inreg:
                d[dst[0]] = 'I'
        if mode == 'P' and not d:
            return 'violation', 'the result is overwritten at %s' % t[5]
        return [(nxt, mode, self.pack(d), region)]

    def iserr(self, l):
        """is this local only ever set to a failure (or to something not seen here)"""
        for blk in self.b['blocks']:
            for s in blk['s']:
                if s[0] == '=' and s[1] == [l]:
                    rv = s[2]
                    if rv[0] == 'agg' and rv[1] == 'adt' and rv[3] == 'core::result::Result':
                        if rv[4] == 0:
                            return False
                    elif rv[0] == 'use' and rv[1][0] in ('mv', 'cp') and len(rv[1][1]) == 1:
                        if not self.iserr(rv[1][1][0]):
                            return False
            t = blk['t']
            if t[0] == 'call' and t[3] == [l]:
                return False
        return True

    def refout(self, dst):
        return True


def result_err(F, ti):
    """the error type's name when the type is a Result, else None"""
    t = F.types[ti]
    if t['k'] == 'adt' and t['key'] == 'core::result::Result':
        a = [x for x in t['a'] if isinstance(x, int)]
        if len(a) == 2:
            e = F.types[a[1]]
            p = e.get('key') or e.get('p') or F.tystr(a[1])
            return p
    return None


def serious(p):
    return p is not None and not p.startswith('core::fmt') and plain(p) not in MILD


def memory(F, c):
    """writes into memory, which does not fail"""
    return c is not None and any(isinstance(a, int) and F.tystr(a).lstrip('&').replace('mut ', '') in ('Vec<u8,Global>', 'Vec<u8>') for a in c['a'][:1] + c['a'][-1:])


RESULT_FNS = ('core::result', 'core::option', 'core::ops::try_trait', 'core::convert', 'core::clone')


def errors(env, rep):
    """P01: whatever returns a failure, the function that called it fails, retries, or keeps the failure"""
    total = 0
    kinds = {}
    for F in (env.F, env.Fc):
        for f in F.fns.values():
            if istest(f) or f['body'] is None:
                continue
            b = f['body']

            def checked(c, t, ff, F=F, b=b):
                d = t[3]
                return len(d) == 1 and serious(result_err(F, b['locals'][d[0]][0]))
            obs = []
            for i in range(1, b['argc'] + 1):
                if serious(result_err(F, b['locals'][i][0])):
                    obs.append((0, i, 'the result passed in', f['span']))
            for bi, blk in enumerate(b['blocks']):
                t = blk['t']
                if t[0] != 'call' or t[4] is None or blk.get('cl'):
                    continue
                d = t[3]
                if len(d) != 1:
                    continue
                c = callee(t)
                if c and (c['key'].startswith(RESULT_FNS) or c['n'] in ('from_residual',)):
                    continue
                e = result_err(F, b['locals'][d[0]][0])
                if serious(e) and not (e.endswith('::io::error::Error') and memory(F, c)):
                    obs.append((t[4], d[0], (c['p'] if c else 'a function pointer'), t[5]))
            n = 0
            for start, l, what, sp in obs:
                total += 1
                n += 1
                r = Flow(F, f, None, checked).run(start, 'R', l)
                ob = 'errors/%s/%s#%d' % (f['key'].replace('tsfile_writer::', ''), plain(what), n)
                if r is None:
                    rep.add('P01', ob, 'ok')
                else:
                    rep.add('P01', ob, r[0], 'a failure of %s, called in %s (%s), is lost: the function %s' % (what, f['p'] if 'p' in f else f['key'], sp, r[1]))
    env.cov['fallible calls followed'] = total


def partial_writes(env, rep):
    """P02: Write::write may take part of the buffer; whoever calls it must look at how much"""
    n = 0
    for F in (env.F, env.Fc):
        for f in F.fns.values():
            if istest(f):
                continue
            b = f['body']
            for bi, blk in enumerate(b['blocks']):
                t = blk['t']
                if t[0] != 'call' or blk.get('cl') or t[4] is None:
                    continue
                c = callee(t)
                if c is None or c['key'] != 'core::io::write::Write::write' and not c['key'].endswith('io::write::Write::write') and c['p'] != 'std::io::Write::write':
                    continue
                recv = F.tystr(b['locals'][t[2][0][1][0]][0]) if t[2][0][0] in ('mv', 'cp') else ''
                if memory(F, c) or 'Vec<u8' in recv:
                    continue
                n += 1
                ob = 'partial writes/%s' % f['key'].replace('tsfile_writer::', '')
                if f['name'] == 'write' and (f.get('itrait') or '').endswith('io::Write'):
                    rep.add('P02', ob, 'ok')
                    continue
                der = {t[3][0]}
                used = t[3][0] == 0
                ch = True
                while ch and not used:
                    ch = False
                    for bj in b['blocks']:
                        for s in bj['s']:
                            if s[0] != '=':
                                continue
                            hit = [p for p in operands(s[2]) if p[0] in der]
                            if not hit or s[2][0] == 'discr':
                                continue
                            err = any(x[0] == 'v' and x[1] == 1 for p in hit for x in p[1:])
                            if err:
                                continue
                            if s[2][0] == 'use':
                                if s[1][0] == 0 or len(s[1]) > 1:
                                    used = True
                                elif s[1][0] not in der:
                                    der.add(s[1][0])
                                    ch = True
                            else:
                                used = True
                        u = bj['t']
                        if u[0] == 'call' and u is not t and any(a[0] in ('mv', 'cp') and a[1][0] in der for a in u[2]):
                            k = callee(u)
                            if k and (k['key'].endswith('Try::branch') or k['n'] in ('map_err', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_default')):
                                if u[3][0] not in der:
                                    der.add(u[3][0])
                                    ch = True
                                used = used or u[3][0] == 0
                            elif k and k['n'] in ('ok', 'is_ok', 'is_err', 'drop'):
                                pass
                            else:
                                used = True
                        elif u[0] == 'switch' and u[1][0] in ('mv', 'cp') and u[1][1][0] in der and len(u[1][1]) == 1:
                            used = True
                if used:
                    rep.add('P02', ob, 'ok')
                else:
                    rep.add('P02', ob, 'violation', '%s calls Write::write at %s and ignores how much was accepted: the rest of the buffer is lost' % (f['p'], t[5]))
    env.cov['direct calls of Write::write'] = n


BUFFERED = ('BufWriter', 'LineWriter')


def buffered(env, rep):
    """P01: a buffer in front of the file must be flushed where its failure can still be reported"""
    F = env.F
    makes = []
    for f in F.fns.values():
        if istest(f):
            continue
        for blk in f['body']['blocks']:
            t = blk['t']
            c = callee(t) if t[0] == 'call' else None
            if c and c['n'] in ('new', 'with_capacity') and any(x in c['p'] for x in BUFFERED):
                makes.append((f, t[5]))
    if not makes:
        rep.add('P01', 'buffered sinks', 'ok')
        return
    # every function that the closing of a file runs through
    todo = [f for f in F.fns.values() if f['name'] in ('close', 'end_file') and not istest(f)]
    seen, ok = set(), False
    names = {f['key'] for f in todo}
    while todo:
        f = todo.pop()
        for blk in f['body']['blocks']:
            t = blk['t']
            c = callee(t) if t[0] == 'call' else None
            if c is None:
                continue
            if c['n'] in ('flush', 'into_inner', 'sync_all', 'sync_data') and ('Write' in c['p'] or any(x in c['p'] for x in BUFFERED)) and f['key'] in names:
                ok = True
    f, sp = makes[0]
    if ok:
        rep.add('P01', 'buffered sinks', 'ok')
    else:
        rep.add('P01 P07', 'buffered sinks', 'violation', '%s puts a buffer in front of the file at %s, but neither close nor end_file flushes it: the last bytes are written when it is dropped, where a failure is lost' % (f['p'], sp))
