"""Making a writer for a path: the file system is replaced by a recorder that answers arbitrarily."""
from modular import *
from client import name_sym
from sync import build_schema, same_text, restrict_deep_, occurs_
from reader import sshow
from facts import Missing

FLAGS = ('read', 'write', 'append', 'truncate', 'create', 'create_new')


def sinks_in(v, out, seen):
    if v in seen:
        return
    seen.add(v)
    if v.op == 'adt' and v.a[0] == 'Sink':
        out.append(v)
        return
    for x in v.a:
        if isinstance(x, T):
            sinks_in(x, out, seen)


def opened(F):
    def go(rep):
        c = Client(F)
        I = c.I
        I.maxvisits = 200000
        file = name_sym('file', 5000)
        log = c.new(EMPTY)                       # what is done to the file system
        folderless = isv(sym('path without folder'), 1, 2)
        nofolder = isv(sym('folder cannot be made'), 1, 2)
        nofile = isv(sym('file cannot be made'), 1, 2)
        there = isv(sym('folder exists'), 1, 2)
        isthere = isv(sym('file exists'), 1, 2)

        def note(st, what, *a):
            I.store(st, log, lambda o: append(o, [e_(adt(what, 0, *a))]))

        def parent(I, st, a, cc):
            p = I.loadd(st, a[0])
            return ite(folderless, adt('Option', 0), some(app('parent', p))), st

        def mkdir(I, st, a, cc):
            note(st, 'mkdir' if cc['n'] == 'create_dir_all' else 'mkdir1', I.loadd(st, a[0]))
            return ite(nofolder, err(sym('mkdirerror')), ok(UNIT)), st

        def made(st, p, flags):
            note(st, 'open', p, *flags)
            return ite(nofile, err(sym('openerror')), ok(adt('Sink', 0, K(0), EMPTY)))

        def create(I, st, a, cc):
            fl = [B(f in ('write', 'truncate', 'create') + (('create_new',) if cc['n'] == 'create_new' else ())) for f in FLAGS]
            return made(st, I.loadd(st, a[0]), fl), st

        def options(I, st, a, cc):
            return adt('OpenOptions', 0, *[FALSE] * 6), st

        def setflag(I, st, a, cc):
            r = deref1(I, st, a[0])
            v = I.load(st, r)
            if v.op != 'adt' or cc['n'] not in FLAGS:
                return opq('OpenOptions'), st
            l = list(v.a)
            l[2 + FLAGS.index(cc['n'])] = I.loadd(st, a[1])
            I.store(st, r, adt(*l))
            return r, st

        def open_(I, st, a, cc):
            v = I.loadd(st, a[0])
            if v.op != 'adt' or v.a[0] != 'OpenOptions':
                return opq('OpenOptions'), st
            return made(st, I.loadd(st, a[1]), v.a[2:]), st

        def exists(I, st, a, cc):
            p = restrict(I.loadd(st, a[0]), st.pc)
            if p is app('parent', file) or same_text(p, file):
                return (isthere if same_text(p, file) else there), st
            return isv(app('exists', p), 1, 2), st

        def remove(I, st, a, cc):
            note(st, 'remove', I.loadd(st, a[0]))
            return ok(UNIT), st

        def cut(I, st, a, cc):
            note(st, 'cut', I.loadd(st, a[1]))
            return ok(UNIT), st
        def kind(I, st, a, cc):
            v = app(cc['n'] if cc['n'] != 'is_relative' else 'is_absolute', I.loadd(st, a[0]))
            cnd = isv(v, 1, 2)
            return (not_(cnd) if cc['n'] == 'is_relative' else cnd), st
        def builder(I, st, a, cc):
            if cc['n'] == 'new':
                return adt('DirBuilder', 0, FALSE), st
            r = deref1(I, st, a[0])
            if cc['n'] == 'recursive':
                I.store(st, r, adt('DirBuilder', 0, I.loadd(st, a[1])))
                return r, st
            v = restrict(I.load(st, r), st.pc)
            if v.op != 'adt' or v.a[2] not in (TRUE, FALSE):
                raise Undecided('how a folder is made')
            note(st, 'mkdir' if v.a[2] is TRUE else 'mkdir1', I.loadd(st, a[1]))
            return ite(nofolder, err(sym('mkdirerror')), ok(UNIT)), st
        from models import deref1, ident
        I.models = dict(I.models)
        I.models.update({'Path::parent': parent, 'fs::create_dir_all': mkdir, 'fs::create_dir': mkdir, 'DirBuilder::new': builder, 'DirBuilder::recursive': builder, 'DirBuilder::create': builder, 'File::create': create, 'File::create_new': create, 'File::options': options,
                         'OpenOptions::new': options, 'OpenOptions::open': open_, 'Path::exists': exists, 'Path::is_dir': exists, 'Path::is_relative': kind, 'Path::is_absolute': kind, 'Path::has_root': kind, 'Path::is_symlink': kind, 'Path::is_file': exists, 'fs::exists': lambda I, st, a, cc: (ok(exists(I, st, a, cc)[0]), st),
                         'Path::try_exists': lambda I, st, a, cc: (ok(exists(I, st, a, cc)[0]), st), 'fs::remove_file': remove, 'File::set_len': cut,
                         'PathBuf::from': ident, 'Path::to_path_buf': ident, 'PathBuf::as_path': ident, 'Path::as_os_str': ident})
        for f in FLAGS:
            I.models['OpenOptions::' + f] = setflag
        summ.install(I, 'var')
        decl = [(name_sym('device', 5100), [(name_sym('series', 5101), 'INT64', 'PLAIN', 'SNAPPY')])]
        schema = build_schema(c, decl)
        cf = c.call('TsFileConfig', 'default', trait='Default')
        r = c.call('TsFileWriter', 'new', file, schema, cf)
        ob = 'opening a file'
        if r is None:
            panics(rep, c, ob, ob, 'P27 P15')
            return
        base = c.st.pc
        for nm, pc, good in (('', and_(not_(folderless), and_(not_(nofolder), not_(nofile))), True),
                             (', the folder cannot be made', and_(and_(not_(folderless), not_(there)), and_(nofolder, nofile)), False),
                             (', the file cannot be made', and_(not_(folderless), and_(not_(nofolder), nofile)), False)):
            pc = and_(base, pc)
            if pc is FALSE:
                rep.add('P27', ob + nm, 'undecided', 'not reached')
                continue
            rr = restrict(r, pc)
            if rr.op != 'adt':
                same(isv(rr, 0, 2), B(good), pc, rep, 'P27', ob + nm, 'that a writer is made' + nm)
                continue
            if (rr.a[1] == 0) != good:
                rep.add('P27', ob + nm, 'violation', '%s%s: %s' % (ob, nm, 'a writer is handed out' if not good else 'no writer is made'), 'w')
                continue
            rep.add('P27', ob + nm, 'ok')
            if not good:
                continue
            sk = []
            sinks_in(restrict_deep_(rr, pc), sk, set())
            for e1, q1, dir_ in ((', folder there', and_(pc, there), True), (', no folder there', and_(pc, not_(there)), False)):
                for e2, q2, old in ((', an old file there', isthere, True), (', no file there', not_(isthere), False)):
                    if old and not dir_:
                        continue                 # there is no such state
                    n2 = ob + e1 + e2
                    for q, v in alternatives(c.get(log), and_(q1, q2)):
                        ss = segs_of(v)
                        if any(s.op != 'e' or s.a[0].op != 'adt' for s in ss):
                            rep.add('P27', n2, 'undecided', 'what is done to the file system is %s' % sshow(seqval(ss))[:200])
                            continue
                        ev = [s.a[0] for s in ss]
                        opens = [e for e in ev if e.a[0] == 'open']
                        bad = None
                        if len(opens) != 1:
                            bad = '%d files are opened' % len(opens) if not any(e.op != 'adt' for e in opens) else None
                        else:
                            o = opens[0]
                            p, fl = restrict_deep_(o.a[2], q), {k: restrict(v, q) for k, v in zip(FLAGS, o.a[3:])}
                            at = ev.index(o)
                            if any(v not in (TRUE, FALSE) for v in fl.values()):
                                rep.add('P27', n2, 'undecided', 'how the file is opened is %s' % fl)
                                continue
                            fl = {k for k, v in fl.items() if v is TRUE}
                            gone = any(e.a[0] == 'remove' and same_text(e.a[2], file) for e in ev[:at]) or any(e.a[0] == 'cut' and e.a[2] is K(0) for e in ev[at:]) or bool(fl & {'truncate', 'create_new'})
                            if not same_text(p, file):
                                if p.op in ('opq',) or any(y.op == 'opq' for y in _sub(p)):
                                    rep.add('P27', n2, 'undecided', 'the path opened is %s' % sshow(p))
                                    continue
                                bad = 'the file opened is %s' % sshow(p)
                            elif not fl & {'create', 'create_new'} and not old:
                                bad = 'the file is not created'
                            elif 'create_new' in fl and old and not any(e.a[0] == 'remove' for e in ev[:at]):
                                bad = 'an existing file is not replaced'
                            elif not gone and old:
                                bad = 'what an existing file holds is kept'
                            elif not fl & {'write', 'append'}:
                                bad = 'the file is not opened for writing'
                            dirs = [e for e in ev[:at] if e.a[0] == 'mkdir' and restrict_deep_(e.a[2], q) is app('parent', file)]
                            if bad is None and not dirs and not dir_:
                                unknown = [e for e in ev[:at] if e.a[0] in ('mkdir', 'mkdir1')]
                                bad = 'the missing folders of the path are not made before the file is' if not any(y.op == 'opq' for e in unknown for y in _sub(e)) else None
                            other = [e for e in ev if e.a[0] in ('mkdir', 'mkdir1') and same_text(restrict_deep_(e.a[2], q), file)]
                            if bad is None and other:
                                bad = 'a folder is made where the file goes'
                            late = [e for e in ev if e.a[0] == 'remove' and not same_text(restrict_deep_(e.a[2], q), file)]
                            if bad is None and late:
                                bad = 'another file is removed: %s' % sshow(late[0].a[2])
                            if bad is None and any(e.a[0] == 'remove' for e in ev[at:]):
                                bad = 'the file is removed again'
                        if bad:
                            rep.add('P27', n2, 'violation', '%s: %s' % (n2, bad), 'w')
                        else:
                            rep.add('P27', n2, 'ok')
            # the writer is the one made for that sink
            try:
                w0 = c.call('WriteWrapper', 'new', adt('Sink', 0, K(0), EMPTY))
            except Missing:
                w0 = adt('WriteWrapper', 0, *[{'position': K(0), 'writer': adt('Sink', 0, K(0), EMPTY)}[z[0]] for z in F.adt('WriteWrapper')['v'][0]['f']])
            r2 = c.call('TsFileWriter', 'new_from_writer', schema, w0, cf)
            if r2 is None:
                rep.add('P27', ob + '/writer', 'undecided', 'the writer on a sink was not made')
                continue
            w1, w2 = [restrict_deep_(restrict(v, pc), pc) for v in (r, r2)]
            if w2.op != 'adt' or w2.a[1] != 0:
                rep.add('P27', ob + '/writer', 'undecided', 'the writer on a sink was not made')
                continue
            w1, w2 = w1.a[2], w2.a[2]
            fs = [z[0] for z in F.adt('TsFileWriter')['v'][0]['f']]
            for k in ('file_io_writer', 'group_writers', 'record_count', 'record_count_for_next_mem_check', 'closed', 'non_aligned_timeseries_last_time_map', 'schema', 'config'):
                if k not in fs:
                    continue
                i = 2 + fs.index(k)
                if w1.a[i] is w2.a[i]:
                    rep.add('P27', ob + '/' + k, 'ok')
                elif any(y.op == 'opq' for v in (w1.a[i], w2.a[i]) for y in _sub(v)):
                    rep.add('P27', ob + '/' + k, 'undecided', '%s is unknown' % k)
                else:
                    b1, b2 = [], []
                    sinks_in(w1.a[i], b1, set())
                    sinks_in(w2.a[i], b2, set())
                    if k == 'file_io_writer' and len(b1) == len(b2) == 1 and b1[0] is not b2[0]:
                        rep.add('P27', ob + '/' + k, 'violation', 'a new writer leaves %s in the file, must be %s' % (sshow(b1[0].a[3]), sshow(b2[0].a[3])), 'w')
                    else:
                        rep.add('P27', ob + '/' + k, 'undecided', '%s differs from that of a writer on a sink' % k)
            if not sk:
                rep.add('P27', ob + '/sink', 'violation', 'the file made is not the one the writer writes to', 'w')
            else:
                rep.add('P27', ob + '/sink', 'ok')
        return {'calls analysed': I.callsites}
    return lambda: items(go)


def _sub(v, seen=None):
    seen = set() if seen is None else seen
    if v in seen:
        return []
    seen.add(v)
    out = [v]
    for x in v.a:
        if isinstance(x, T):
            out += _sub(x, seen)
    return out


def new_file(env, rep):
    if not env.F.has('TsFileWriter', 'new'):
        rep.add('P27', 'opening a file', 'undecided', 'anchor not found')
        return
    env.cov['writers made'] = env.pool(rep, [('opening a file', ['P27', 'P15'], opened(env.F))])
