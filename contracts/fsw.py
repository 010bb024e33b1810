"""The contracts which the methods of the filesystem and of open files (pkg/fs) are verified against."""
from common import *

FS_METHODS = ('Create', 'Mkdir', 'MkdirAll', 'Open', 'OpenFile', 'Remove', 'RemoveAll', 'Rename', 'Stat', 'Chmod', 'Chown', 'Chtimes',
              'LstatIfPossible', 'SymlinkIfPossible', 'ReadlinkIfPossible', 'Initialize', 'Name')
FS_MUTATING = ('Create', 'Mkdir', 'MkdirAll', 'Remove', 'RemoveAll', 'Rename', 'Chmod', 'Chown', 'Chtimes', 'SymlinkIfPossible')
FILE_METHODS = ('Name', 'Stat', 'Readdir', 'Readdirnames', 'Read', 'ReadAt', 'Seek', 'Write', 'WriteAt', 'WriteString', 'Truncate', 'Sync', 'Close')


def ep(st):
    return st.ghost.get('epoch', 0)


def need_lock(c, what):
    ck(c, 'C11', f'ioLock held at {what}', held(c.eng, c.st, 'ioLock'))


def stat_err(eng, st, name, sym):
    return uint('stat error', ep(st), name, sym)


def stat_hdr(eng, st, name, sym):
    """The header which the index has for a name: a function of the state of the index."""
    p = newptr(eng, st, HDR, 'stat')
    s = eng.root(st, p.root)
    for i, f in enumerate(eng.p.fields(s.t)):
        u = eng.p.u(f['t'])
        if u['k'] == 'basic' and u['b'] == 'int':
            v = uint('stat.' + f['n'], ep(st), name, sym)
            if f['n'] == 'Typeflag':
                st.pc.append(z3.And(v >= 0, v <= 255))
            if f['n'] == 'Size':
                st.pc.append(v >= 0)
            s = eng.setf(s, i, v)
        elif u['k'] == 'basic' and u['b'] == 'string':
            s = eng.setf(s, i, ustr('stat.' + f['n'], ep(st), name, sym))
    s = eng.setf(s, eng.p.fidx(s.t, 'PAXRecords'), MapV(False, newmap(eng, st, 'map[string]string', *[z3.Const(f'statpax{k}#{eng.uid}', z3.ArraySort(z3.StringSort(), x)) for k, x in ((0, z3.BoolSort()), (1, z3.StringSort()))]).root, typ(eng, 'map[string]string')))
    st.heap[p.root] = s
    return p


def h_stat(c):
    need_lock(c, 'Stat')
    md, name, sym, cb = c.args
    st, eng = c.st, c.eng
    e = stat_err(eng, st, name, sym)
    st.pc.append(e >= 0)
    p = stat_hdr(eng, st, name, sym)
    if sym is False:
        # Links are not resolved, and broken ones are not returned
        st.pc.append(z3.Implies(e == 0, ustr('stat.Linkname', ep(st), name, sym) == z3.StringVal('')))
    st.ev('Stat', name=name, sym=sym, e=e, p=p)
    return (PtrV(z3.Not(e == 0), p.root), ErrV(e))


def h_list(c):
    need_lock(c, 'List')
    md, name, limit, cb = c.args
    st = c.st
    e = uint('list error', ep(st), name)
    n = uint('list length', ep(st), name, limit)
    st.pc.append(z3.And(e >= 0, n >= 0))
    r = list(c.fresh())
    s = r[0]
    st.ev('List', name=name, limit=limit, n=n, e=e)
    # Elements of a listing are headers
    return (SliceV(False, s.root, 0, n, s.et), ErrV(e))


def opkind(c):
    """Which of the two Operations a call is on"""
    return 'writeOps' if 'writeOps' in str(c.args[0].root) else 'readOps' if 'readOps' in str(c.args[0].root) else str(c.args[0].root)


def mutation(name):
    def h(c):
        need_lock(c, name)
        eng, st = c.eng, c.st
        ck(c, 'C10', f'the drive is free at {name}', Eq(drive(st), 0))
        ck(c, 'C15', f'{name} only if writable', Not(st.ghost.get('readonly', False)))
        ck(c, 'C15', f'{name} through the writing operations', opkind(c) == 'writeOps')
        st.ev(name, args=c.args[1:], ep=ep(st))
        e = uint('operation error', z3.StringVal(name), ep(st), *[a for a in c.args[1:] if scalar(a)])
        st.pc.append(e >= 0)
        st.ghost['epoch'] = Add(ep(st), 1)
        st.ghost['mutations'] = Add(st.ghost.get('mutations', 0), 1)
        h2 = eng.job.handlers.get('mutation!')
        if h2:
            h2(c, name)
        if name in ('Archive', 'Update'):
            return (c.fresh()[0], ErrV(e))
        return ErrV(e)
    return h


def h_restore(c):
    need_lock(c, 'Restore')
    ck(c, 'C10', 'the drive is free at Restore', Eq(drive(c.st), 0))
    h2 = c.eng.job.handlers.get('restore!')
    if h2:
        h2(c)
    c.st.ev('Restore', args=c.args[1:])
    c.st.ghost['wcontent'] = z3.Int(f'restored#{c.uid}')
    return err(c)


def h_opsinit(c):
    return mutation('Initialize')(c)


def h_getter(field):
    def h(c):
        o = c.eng.root(c.st, c.args[0].root)
        return c.eng.fget(o, field)
    return h


def h_nolog(c):
    return [(c.st, [])]


def h_buffer(c):
    e = err(c)
    c.st.ghost['wcursor'] = 0
    c.st.ghost['wsize'] = 0
    c.st.ev('NewBuffer')
    return (IfaceV(z3.Not(e.term == 0), None, None, f'wbuf#{c.uid}', 'wbuf'), FuncV(z3.Not(e.term == 0), None, (), f'clean#{c.uid}', 'clean'), e)


def h_clean(c):
    c.st.ev('clean')
    return err(c)


def h_user(c):
    return c.fresh()


def h_root(c):
    need_lock(c, 'GetRootPath')
    st = c.st
    e = uint('root error', ep(st))
    st.pc.append(e >= 0)
    st.ev('GetRootPath')
    return (ustr('root', ep(st)), ErrV(e))


LOG = {f'({t}).{m}': h_nolog for m in ('Trace', 'Debug', 'Info', 'Warn', 'Error', 'Panic') for t in ('pkg/logging.StructuredLogger', 'github.com/fclairamb/go-log.Logger')}

# The buffer of an open file: an array of bytes with a cursor
def w_seek(c):
    off, wh = c.args
    st = c.st
    e, n = err(c), z3.Int(f'seek#{c.uid}')
    cur, size = st.ghost.get('wcursor', 0), st.ghost.get('wsize', 0)
    if not isz(wh):
        to = Add({0: 0, 1: cur, 2: size}.get(wh, 0), off) if wh in (0, 1, 2) else n
    else:
        to = z3.If(wh == 0, lit(off), z3.If(wh == 1, lit(cur) + lit(off), lit(size) + lit(off)))
    st.pc.append(z3.Implies(e.term == 0, n == lit(to)))
    st.pc.append(z3.Implies(e.term == 0, n >= 0))
    st.ghost['wcursor'] = z3.If(e.term == 0, n, lit(cur))
    st.ev('wseek', off=off, wh=wh, e=e)
    return (n, e)


def w_size(c):
    e = err(c)
    return (z3.If(e.term == 0, lit(c.st.ghost.get('wsize', 0)), z3.Int(f'size#{c.uid}')), e)


def w_read(c):
    st = c.st
    p = c.args[0]
    e, n = err(c), z3.Int(f'read#{c.uid}')
    cur, size = lit(st.ghost.get('wcursor', 0)), lit(st.ghost.get('wsize', 0))
    ln = lit(p.len)
    eof = c.eng.err('io.EOF').term
    # Reads at least one byte if there is one, and reports the end otherwise
    st.pc.append(z3.And(n >= 0, n <= ln, z3.Implies(n > 0, cur + n <= size)))
    st.pc.append(z3.Implies(z3.And(e.term == 0, ln > 0), n > 0))
    st.pc.append(z3.Implies(e.term == eof, cur + n >= size))
    st.pc.append(z3.Implies(z3.And(cur >= size, ln > 0), z3.And(n == 0, e.term != 0)))
    st.ghost['wcursor'] = cur + n
    st.ev('wread', at=cur, n=n, e=e, off=p.off, root=p.root, len=p.len)
    return (n, e)


def w_write(c):
    st = c.st
    p = c.args[0]
    e, n = err(c), z3.Int(f'wrote#{c.uid}')
    cur, size = lit(st.ghost.get('wcursor', 0)), lit(st.ghost.get('wsize', 0))
    st.pc.append(z3.And(n >= 0, n <= lit(p.len), z3.Implies(e.term == 0, n == lit(p.len))))
    st.ghost['wcursor'] = cur + n
    st.ghost['wsize'] = z3.If(cur + n > size, cur + n, size)
    st.ghost['wcontent'] = z3.Int(f'content#{c.uid}')
    ck(c, 'C14', 'a write marks the file as changed', changed(c))
    st.ev('wwrite', at=cur, n=n, e=e, p=p)
    return (n, e)


def changed(c):
    """The file's dirty flag"""
    f = file_of(c.eng, c.st)
    return c.eng.fget(f, 'dirty') if f is not None else False


def file_of(eng, st):
    r = getattr(eng, 'file', None)
    return eng.root(st, r) if r else None


def w_truncate(c):
    st = c.st
    e = err(c)
    n = c.args[0]
    ck(c, 'C14', 'a truncation marks the file as changed', changed(c))
    st.ghost['wsize'] = z3.If(e.term == 0, lit(n), lit(st.ghost.get('wsize', 0)))
    st.ghost['wcontent'] = z3.Int(f'content#{c.uid}')
    st.ev('wtruncate', n=n, e=e)
    return e


def w_close(c):
    c.st.ev('wclose')
    return err(c)


WBUF = {}
for k in ('wbuf', 'pkg/fs.File.writeBuf'):
    WBUF.update({f'{k}.Seek': w_seek, f'{k}.Size': w_size, f'{k}.Read': w_read, f'{k}.Write': w_write, f'{k}.Truncate': w_truncate,
                 f'{k}.Close': w_close})


HEADERMODE = 'pkg/fs.headerMode'


def tarmode(eng, st, m):
    """The mode of a header, which has other bits than `os.FileMode` for setuid, setgid and sticky"""
    t = eng.bitand(st, m, 0o777)
    for b, v in ((1 << 23, 0o4000), (1 << 22, 0o2000), (1 << 20, 0o1000)):
        t = Add(t, z3.If(lit(eng.bitand(st, m, b)) != 0, z3.IntVal(v), z3.IntVal(0)))
    return t


def fs_world(prop):
    h = {}
    for d in (BACKEND, INDEX, JSON, LOG, WBUF):
        h.update(d)
    h['pkg/inventory.Stat'] = h_stat
    h['pkg/inventory.List'] = h_list
    for n in ('Archive', 'Update', 'Delete', 'Move', 'Initialize'):
        h[OPS + n] = mutation(n)
    h[OPS + 'Restore'] = h_restore
    for n, f in (('GetBackend', 'backend'), ('GetMetadata', 'metadata'), ('GetPipes', 'pipes'), ('GetCrypto', 'crypto')):
        h[OPS + n] = h_getter(f)
    h['pkg/recovery.Index'] = h_index
    h['pkg/recovery.Fetch'] = h_fetch
    h[MP + 'GetRootPath'] = h_root
    for k in ('pkg/fs.STFS.getFileBuffer', 'pkg/fs.File.getFileBuffer', 'pkg/cache.NewCacheWrite'):
        h[k] = h_buffer
    for k in ('clean', 'pkg/fs.File.cleanWriteBuf'):
        h[k] = h_clean
    h[HEADERMODE] = lambda c: tarmode(c.eng, c.st, c.args[-1])
    h['os/user.Current'] = h_user
    h['(*os/user.User).GroupIds'] = h_user
    return h


def guarded_fields(prog, tname):
    """Fields of a type which are written outside of where it is constructed: they need a lock."""
    t = [i for s, i in prog.by_s.items() if short(s) == tname]
    if not t:
        return set()
    t = t[0]
    w = set()
    for n, f in prog.funcs.items():
        regs = {}
        for b in f['blocks']:
            for ins in b['ins']:
                if ins['op'] == 'fieldaddr':
                    xt = ins['x'].get('t')
                    if xt is not None and prog.types[xt].get('k') == 'ptr' and prog.types[xt]['e'] == t:
                        regs[ins['r']] = (ins['i'], ins['x'])
        for b in f['blocks']:
            allocs = {i['r'] for bb in f['blocks'] for i in bb['ins'] if i['op'] == 'alloc'}
            for ins in b['ins']:
                if ins['op'] == 'store' and ins['a'].get('k') == 'reg' and ins['a']['n'] in regs:
                    i, x = regs[ins['a']['n']]
                    if not (x.get('k') == 'reg' and x['n'] in allocs):
                        w.add(i)
    return w


def access(prog):
    guard = {}
    for tn in ('pkg/fs.File', 'pkg/fs.STFS', 'pkg/operations.Operations'):
        ids = [i for s, i in prog.by_s.items() if short(s) == tn]
        if ids:
            guard[ids[0]] = (tn, guarded_fields(prog, tn))

    def acc(eng, f, st, ptr, write):
        """C11: fields which change are only accessed with the lock."""
        if not ptr.path or '!' in str(ptr.root):
            return
        t = eng.roottype.get(ptr.root)
        if isinstance(t, tuple) or t not in guard:
            return
        tn, gf = guard[t]
        if ptr.path[0] in gf:
            nm = eng.p.fields(t)[ptr.path[0]]['n']
            eng.check(st, f'C11:{eng.job.fn}:{"writing" if write else "reading"} {tn.split(".")[-1]}.{nm} with the lock', Or(held(eng, st, 'ioLock'), held(eng, st, '.diskOperationLock')))
    return acc


def fs_pre(eng, st, A):
    r = A.get('f')
    if r is None:
        r = list(A.values())[0]
    st.ghost.update(drive=0, epoch=0, mutations=0)
    s = eng.root(st, r.root)
    names = fields(eng, s)
    if 'readOnly' in names:
        st.ghost['readonly'] = eng.fget(s, 'readOnly')
    else:
        eng.file = r.root
        fl = eng.load1(st, PtrV(False, eng.fget(s, 'flags').root))
        # Class invariant of an open file: it is only changed if it may be, and files of read-only filesystems may not be
        ro = z3.Bool('readonly')
        st.ghost['readonly'] = ro
        st.pc.append(z3.Not(eng.fget(s, 'flags').nil))
        st.pc.append(z3.Not(eng.fget(s, 'info').nil))
        st.pc.append(z3.Not(eng.fget(s, 'ioLock').nil))
        st.pc.append(z3.Not(eng.fget(s, 'log').nil))
        w = eng.fget(fl, 'Write')
        st.pc.append(z3.Implies(ro, z3.Not(w)))
        st.pc.append(z3.Implies(eng.fget(s, 'dirty'), w))
        st.pc.append(z3.Implies(eng.fget(s, 'dirty'), z3.Not(eng.fget(s, 'writeBuf').nil)))
        st.pc.append(eng.fget(s, 'writeBuf').nil == eng.fget(s, 'cleanWriteBuf').nil)
        st.pc.append(z3.Implies(eng.fget(s, 'closed'), eng.fget(s, 'writeBuf').nil))
        cur, size = z3.Int('cursor'), z3.Int('size')
        st.pc.append(z3.And(cur >= 0, size >= 0))
        st.ghost.update(wcursor=cur, wsize=size, wcontent=z3.Int('content'))
        # The logger, the operations and the buffers are given by the constructor
    return None


def file_inv(eng, st, fn, prop):
    """The class invariant of an open file, at return"""
    s = eng.root(st, eng.file)
    fl = eng.fget(s, 'flags')
    if fl.root is None:
        return
    w = eng.fget(eng.load1(st, PtrV(False, fl.root)), 'Write')
    for p, nm, cond in (
            ('C15', 'only files which are open for writing are changed', Imp(eng.fget(s, 'dirty'), w)),
            ('C14', 'a changed file has a buffer', Imp(eng.fget(s, 'dirty'), Not(nilof(eng.fget(s, 'writeBuf'))))),
            ('C10', 'a buffer can be cleaned', iff(nilof(eng.fget(s, 'writeBuf')), nilof(eng.fget(s, 'cleanWriteBuf')))),
            ('C14', 'a closed file has no buffer', Imp(eng.fget(s, 'closed'), nilof(eng.fget(s, 'writeBuf'))))):
        if p == prop:
            eng.check(st, f'{p}:{fn}:{nm}', cond, assume=False)


def fs_post(eng, st, A, rs):
    fn = eng.job.fn
    p = eng.job.prop
    locks = [d['n'] for n, d in st.trace if n == 'lock']
    if p in ('C10', 'C11'):
        for k, v in list(st.ghost.items()):
            if isinstance(k, tuple) and k[0] == 'lock':
                n = lockname(eng, PtrV(False, k[1], k[2]))
                eng.check(st, f'{p}:{fn}:{n.split(".")[-1]} is free at return', Not(v), assume=False)
        eng.check(st, f'C10:{fn}:the drive is free at return', Eq(drive(st), 0), assume=False)
    eng.check(st, f'C11:{fn}:one critical section', len([x for x in locks if 'ioLock' in x]) <= 1, assume=False)
    if getattr(eng, 'file', None):
        file_inv(eng, st, fn, p)
    if fn.startswith(FS) and fn.split('.')[-1] in FS_MUTATING:
        ro = st.ghost['readonly']
        # Mutating calls on a read-only filesystem fail with a permission error (or because of their arguments)
        e = rs[-1]
        perm = eng.err('os.ErrPermission').term
        bad = eng.err('os.ErrInvalid').term
        name = fn.split('.')[-1]
        if name not in ('Create',):
            eng.check(st, f'C15:{fn}:permission error if read-only', Imp(ro, Eq(e.term, perm)), assume=False)
        else:
            eng.check(st, f'C15:{fn}:permission error if read-only', Imp(ro, Eq(e.term, perm)), assume=False)
    h = eng.job.handlers.get('post!')
    if h:
        h(eng, st, A, rs)


def h_rofile(c):
    return None


def fs_jobs(prog, prop, checks=(), fs=FS_METHODS, files=FILE_METHODS, extra=None):
    J = []
    acc = access(prog) if prop == 'C11' else None
    for n in fs:
        h = fs_world(prop)
        if extra:
            h.update(extra(FS + n) or {})
        j = Job(FS + n, pre=fs_pre, post=fs_post, handlers=h, checks=checks, prop=prop)
        j.access = acc
        J.append(j)
    for n in files:
        h = fs_world(prop)
        if extra:
            h.update(extra(FILE + n) or {})
        j = Job(FILE + n, pre=fs_pre, post=fs_post, handlers=h, checks=checks, prop=prop)
        j.access = acc
        J.append(j)
    return J
