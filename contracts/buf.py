"""An open file is an array of bytes with a cursor (C14).

The buffer's own operations are those of an array with a cursor (fsw.WBUF). The methods of the file have to be the
operations on it which they are named after: at the right place, with the caller's bytes, with the counts, the offsets and
the end which the buffer reports, and only after what the file consists of has been loaded.
"""
from common import *
from rec import obl
from drv import both
from fsw import fs_jobs, h_buffer, h_restore, file_of, w_seek, w_size, w_read, w_write, w_truncate, w_close, ep, h_clean
import compr

NOROWS = 'database/sql.ErrNoRows'
READS = ('Read', 'ReadAt')
WRITES = ('Write', 'WriteAt', 'WriteString')
PURE = ('Name', 'Stat', 'Readdir', 'Readdirnames', 'Read', 'ReadAt', 'Seek', 'Sync', 'Close')
P = ('C14',)


HAS = {'io.Reader': ('Read',), 'io.Writer': ('Write',), 'io.Closer': ('Close',), 'io.Seeker': ('Seek',), 'io.ReadSeeker': ('Read', 'Seek'), 'io.ReadCloser': ('Read', 'Close'),
       'io.WriteCloser': ('Write', 'Close'), 'io.ReadWriter': ('Read', 'Write'), 'io.ReadSeekCloser': ('Read', 'Seek', 'Close'), 'io.WriteSeeker': ('Write', 'Seek')}


def invoke(eng, st, v, meth, args):
    """What a method of a result does; structures have the methods of what they embed"""
    if isinstance(v, IfaceV) and v.dyn is not None and isinstance(v.val, StructV):
        t = eng.p.types[v.dyn]
        ms = eng.p.methods.get(t['s'])
        if not (ms and meth in ms):
            for i, f in enumerate(eng.p.fields(v.val.t)):
                if meth in HAS.get(short(eng.p.types[f['t']]['s']), ()):
                    return invoke(eng, st, eng.fget(v.val, f['n']), meth, args)
            raise Unsupported(f'{meth} of a structure')
    if isinstance(v, IfaceV) and v.kind == 'io.NopCloser' and meth == 'Close':
        return [(st, [ErrV(0)])]
    if isinstance(v, IfaceV) and v.dyn is None and v.kind in ('wbuf', 'pkg/fs.File.writeBuf'):
        c = compr.mk(eng, st, v, meth, args, meth)
        c.args = list(args)
        r = OPENF[f'{v.kind}.{meth}'](c)
        return [(st, list(r) if isinstance(r, tuple) else [r])]
    return compr.invoke(eng, st, v, meth, args)


def fld(eng, n, st=None):
    """A field of the file as it has been at the call"""
    return eng.fget(eng.bufF0, n)


def flag(eng, n):
    return eng.fget(eng.bufFl, n)


def had(eng):
    return Not(nilof(fld(eng, 'writeBuf')))


def base_of(eng):
    """Where the method has to start"""
    fn = eng.bufFn
    cur = z3.If(lit(had(eng)), z3.Int('cursor'), z3.IntVal(0))
    if fn in ('ReadAt', 'WriteAt'):
        return eng.bufA['off']
    return cur


def wbase_of(eng, st):
    b = base_of(eng)
    if eng.bufFn in ('Write', 'WriteString'):
        return z3.If(lit(flag(eng, 'Append')), size0(eng), b)
    return b


def archived(eng):
    """Size of what is archived, and whether the file exists, is to be loaded"""
    n = fld(eng, 'path')
    e = uint('stat error', 0, n, False)
    s = uint('stat.Size', 0, n, False)
    return e, s


def size0(eng):
    """Size of the content before the method"""
    e, s = archived(eng)
    return z3.If(lit(had(eng)), z3.Int('size'), z3.If(lit(loads(eng)), lit(s), z3.IntVal(0)))


def trunc(eng):
    return And(flag(eng, 'Write'), flag(eng, 'Truncate'))


def loads(eng):
    e, s = archived(eng)
    return And(Eq(e, 0), Not(Eq(s, 0)), Not(trunc(eng)))


def ready(c, what):
    """What the file consists of is in the buffer"""
    eng, st = c.eng, c.st
    if st.ghost.get('restoring'):
        return
    e, s = archived(eng)
    known = z3.Or(e == 0, e == eng.err(NOROWS).term)
    obl(eng, st, P, f'the content has been loaded before {what}', Or(had(eng), And(bool(st.events('NewBuffer')), known, iff(st.ghost.get('restored', False), loads(eng)))))
    obl(eng, st, P, 'a closed file is not used', Not(fld(eng, 'closed')))


def fail(c, e, reading=False):
    """An operation of the buffer has failed"""
    g = c.st.ghost
    eof = c.eng.err('io.EOF').term if reading else 0
    g['wfail'] = Or(g.get('wfail', False), And(Not(Eq(e.term, 0)), Not(Eq(e.term, eof))))


def b_seek(c):
    n, e = w_seek(c)
    fail(c, e)
    return (n, e)


def b_size(c):
    ready(c, 'asking for its size')
    e0 = w_size(c)
    fail(c, e0[1])
    return e0


def b_read(c):
    eng, st = c.eng, c.st
    p = c.args[0]
    if not st.ghost.get('restoring') and not st.ghost.get('archiving'):
        ready(c, 'reading')
        dst = eng.bufA.get('p')
        if eng.bufFn in READS and isinstance(dst, SliceV):
            obl(eng, st, P, 'bytes go to where they belong', And(p.root == dst.root, Eq(Sub(p.off, dst.off), Sub(st.ghost['wcursor'], base_of(eng)))))
    r = w_read(c)
    st.ghost['rend'] = st.ghost['wcursor']
    fail(c, r[1], True)
    return r


def b_write(c):
    eng, st = c.eng, c.st
    p = c.args[0]
    if st.ghost.get('restoring'):
        st.ev('copied', p=p)
        return (p.len, ErrV(0))
    ready(c, 'writing')
    fn = eng.bufFn
    obl(eng, st, P, 'reading changes nothing', fn not in PURE)
    src = eng.bufA.get('p')
    wb = wbase_of(eng, st)
    cur = st.ghost['wcursor']
    if fn in ('Write', 'WriteAt') and isinstance(src, SliceV):
        obl(eng, st, P, 'what is written are the given bytes, to where they belong', And(p.root == src.root, Eq(Sub(p.off, src.off), Sub(cur, wb))))
    elif fn == 'WriteString':
        obl(eng, st, P, 'what is written are the given bytes, to where they belong', And(Eq(cur, wb), Eq(eng.bytes_str(st, p), eng.bufA['s'])))
    else:
        obl(eng, st, P, 'only writing writes', False)
    r = w_write(c)
    st.ghost['wend'] = st.ghost['wcursor']
    fail(c, r[1])
    return r


def b_truncate(c):
    eng, st = c.eng, c.st
    ready(c, 'truncating')
    obl(eng, st, P, 'only truncating truncates', eng.bufFn == 'Truncate')
    if 'size' in eng.bufA:
        obl(eng, st, P, 'it is truncated to the given size', Eq(c.args[0], eng.bufA['size']))
    r = w_truncate(c)
    fail(c, r)
    return r


def b_close(c):
    if c.st.ghost.get('restoring'):
        obl(c.eng, c.st, P, 'the buffer is kept after loading', False)
    return w_close(c)


def b_readfull(c):
    """io.ReadFull, io.ReadAtLeast of everything"""
    raise Unsupported('reading all of it from the buffer')


def n_buffer(c):
    eng, st = c.eng, c.st
    obl(eng, st, P, 'content is only loaded once', Not(had(eng)))
    r = h_buffer(c)
    fail(c, r[2])
    if isz(r[2].term):
        st.ghost['newbuf'] = r[0].label
    return r


def b_restore(c):
    eng, st = c.eng, c.st
    r = h_restore(c)
    dst, mkdir, frm, to, flat = c.args[1:6]
    obl(eng, st, P, "it is the file's content which is loaded", And(Eq(frm, fld(eng, 'path')), bool(st.events('NewBuffer'))))
    obl(eng, st, P, 'it is the file itself which is loaded, and nothing next to it', flat)
    obl(eng, st, P, 'there is something to load', loads(eng))
    obl(eng, st, P, 'loading starts with an empty buffer', And(Eq(st.ghost['wcursor'], 0), Eq(st.ghost['wsize'], 0)))
    # Where it goes to
    eng.uid += 1
    s = st.fork()
    s.ghost['restoring'] = True
    k = eng.uid
    for s2, rs in eng.exec_fn(dst.name, [z3.String(f'restored to#{k}'), z3.Int(f'restored mode#{k}')], dst.binds, s, c.depth + 1):
        obl(eng, s2, P, 'there is a place for what is loaded', Eq(rs[1].term, 0))
        b = fresh_bytes(eng, s2, k)
        n0 = len(s2.events('copied'))
        for s3, r3 in invoke(eng, s2.fork(), rs[0], 'Write', [b]):
            w = s3.events('copied')[n0:]
            obl(eng, s3, P, 'what is loaded goes into the buffer', len(w) == 1 and And(w[0]['p'].root == b.root, Eq(w[0]['p'].off, b.off), Eq(w[0]['p'].len, b.len)))
            for s4, r4 in invoke(eng, s3, rs[0], 'Close', []):
                pass
    e, sz = archived(eng)
    ok = Eq(r.term, 0)
    st.ghost['wcursor'] = z3.If(lit(ok), lit(sz), z3.Int(f'part#{c.uid}'))
    st.ghost['wsize'] = z3.If(lit(ok), lit(sz), z3.Int(f'partsize#{c.uid}'))
    st.pc += [lit(sz) >= 0, z3.Int(f'part#{c.uid}') >= 0, z3.Int(f'partsize#{c.uid}') >= 0]
    st.ghost['restored'] = Or(st.ghost.get('restored', False), ok)
    fail(c, r)
    return r


def fresh_bytes(eng, st, k):
    return eng.fresh(typ(eng, '[]byte'), f'some bytes#{k}')


def updates(c, name):
    """What is archived when the file is synced"""
    eng, st = c.eng, c.st
    fn = eng.bufFn
    if name != 'Update' or fn not in ('Sync', 'Close'):
        obl(eng, st, P, 'only syncing archives content', False)
        return
    src, level, replace = c.args[1:4]
    obl(eng, st, P, 'nothing is archived unless something has changed', fld(eng, 'dirty'))
    obl(eng, st, P, 'the content is replaced', replace)
    obl(eng, st, P, 'what has changed is archived once', len(st.events('Update')) == 1)
    e, _ = archived(eng)
    s = st.fork()
    s.ghost['archiving'] = True
    for s2, rs in eng.exec_fn(src.name, [], src.binds, s, c.depth + 1):
        cfg = rs[0]
        obl(eng, s2, P, 'there is something to archive', Eq(rs[1].term, 0))
        obl(eng, s2, P, 'it is the file which is archived', And(Eq(eng.fget(cfg, 'Path'), fld(eng, 'path')), Eq(e, 0)))
        h = s2.ghost.get(('fileinfo', getattr(eng.fget(cfg, 'Info'), 'label', None)))
        if h is not None:
            obl(eng, s2, P, 'it is archived with the size of the content', Eq(eng.fget(h.v, 'Size'), s2.ghost['wsize']))
            for f in ('Mode', 'Uid', 'Gid', 'Typeflag'):
                obl(eng, s2, P, 'its other attributes stay', Eq(eng.fget(h.v, f), uint('stat.' + f, 0, fld(eng, 'path'), False)))
        gf = eng.fget(cfg, 'GetFile')
        s3 = s2.fork()
        s3.ghost['wcursor'] = z3.Int(f'anywhere#{c.uid}')
        s3.pc.append(s3.ghost['wcursor'] >= 0)
        s3.ghost['wfail'] = False
        for s4, r4 in eng.exec_fn(gf.name, [], gf.binds, s3, c.depth + 1):
            good = Eq(r4[1].term, 0)
            obl(eng, s4, P, 'the content is read from its start', Imp(good, Eq(s4.ghost['wcursor'], 0)))
            obl(eng, s4, P, 'the content can be read unless the buffer fails', Imp(Not(s4.ghost['wfail']), good))
            if not eng.feasible(s4, lit(good)):
                continue
            eng.assume(s4, good)
            b = fresh_bytes(eng, s4, c.uid)
            n0 = len(s4.events('wread'))
            for s5, r5 in invoke(eng, s4, r4[0], 'Read', [b]):
                w = s5.events('wread')[n0:]
                obl(eng, s5, P, 'what is archived is the content of the buffer', len(w) == 1 and And(w[0]['root'] == b.root, Eq(w[0]['off'], b.off), Eq(w[0]['len'], b.len), Eq(r5[0], w[0]['n']), Eq(r5[1].term, w[0]['e'].term)))
                for s6, r6 in invoke(eng, s5, r4[0], 'Close', []):
                    obl(eng, s6, P, 'the buffer is kept after syncing', len(s6.events('wclose')) == len(st.events('wclose')))
        for s3, r3 in eng.exec_fn(src.name, [], src.binds, s2.fork(), c.depth + 1):
            obl(eng, s3, P, 'nothing else is archived', Eq(r3[1].term, eng.err('io.EOF').term))
    st.ghost['wcursor'] = z3.Int(f'after archiving#{c.uid}')
    st.pc.append(st.ghost['wcursor'] >= 0)


def buf_templates(eng, f, P_, quant, errs):
    out = [('nothing has failed', lambda Q: Not(Q.st.ghost['wfail']))]
    base = base_of(eng)
    dst = eng.bufA.get('p')
    for nx, gx, x0 in quant:
        if nx.startswith('ghost'):
            continue
        out.append((f'cursor = base + {nx}', lambda Q, gx=gx: Eq(Q.st.ghost['wcursor'], Add(base, gx(Q)))))
        out.append((f'end of what is read = base + {nx}', lambda Q, gx=gx: Eq(Q.st.ghost['rend'], Add(base, gx(Q)))))
        out.append((f'end of what is written = wbase + {nx}', lambda Q, gx=gx: Eq(Q.st.ghost['wend'], Add(wbase_of(eng, Q.st), gx(Q)))))
        if isinstance(dst, SliceV):
            out.append((f'0 <= {nx} <= len(p)', lambda Q, gx=gx: And(Cmp('>=', gx(Q), 0), Cmp('<=', gx(Q), dst.len))))
        out.append((f'{nx} within the content', lambda Q, gx=gx: z3.Or(lit(gx(Q)) == 0, lit(base) + lit(gx(Q)) <= lit(Q.st.ghost['wsize']))))
    return out


def buf_pre(p0):
    def pre(eng, st, A):
        r = p0(eng, st, A)
        eng.bufFn = eng.job.fn.split('.')[-1]
        eng.bufA = dict(A)
        s = eng.root(st, eng.file)
        eng.bufF0 = s
        eng.bufFl = eng.load1(st, PtrV(False, eng.fget(s, 'flags').root))
        inf = eng.fget(s, 'info')
        eng.bufInfo = eng.load1(st, PtrV(False, inf.root))
        st.ghost.update(wfail=False, restored=False)
        b = base_of(eng)
        st.ghost['rend'] = b
        st.ghost['wend'] = wbase_of(eng, st)
        e, sz = archived(eng)
        st.pc += [lit(sz) >= 0, lit(e) >= 0, e != eng.err('io.EOF').term]
        return r
    return pre


def isdir(eng, st):
    """What f.info.IsDir() says"""
    i = eng.bufInfo
    for n in ('isDir', 'dir', 'IsDir'):
        if n in fields(eng, i):
            return eng.fget(i, n)
    return None


def mn(a, b):
    return z3.If(lit(a) < lit(b), lit(a), lit(b))


def mx(a, b):
    return z3.If(lit(a) > lit(b), lit(a), lit(b))


def buf_post(eng, st, A, rs):
    fn = eng.bufFn
    g = st.ghost
    fail = g['wfail']
    sE, sS = archived(eng)
    # What makes a method fail other than the buffer: the index, a file which is closed
    can = And(Not(fld(eng, 'closed')), Or(had(eng), sE == 0, sE == eng.err(NOROWS).term))
    ok = And(Not(fail), can)
    eof = eng.err('io.EOF').term
    F = lambda what, cond: obl(eng, st, P, what, cond)
    W, R = flag(eng, 'Write'), flag(eng, 'Read')
    d = isdir(eng, st)
    touched = bool(st.events('wwrite') or st.events('wtruncate'))
    dirty = eng.fget(eng.root(st, eng.file), 'dirty')
    A = eng.bufA
    loaded = Or(had(eng), bool(st.events('NewBuffer')))
    moved = Not(Eq(g['wcursor'], z3.If(lit(had(eng)), z3.Int('cursor'), z3.IntVal(0))))
    if d is None:
        raise Unsupported('kind of an open file')
    if fn in READS:
        n, e = rs
        p = A['p']
        size, base = size0(eng), base_of(eng)
        want = mn(p.len, mx(size - base, 0))
        may = And(R, Not(d))
        F('what may not be read is not', Imp(Not(may), And(Eq(n, 0), Or(Not(Eq(e.term, 0)), Eq(p.len, 0)), Not(bool(st.events('wread'))))))
        F('what has been read is counted', Eq(n, Sub(g['rend'], base)))
        F('a read gives what there is', Imp(And(may, ok, Cmp('>=', base, 0)), Eq(n, want)))
        F('a failure is reported', Imp(And(may, Cmp('>', p.len, 0), Not(And(ok, Cmp('>=', base, 0)))), And(Not(Eq(e.term, 0)), True)))
        if fn == 'Read':
            F('the cursor is behind what has been read', Imp(loaded, Or(fail, Eq(g['wcursor'], Add(base, n)))))
            F('the end is reported once there is nothing left', Imp(And(may, ok, Cmp('>', p.len, 0)), ite(Eq(want, 0), Eq(e.term, eof), Eq(e.term, 0))))
        else:
            F('the cursor stays', Imp(loaded, Or(fail, Not(moved))))
            F('the end is reported if there is less than asked for', Imp(And(may, ok, Cmp('>', p.len, 0), Cmp('>=', base, 0)), ite(Eq(want, p.len), Or(Eq(e.term, 0), Eq(e.term, eof)), Eq(e.term, eof))))
    if fn in WRITES:
        n, e = rs
        ln = A['p'].len if 'p' in A else z3.Length(lit(A['s']))
        wb = wbase_of(eng, st)
        may = And(W, Not(d))
        if fn == 'WriteAt':
            may = And(may, Cmp('>=', A['off'], 0))
        F('what may not be written is not', Imp(Not(may), And(Eq(n, 0), Not(Eq(e.term, 0)), not touched)))
        some = Cmp('>', ln, 0)
        if fn == 'WriteString':
            F('all of it is written', Imp(And(may, ok, some), And(len(st.events('wwrite')) == 1, Eq(n, g['wend'] - lit(wb)))))
        else:
            F('all of it is written', Imp(And(may, ok), And(Eq(n, ln), Eq(e.term, 0), Eq(Sub(g['wend'], wb), ln))))
        F('what has been written is counted', Eq(n, Sub(g['wend'], wb)))
        F('a failure is reported', Imp(And(may, some, Not(ok)), Not(Eq(e.term, 0))))
        if fn == 'WriteAt':
            F('the cursor stays', Imp(And(loaded, Not(fail)), Not(moved)))
        else:
            F('the cursor is behind what has been written', Imp(And(may, loaded, Not(fail), some), Eq(g['wcursor'], g['wend'])))
        F('the file has changed', Imp(And(may, ok, some), dirty))
        F('nothing else changes its size', Imp(And(may, ok, some), Eq(g['wsize'], mx(size0(eng), g['wend']))))
    if fn == 'Truncate':
        e = rs[0]
        may = And(W, Not(d), Cmp('>=', A['size'], 0))
        F('what may not be truncated is not', Imp(Not(may), And(Not(Eq(e.term, 0)), not touched)))
        F('it is truncated', Imp(And(may, ok), And(Eq(e.term, 0), len(st.events('wtruncate')) == 1, dirty, Eq(g['wsize'], A['size']))))
        F('a failure is reported', Imp(And(may, Not(ok)), Not(Eq(e.term, 0))))
        F('the cursor stays', Imp(And(loaded, Not(fail)), Not(moved)))
    if fn == 'Seek':
        n, e = rs
        off, wh = lit(A['offset']), lit(A['whence'])
        to = z3.If(wh == 0, off, z3.If(wh == 1, base_of(eng) + off, lit(size0(eng)) + off))
        known = z3.And(wh >= 0, wh <= 2)
        F('the cursor is set as asked for', Imp(And(Not(d), ok, known), And(Eq(e.term, 0), Eq(n, to), Eq(g['wcursor'], to))))
        F('a failure is reported', Imp(And(Not(d), Not(ok)), Not(Eq(e.term, 0))))
    if fn == 'Stat':
        i, e = rs
        F('the size is the one of the content', Or(Not(Eq(e.term, 0)), size_of(eng, st, i, d)))
    if fn in PURE:
        F('reading changes nothing', not touched)
    if fn in ('Sync', 'Close'):
        e = rs[0]
        up = st.events('Update')
        gone = Eq(sE, eng.err(NOROWS).term)
        f1 = eng.root(st, eng.file)
        upe = [x for x in up]
        F('what has changed is archived', Imp(And(Eq(e.term, 0), fld(eng, 'dirty'), Not(d)), Or(bool(up), gone)))
        F('a failure to archive is reported', Imp(And(fld(eng, 'dirty'), Not(gone), Not(Eq(sE, 0))), Not(Eq(e.term, 0))))
        ok_up = Eq(st.ghost.get('updated', False), True) if False else None
        for x in up:
            ue = uint('operation error', z3.StringVal('Update'), x['ep'], *[a for a in x['args'] if scalar(a)])
            F('a failure to archive is reported', Imp(Not(Eq(ue, 0)), Not(Eq(e.term, 0))))
            if fn == 'Sync':
                F('what has not been archived is still to be', Imp(Not(Eq(ue, 0)), dirty))
        if fn == 'Sync':
            F('what has been archived is not archived again', Imp(And(Eq(e.term, 0), bool(up)), Not(dirty)))
            F('what has not been archived is still to be', Imp(And(not up, fld(eng, 'dirty')), dirty))
            F('the cursor stays', Imp(Eq(e.term, 0), Or(Not(had(eng)), Not(moved))))
        else:
            F('the file is closed', And(eng.fget(f1, 'closed'), nilof(eng.fget(f1, 'writeBuf'))))


def size_of(eng, st, i, d):
    if isinstance(i, IfaceV) and i.nil is True:
        return False
    if not isinstance(i, IfaceV) or i.val is None:
        raise Unsupported('information of an open file')
    v = i.val
    s = eng.root(st, v.root) if isinstance(v, PtrV) else v
    inf = eng.bufInfo
    return Eq(eng.fget(s, 'size'), z3.If(lit(had(eng)), z3.Int('size'), lit(eng.fget(inf, 'size'))))


OPENF = {}
for k in ('wbuf', 'pkg/fs.File.writeBuf'):
    OPENF.update({f'{k}.Seek': b_seek, f'{k}.Size': b_size, f'{k}.Read': b_read, f'{k}.Write': b_write, f'{k}.Truncate': b_truncate, f'{k}.Close': b_close})


def bufextra(full):
    h = dict(OPENF)
    for k in ('pkg/fs.STFS.getFileBuffer', 'pkg/fs.File.getFileBuffer', 'pkg/cache.NewCacheWrite'):
        h[k] = n_buffer
    h[OPS + 'Restore'] = b_restore
    h['mutation!'] = updates
    h['post!'] = buf_post
    return h


def buf_jobs(prog, prop='C14'):
    J = fs_jobs(prog, prop, (), (), ('Stat', 'Read', 'ReadAt', 'Seek', 'Write', 'WriteAt', 'WriteString', 'Truncate', 'Sync', 'Close'), bufextra)
    for j in J:
        j.pre = buf_pre(j.pre)
        j.templates = buf_templates
    return J


# ---------------------------------------------------------------- opening
def open_post(eng, st, A, rs):
    v, e = rs
    if Eq(e.term, 0) is False:
        return
    if isinstance(v, IfaceV) and v.nil is True:
        obl(eng, st, P, 'a success gives a file', Not(Eq(e.term, 0)))
        return
    if not (isinstance(v, IfaceV) and isinstance(v.val, PtrV)):
        raise Unsupported('file which is opened')
    f = eng.root(st, v.val.root)
    fl = eng.load1(st, PtrV(False, eng.fget(f, 'flags').root))
    ro = st.ghost['readonly']
    want = eng.openA['flag']
    acc = eng.bitand(st, want, 3)
    s = eng.openF
    lenient = eng.fget(s, 'writePermImpliesReadPerm')
    ok = Eq(e.term, 0)
    has = lambda b: Not(Eq(eng.bitand(st, want, b), 0))
    known = Or(Eq(acc, 0), Eq(acc, 1), Eq(acc, 2))
    F = lambda what, cond: obl(eng, st, P, what, Imp(And(ok, known), cond))
    writes = Or(Eq(acc, 1), Eq(acc, 2))
    F('it may be read if it has been opened for that', Imp(Not(ro), iff(eng.fget(fl, 'Read'), Or(Eq(acc, 0), Eq(acc, 2), And(Eq(acc, 1), lenient)))))
    F('it may be written if it has been opened for that', iff(eng.fget(fl, 'Write'), And(writes, Not(ro))))
    F('what is written is appended if it has been opened for that', Imp(And(writes, Not(ro)), iff(eng.fget(fl, 'Append'), has(0x400))))
    F('it is emptied if it has been opened for that', Imp(And(writes, Not(ro)), iff(eng.fget(fl, 'Truncate'), has(0x200))))
    inf = eng.load1(st, PtrV(False, eng.fget(f, 'info').root))
    cut = And(eng.fget(fl, 'Write'), eng.fget(fl, 'Truncate'))
    F('what has been emptied has changed', Imp(And(cut, Cmp('>', eng.fget(inf, 'size'), 0)), eng.fget(f, 'dirty')))
    F('nothing is loaded or changed by opening', Imp(Not(cut), And(nilof(eng.fget(f, 'writeBuf')), Not(eng.fget(f, 'dirty')))))
    F('it is open', Not(eng.fget(f, 'closed')))
    obl(eng, st, P, 'a changed file has a buffer', Imp(And(ok, eng.fget(f, 'dirty')), Not(nilof(eng.fget(f, 'writeBuf')))))
    n = ustr('path.Clean', eng.openA['name'])
    F('it is the named entry which is opened', Imp(uint('stat error', 0, n, False) == 0, Eq(eng.fget(f, 'path'), ustr('stat.Name', 0, n, False))))
    F('its size is the one of the entry', Imp(uint('stat error', 0, n, False) == 0, Eq(eng.fget(inf, 'size'), uint('stat.Size', 0, n, False))))
    obl(eng, st, P, 'opening writes no content', not st.events('Update'))


def open_job(prog):
    J = fs_jobs(prog, 'C14', (), ('OpenFile',), (), lambda full: {'post!': open_post})
    for j in J:
        p0 = j.pre

        def pre(eng, st, A, p0=p0):
            eng.openA = dict(A)
            r = p0(eng, st, A)
            eng.openF = eng.root(st, A['f'].root)
            return r
        j.pre = pre
    return J


# ---------------------------------------------------------------- pkg/cache: the buffers of open files
FB = '(pkg/cache.filebufferWithSize).'
FW = '(pkg/cache.fileWithSize).'
BB = '(*bytes.Buffer).'


def elem(a, i):
    """The element of an array at an index"""
    r = z3.IntVal(0) if a.zero else uint('element of ' + a.label, i)
    for start, ln, kind, src in a.over:
        o = lit(i) - lit(start)
        if kind == 'val':
            r = z3.If(o == 0, lit(src), r)
        else:
            r = z3.If(z3.And(o >= 0, o < lit(ln)), elem(src[0], o + lit(src[1])), r)
    return r


def mem(eng, st):
    return st.heap[eng.mem]


def mem_len(c):
    return c.st.ghost['memlen']


def mem_bytes(c):
    n = c.st.ghost['memlen']
    return SliceV(False, c.eng.mem, 0, n, mem(c.eng, c.st).et)


def mem_write(c):
    eng, st = c.eng, c.st
    p = c.args[-1]
    a = mem(eng, st)
    n = st.ghost['memlen']
    if p.root is not None:
        st.heap[eng.mem] = ArrV(a.et, a.label, list(a.over) + [(n, p.len, 'arr', (eng.arr_of(st, p), p.off))], None, a.zero)
    st.ghost['memlen'] = Add(n, p.len)
    return (p.len, ErrV(0))


def mem_truncate(c):
    n = c.args[-1]
    obl(c.eng, c.st, P, 'the memory is only cut within what it has', And(Cmp('>=', n, 0), Cmp('<=', n, c.st.ghost['memlen'])))
    c.st.ghost['memlen'] = n
    return [(c.st, [])]


def mem_reset(c):
    c.st.ghost['memlen'] = 0
    return [(c.st, [])]


def mem_pre(eng, st, A):
    b = eng.fresh(typ(eng, '[]byte'), 'memory')
    st.pc.append(z3.Not(b.nil)) if isz(b.nil) else None
    eng.mem = b.root
    eng.mem0 = ArrV(b.et, 'memory')
    st.heap[b.root] = eng.mem0
    n, i = z3.Int('size'), z3.Int('index')
    st.pc += [n >= 0, i >= 0]
    st.ghost['memlen'] = n
    r = list(A.values())[0]
    p = eng.fget(r, 'Buffer')
    s = eng.root(st, p.root)
    st.pc += [z3.Not(p.nil)] if isz(p.nil) else []
    st.heap[p.root] = eng.setf(s, eng.p.fidx(s.t, 'Index'), i)
    bp = eng.fget(s, 'Buff')
    st.pc += [z3.Not(bp.nil)] if isz(bp.nil) else []
    eng.memp = p.root
    eng.memA = dict(A)


def mem_post(eng, st, A, rs):
    fn = eng.job.fn.split('.')[-1]
    k = z3.Int('any place')
    n, i = z3.Int('size'), z3.Int('index')
    n1, i1 = st.ghost['memlen'], eng.fget(eng.root(st, eng.memp), 'Index')
    a1 = mem(eng, st)
    was = z3.If(k < n, uint('element of memory', k), z3.IntVal(0))
    e = rs[-1].term
    ok = Eq(e, 0)
    A = eng.memA
    F = lambda what, cond: obl(eng, st, P, what, cond)
    if fn == 'Write':
        p = A['p']
        ln = lit(p.len)
        pa = eng.arr_of(st, p) if p.root is not None else None
        want = z3.If(z3.And(k >= i, k < i + ln), elem(pa, k - i + lit(p.off)), was)
        F('all of it is written', And(ok, Eq(rs[0], ln)))
        F('the cursor is behind what has been written', Eq(i1, i + ln))
        F('the size covers what has been written', Imp(ln > 0, Eq(n1, mx(n, i + ln))))
        F('the given bytes are where the cursor has been, what is before and behind them stays', Imp(And(ln > 0, k >= 0, k < lit(n1)), Eq(elem(a1, k), want)))
    if fn == 'Truncate':
        sz = lit(A['size'])
        F('sizes below zero are refused', Imp(sz < 0, And(Not(ok), Eq(n1, n))))
        F('it has the given size', Imp(sz >= 0, And(ok, Eq(n1, sz))))
        F('what it has had stays, and what is new is zero', Imp(And(sz >= 0, k >= 0, k < sz), Eq(elem(a1, k), was)))
        F('the cursor stays', Eq(i1, i))
    if fn == 'Size':
        F('the size is the one of the content', And(ok, Eq(rs[0], n)))
    if fn in ('Size', 'Sync'):
        F('reading changes nothing', And(Eq(n1, n), Eq(i1, i), Imp(And(k >= 0, k < n), Eq(elem(a1, k), was))))


def fw_stat(c):
    s2, e = both(c)
    e2 = e
    lab = f'filestat#{c.uid}'
    c.st.ev('filestat')
    return [(c.st, [IfaceV(False, None, None, lab, 'filestat'), ErrV(0)]), (s2, [IfaceV(True), e2])]


def fw_post(eng, st, A, rs):
    n, e = rs
    obl(eng, st, P, "the size is the one of the file", Imp(Eq(e.term, 0), And(bool(st.events('filestat')), Eq(n, z3.Int('size of the file')))))
    obl(eng, st, P, 'a failure is reported', iff(Eq(e.term, 0), Not(st.ghost.get('statfailed', False))))


def fw_size(prop):
    def stat(c):
        r = fw_stat(c)
        r[1][0].ghost['statfailed'] = True
        return r
    h = {'filestat.Size': lambda c: z3.Int('size of the file')}
    for k in ('(github.com/spf13/afero.File).Stat', 'pkg/cache.fileWithSize.File.Stat', '(afero.File).Stat'):
        h[k] = stat
    return Job(FW + 'Size', post=fw_post, handlers=h, prop=prop)


def nc_post(eng, st, A, rs):
    buf, clean, e = rs
    ok = Eq(e.term, 0)
    E = eng.err('github.com/pojntfx/stfs/pkg/config.ErrWriteCacheTypeUnsupported').term
    t = A['cacheType']
    known = Or(Eq(t, 'memory'), Eq(t, 'file'))
    obl(eng, st, P, 'there are buffers in memory and in files', And(Imp(Not(known), Eq(e.term, E)), Imp(Eq(t, 'memory'), ok)))
    obl(eng, st, P, 'a buffer can be cleaned', Imp(ok, And(Not(nilof(buf)), Not(nilof(clean)))))


def cache_jobs(prog, prop='C14'):
    h = {BB + 'Len': mem_len, BB + 'Bytes': mem_bytes, BB + 'Write': mem_write, BB + 'Truncate': mem_truncate, BB + 'Reset': mem_reset, BB + 'Grow': lambda c: [(c.st, [])]}
    J = [Job(FB + m, pre=mem_pre, post=mem_post, handlers=h, prop=prop) for m in ('Write', 'Truncate', 'Size', 'Sync')]
    J += [fw_size(prop), Job('pkg/cache.NewCacheWrite', post=nc_post, prop=prop)]
    return J
