"""The drive itself: how it is opened, who holds it, and what is written to it (pkg/tape, internal/tarext, completingWriter).

*os.File and the magnetic tape's ioctls are outside /repo: their contracts are assumed. A file which has been opened by
its path is a handle with ghost state: open, at its end (appending), cleared.
"""
from common import *
from rec import obl, Mul

TP = 'pkg/tape.'
OFILE = 'os.File'
P_OPEN = ('C04', 'C05', 'C10', 'C15', 'C16')


def osfile(c, what):
    return newptr(c.eng, c.st, OFILE, what)


def both(c, *results):
    """What has been called succeeds with these results, or fails without one"""
    s2 = c.st.fork()
    e = err(c)
    s2.pc.append(e.term != 0)
    return s2, e


def o_stat(c):
    s2, e = both(c)
    fi = IfaceV(False, None, None, f'fi#{c.uid}', 'fi')
    c.st.ev('Stat', path=c.args[0], e=ErrV(0))
    s2.ev('Stat', path=c.args[0], e=e)
    return [(c.st, [fi, ErrV(0)]), (s2, [IfaceV(True, None, None, f'nofi#{c.uid}', 'fi'), e])]


def fi_regular(c):
    return z3.Bool('the drive is a regular file')


def opened(c, path, flags):
    s2, e = both(c)
    f = osfile(c, 'file')
    if not isinstance(flags, int):
        raise Unsupported('flags of a file')
    rw = flags & 3
    trunc = bool(flags & 0o1000)
    c.st.ev('Open', path=path, f=f.root, w=rw != 0, trunc=trunc, append=bool(flags & 0o2000), e=ErrV(0))
    s2.ev('Open', path=path, f=None, w=rw != 0, trunc=trunc, append=bool(flags & 0o2000), e=e)
    if trunc:
        clear(c)
    c.st.ghost[('open', f.root)] = True
    # The end is where a file opened for appending, or one which has just been cleared, is written
    c.st.ghost[('end', f.root)] = bool(flags & 0o2000) or trunc
    return [(c.st, [f, ErrV(0)]), (s2, [PtrV(True, f.root), e])]


def clear(c):
    for s in (c.st,):
        s.ghost['cleared'] = True
    obl(c.eng, c.st, ('C04', 'C05', 'C15', 'C16', 'C07'), 'the drive is only cleared when it is to be overwritten', c.eng.drvA.get('overwrite', False))


def o_open(c):
    return opened(c, c.args[0], 0)


def o_openfile(c):
    return opened(c, c.args[0], c.args[1])


def f_truncate(c):
    s2, e = both(c)
    clear(c)
    n = c.args[-1]
    c.st.ghost['emptied'] = Eq(n, 0)
    c.st.ev('Truncate', f=c.args[0].root, n=n)
    s2.ev('Open', path='', f=None, w=True, trunc=False, append=False, e=e)
    return [(c.st, [ErrV(0)]), (s2, [e])]


def f_close(c):
    e = err(c)
    f = c.args[0]
    c.st.ghost[('open', f.root)] = False
    c.st.ev('CloseFile', f=f.root, e=e)
    return e


def f_fd(c):
    return z3.Int(f'fd of {c.args[0].root}')


def f_seek(c):
    s2, e = both(c)
    f, off, wh = c.args
    c.st.ghost[('end', f.root)] = And(Eq(off, 0), Eq(wh, 2))
    return [(c.st, [c.eng.fresh(typ(c.eng, 'int64'), f'at#{c.uid}'), ErrV(0)]), (s2, [0, e])]


def t_move(what):
    def h(c):
        s2, e = both(c)
        c.st.ev('Tape', what=what, fd=c.args[0], n=c.args[1] if len(c.args) > 1 else None, e=ErrV(0))
        s2.ev('Tape', what=what, fd=c.args[0], n=None, e=e)
        return [(c.st, [ErrV(0)]), (s2, [e])]
    return h


def files():
    h = {'os.Stat': o_stat, 'os.Lstat': o_stat, 'os.Open': o_open, 'os.OpenFile': o_openfile, '(io/fs.FileMode).IsRegular': fi_regular,
         '(*os.File).Truncate': f_truncate, '(*os.File).Close': f_close, '(*os.File).Fd': f_fd, '(*os.File).Seek': f_seek}
    for i in ('(pkg/config.MagneticTapeIO).', 'param pkg/tape.OpenTapeWriteOnly.mt.'):
        h[i + 'SeekToRecordOnTape'] = t_move('record')
        h[i + 'GoToEndOfTape'] = t_move('end')
        h[i + 'GoToNextFileOnTape'] = t_move('next')
        h[i + 'EjectTape'] = t_move('eject')
    return h


def openfiles(st):
    return [k[1] for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == 'open' and v is True]


def o_pre(eng, st, A):
    eng.drvA = dict(A)


def o_post(write):
    def post(eng, st, A, rs):
        f, reg, e = rs
        ok = Eq(e.term, 0)
        op = openfiles(st)
        if write:
            # Only a drive which does not exist yet may be missing
            ne = eng.err('os.ErrNotExist').term
            fails = [Not(Or(Eq(x['e'].term, 0), And(x['k'] == 'Stat', Or(Eq(x['e'].term, ne), ubool('wraps', x['e'].term, ne)))))
                     for x in ({**x, 'k': k} for k in ('Stat', 'Open', 'Tape', 'CloseFile') for x in st.events(k)) if x.get('e') is not None]
            obl(eng, st, ('C10', 'C05', 'C04'), 'a drive which can be opened is', Or(ok, *fails))
        if not eng.feasible(st, ok):
            obl(eng, st, ('C10',), 'nothing is left open when the drive cannot be opened', not op)
            return
        isreg = z3.Bool('the drive is a regular file')
        obl(eng, st, ('C10', 'C05', 'C04'), 'what is opened is handed out open', Imp(ok, And(Not(f.nil), op == [f.root])))
        missing = any(not isinstance(x['e'].term, int) for x in st.events('Stat'))
        obl(eng, st, ('C04', 'C05'), 'a drive is regular if it is a file, or does not exist yet', Imp(ok, iff(reg, True if missing else isreg)))
        ev = [x for x in st.events('Open') if x['f'] == f.root]
        if not ev:
            return
        obl(eng, st, P_OPEN, 'it is the drive which is opened', Eq(ev[0]['path'], A['drive']))
        if not write:
            obl(eng, st, P_OPEN, 'a drive is opened for reading without changing it', Imp(ok, not ev[0]['w'] and not st.ghost.get('cleared')))
            return
        ow = A['overwrite']
        obl(eng, st, ('C05', 'C04'), 'a drive which is to be written is opened for writing', Imp(ok, ev[0]['w']))
        tape = st.events('Tape')
        mine = [x for x in tape if x['fd'] is not None and str(x['fd']) == f'fd of {f.root}' and x['what'] == 'end']
        last = tape[-1] if tape else None
        obl(eng, st, ('C04', 'C05', 'C16', 'C07'), 'a file is written at its end', Imp(And(ok, reg), Or(st.ghost.get(('end', f.root), False), st.ghost.get('emptied', False))))
        obl(eng, st, ('C04', 'C05', 'C16', 'C07'), 'a tape is written at its end', Imp(And(ok, Not(reg), Not(ow)), bool(mine) and last is mine[-1]))
        obl(eng, st, ('C04', 'C05'), 'a tape is only rewound when it is to be overwritten', Imp(Not(ow), not [x for x in tape if x['what'] == 'record']))
        obl(eng, st, ('C05', 'C04'), 'a file which is to be overwritten is emptied', Imp(And(ok, reg, ow), st.ghost.get('emptied', False) if not ev[0]['trunc'] else True))
        obl(eng, st, ('C05', 'C04'), 'a tape which is to be overwritten is rewound', Imp(And(ok, Not(reg), ow), last is not None and last['what'] == 'record' and And(Eq(last['n'], 0))))
    return post


def opening(prop):
    return [Job(TP + 'OpenTapeWriteOnly', pre=o_pre, post=o_post(True), handlers=files(), prop=prop),
            Job(TP + 'OpenTapeReadOnly', pre=o_pre, post=o_post(False), handlers=files(), prop=prop)]


# ---------------------------------------------------------------- TapeManager
def m_lock(eng, st, m):
    t = eng.roottype[m.root]
    return ('lock', m.root, (eng.p.fidx(t, 'physicalLock'),))


def m_state(kind):
    """What a TapeManager is between calls: nobody has the drive, or its reader is open"""
    def pre(eng, st, A):
        m = A['m']
        s = eng.root(st, m.root)
        fi = lambda n: eng.p.fidx(s.t, n)
        eng.drvA = {'m': m, 'overwrite': eng.fget(s, 'overwrite'), 'overwrote': eng.fget(s, 'overwrote'), 'drive': eng.fget(s, 'drive')}
        r = newptr(eng, st, OFILE, 'reader')
        st.ghost[('open', r.root)] = kind in ('reading', 'writing')
        eng.drvR = r.root
        rd, cl = PtrV(False, r.root), FuncV(True)
        if kind == 'new':
            rd = PtrV(True, r.root)
        if kind == 'reading':
            cl = FuncV(False, None, [], 'reader.Close', 'closer')
            st.ghost[m_lock(eng, st, m)] = True
        s = eng.setf(s, fi('reader'), rd)
        st.heap[m.root] = eng.setf(s, fi('closer'), cl)
    return pre


def m_close(c):
    f = c.fv
    st = c.st
    e = err(c)
    st.ghost[('open', c.eng.drvR)] = False
    st.ev('Closer', e=e)
    return e


def m_openw(c):
    eng = c.eng
    ow = c.args[3]
    A = eng.drvA
    obl(eng, c.st, ('C05', 'C04', 'C07', 'C15'), 'the drive is overwritten at most once, and only if it has been asked for', Imp(ow, And(A['overwrite'], Not(A['overwrote']))))
    obl(eng, c.st, ('C05', 'C04'), 'the drive is overwritten the first time if it has been asked for', Imp(And(A['overwrite'], Not(A['overwrote'])), ow))
    obl(eng, c.st, ('C10', 'C05'), 'it is the drive which is opened', Eq(c.args[0], A['drive']))
    obl(eng, c.st, ('C11', 'C10', 'C05'), 'nobody else has the drive', c.st.ghost.get(m_lock(eng, c.st, A['m']), False))
    s2, e = both(c)
    f = osfile(c, 'writer')
    c.st.ghost[('open', f.root)] = True
    reg = z3.Bool('the drive is a regular file')
    return [(c.st, [f, reg, ErrV(0)]), (s2, [PtrV(True, f.root), False, e])]


def m_openr(c):
    eng = c.eng
    A = eng.drvA
    obl(eng, c.st, ('C11', 'C10', 'C05'), 'nobody else has the drive', c.st.ghost.get(m_lock(eng, c.st, A['m']), False))
    obl(eng, c.st, ('C10', 'C05'), 'it is the drive which is opened', Eq(c.args[0], A['drive']))
    s2, e = both(c)
    f = osfile(c, 'reader')
    c.st.ghost[('open', f.root)] = True
    reg = z3.Bool('the drive is a regular file')
    return [(c.st, [f, reg, ErrV(0)]), (s2, [PtrV(True, f.root), False, e])]


def m_seek(c):
    """Only what is closed cannot tell where it is"""
    f = c.args[0]
    op = c.st.ghost.get(('open', f.root), False)
    if op is True:
        return [(c.st, [0, ErrV(0)])]
    e = err(c)
    c.st.pc.append(e.term != 0)
    return [(c.st, [0, e])]


def m_fclose(c):
    e = err(c)
    f = c.args[0]
    c.st.ghost[('open', f.root)] = False
    c.st.ev('Closer', e=e)
    return e


def m_world():
    return {TP + 'OpenTapeWriteOnly': m_openw, TP + 'OpenTapeReadOnly': m_openr, '(*os.File).Seek': m_seek, '(*os.File).Close': m_fclose, 'closer': m_close,
            'pkg/tape.TapeManager.closer': m_close}


def m_post(kind):
    PP = ('C10', 'C11', 'C05', 'C15')

    def post(eng, st, A, rs):
        m = A['m']
        s = eng.root(st, m.root)
        lock = st.ghost.get(m_lock(eng, st, m), False)
        cl = eng.fget(s, 'closer')
        e = rs[-1]
        ok = Eq(e.term, 0)
        if kind == 'Close':
            obl(eng, st, PP, 'closing leaves the drive free', Not(lock))
            obl(eng, st, PP, 'closing leaves nothing to close', cl.nil)
            op = openfiles(st)
            obl(eng, st, ('C10', 'C05'), 'closing closes', not op)
            n = st.events('Closer')
            if n:
                obl(eng, st, ('C10', 'C05'), 'a failure to close is reported', iff(ok, Eq(n[0]['e'].term, 0)))
            return
        obl(eng, st, PP, 'the drive is held exactly if it is handed out', iff(lock, ok))
        obl(eng, st, PP, 'what is handed out can be closed', iff(Not(cl.nil), ok))
        rd = eng.fget(s, 'reader')
        d = eng.fget(rs[0], 'Drive')
        reg = eng.fget(rs[0], 'DriveIsRegular')
        if not eng.feasible(st, ok):
            obl(eng, st, ('C10',), 'nothing is left open when the drive cannot be opened', not openfiles(st))
            return
        op = openfiles(st)
        f = d.val if isinstance(d, IfaceV) else None
        if kind == 'GetReader':
            obl(eng, st, ('C10', 'C05'), 'the reader which is handed out is open, and the only one', Imp(ok, isinstance(f, PtrV) and op == [f.root]))
            obl(eng, st, ('C10', 'C04'), 'the reader is as regular as the drive', Imp(ok, Eq(reg, eng.fget(s, 'readerIsRegular'))))
        else:
            under = f
            if isinstance(f, PtrV) and f.root not in op:
                o = eng.load1(st, f)
                if isinstance(o, StructV):
                    ps = [eng.field(o, i) for i in range(len(eng.p.fields(o.t)))]
                    ps = [x for x in ps if isinstance(x, PtrV) and x.root in op]
                    under = ps[0] if ps else None
            obl(eng, st, ('C10', 'C05', 'C04'), 'the writer which is handed out is open, and the only one', Imp(ok, isinstance(under, PtrV) and op == [under.root]))
            obl(eng, st, ('C04', 'C05'), 'the writer is as regular as the drive', Imp(ok, iff(reg, z3.Bool('the drive is a regular file'))))
            obl(eng, st, ('C05', 'C04', 'C07'), 'what has been overwritten is not overwritten again', Imp(And(ok, eng.drvA['overwrite']), eng.fget(s, 'overwrote')))
    return post


def manager(prop):
    J = []
    for fn, kinds in (('GetWriter', ('new', 'closed')), ('GetReader', ('new', 'closed', 'reading')), ('Close', ('new', 'closed', 'reading'))):
        for k in kinds:
            J.append(Job(TM + fn, pre=m_state(k), post=m_post(fn), handlers=m_world(), checks={'lock'} | PANICS if prop == 'C10' else (), prop=prop))
    return J


# ---------------------------------------------------------------- what is written: whole blocks, whole records, nothing in between
AL = '(*pkg/tape.aligningWriter).'
BLK = 512


def same_slice(a, b):
    return And(a.root == b.root and a.path == b.path, Eq(a.off, b.off), Eq(a.len, b.len))


def w_file(c):
    """A write of the drive: all of it, or an error"""
    eng, st = c.eng, c.st
    p = c.args[-1]
    s2, e = both(c)
    n = z3.Int(f'short#{c.uid}')
    s2.pc += [n >= 0, n <= lit(p.len)]
    size = st.ghost.get('fsize', 0)
    mine = And(not p.nil if isinstance(p.nil, bool) else True, same_slice(p, eng.alA))
    for s, m, er in ((st, p.len, ErrV(0)), (s2, n, e)):
        s.ghost['fsize'] = Add(size, m)
        s.ev('FileWrite', at=size, p=p, n=m, e=er, mine=mine)
    return [(st, [p.len, ErrV(0)]), (s2, [n, e])]


def al_stat(c):
    s2, e = both(c)
    return [(c.st, [IfaceV(False, None, None, f'fi#{c.uid}', 'fi'), ErrV(0)]), (s2, [IfaceV(True, None, None, f'nofi#{c.uid}', 'fi'), e])]


def al_size(c):
    return c.st.ghost['fsize']


def al_padding(c):
    """The contract of getPadding"""
    s2, e = both(c)
    w, off, part = c.args
    obl(c.eng, c.st, ('C05', 'C16'), 'what is to be filled up is the block at the end of the drive', And(Eq(Add(off, part), c.st.ghost['fsize']), Eq(z3.Int('x') * 0 + lit(off) % BLK, 0)))
    r = list(c.fresh())
    sl = r[0]
    v = SliceV(False, sl.root, sl.off, Sub(BLK, part), sl.et, sl.path)
    return [(c.st, [v, ErrV(0)]), (s2, [SliceV(True, sl.root, 0, 0, sl.et, sl.path), e])]


def al_pre(eng, st, A):
    p = A['p']
    eng.alA = p
    w = A['w']
    size = z3.Int('size of the drive')
    st.pc.append(size >= 0)
    st.ghost['fsize'] = size
    eng.al0 = eng.fget(eng.root(st, w.root), 'aligned')
    # Once the first write is aligned, it is the writer which decides where its blocks start
    st.ghost['first'] = Not(eng.al0)


def al_post(eng, st, A, rs):
    n, e = rs
    ok = Eq(e.term, 0)
    P = ('C05', 'C16', 'C04', 'C10')
    ev = st.events('FileWrite')
    last = ev[-1] if ev else None
    al1 = eng.fget(eng.root(st, A['w'].root), 'aligned')
    if last is None:
        obl(eng, st, P, 'what is to be written is written', Not(ok))
        obl(eng, st, P, 'nothing is aligned by a failure', Imp(Not(eng.al0), Not(al1)))
        return
    mine = [x for x in ev if x['mine'] is True or isz(x['mine'])]
    obl(eng, st, P, 'what is to be written is written once, and last', Imp(ok, And(last['mine'], *[Not(x['mine']) for x in ev[:-1]])))
    obl(eng, st, P, 'writing fails exactly if the drive does', iff(ok, And(*[Eq(x['e'].term, 0) for x in ev])))
    obl(eng, st, P, 'how much has been written is returned', Imp(last['mine'], Eq(n, last['n'])))
    obl(eng, st, ('C05', 'C16'), 'the first write starts a block', Imp(And(Not(eng.al0), last['mine']), Eq(lit(last['at']) % BLK, 0)))
    obl(eng, st, ('C05', 'C16'), 'less than a block is filled up', Imp(last['mine'], Cmp('<', Sub(last['at'], z3.Int('size of the drive')), BLK)))
    obl(eng, st, ('C05', 'C04', 'C16'), 'later writes go on where the last one has ended', Imp(And(eng.al0, last['mine']), Eq(last['at'], z3.Int('size of the drive'))))
    obl(eng, st, ('C05', 'C16'), 'only the first write is aligned', Imp(last['mine'], al1))


def aligning(prop):
    h = {'(*os.File).Write': w_file, '(*os.File).Stat': al_stat, '(io/fs.FileInfo).Size': al_size, 'fi.Size': al_size, AL + 'getPadding': al_padding}
    return [Job(AL + 'Write', pre=al_pre, post=al_post, handlers=h, prop=prop, checks=PANICS if prop == 'C10' else ())]


# completingWriter: the zeros which are missing go before everything else
CW = '(*pkg/operations.completingWriter).'


def cw_copyn(c):
    eng, st = c.eng, c.st
    dst, src, n = c.args
    A = eng.alA
    obl(eng, st, ('C16', 'C05'), 'as many bytes as are missing are completed', Eq(n, eng.cwM))
    obl(eng, st, ('C16', 'C05'), 'zeros are what an interrupted member is completed with', src.dyn is not None and short(eng.p.types[src.dyn]['s']).endswith('zeroReader'))
    s2, e = both(c)
    m = z3.Int(f'short#{c.uid}')
    s2.pc += [m >= 0, m < lit(n)]
    st.ev('Zeros', n=n, dst=dst, e=ErrV(0))
    s2.ev('Zeros', n=m, dst=dst, e=e)
    return [(st, [n, ErrV(0)]), (s2, [m, e])]


def cw_write(c):
    s2, e = both(c)
    p = c.args[-1]
    n = z3.Int(f'short#{c.uid}')
    mine = same_slice(p, c.eng.alA)
    c.st.ev('DriveWrite', p=p, n=p.len, e=ErrV(0), mine=mine)
    s2.ev('DriveWrite', p=p, n=n, e=e, mine=mine)
    return [(c.st, [p.len, ErrV(0)]), (s2, [n, e])]


def cw_pre(eng, st, A):
    eng.alA = A['p']
    eng.cwM = eng.fget(eng.root(st, A['w'].root), 'missing')


def cw_post(eng, st, A, rs):
    n, e = rs
    P = ('C16', 'C05', 'C04')
    ok = Eq(e.term, 0)
    m0 = eng.cwM
    m1 = eng.fget(eng.root(st, A['w'].root), 'missing')
    ev = [(k, x) for k, x in st.trace if k in ('Zeros', 'DriveWrite')]
    ws = st.events('DriveWrite')
    zs = st.events('Zeros')
    obl(eng, st, P, 'what is to be written is written once', Imp(ok, And(len(ws) == 1 and ws[0]['mine'])))
    if ws:
        obl(eng, st, P, 'how much has been written is returned', Eq(n, ws[-1]['n']))
        obl(eng, st, P, 'writing fails exactly if the drive does', iff(ok, Eq(ws[-1]['e'].term, 0)))
        obl(eng, st, P, 'what is missing is completed first', Or(Cmp('<=', m0, 0), len(zs) == 1 and And(ev[0][0] == 'Zeros', Eq(zs[0]['e'].term, 0))))
        obl(eng, st, P, 'what has been completed is not completed again', Cmp('<=', m1, 0))
    if zs:
        obl(eng, st, P, 'nothing is completed unless something is missing', Cmp('>', m0, 0))
        obl(eng, st, P, 'a failure to complete leaves the rest to be completed', Eq(m1, Sub(m0, zs[-1]['n'])))
    else:
        obl(eng, st, P, 'what is missing stays as it is', Eq(m0, m1))


def completing_w(prop):
    h = {'io.CopyN': cw_copyn}
    for k in ('(io.Writer).Write', 'pkg/operations.completingWriter.drive.Write'):
        h[k] = cw_write
    return [Job(CW + 'Write', pre=cw_pre, post=cw_post, handlers=h, prop=prop)]


# recordWriter: never more than fits, so that every write of the tape is a whole record
RW = '(*internal/tarext.recordWriter).'
BW = '(*bufio.Writer).'


def b_available(c):
    return c.st.ghost['avail']


def b_flush(c):
    s2, e = both(c)
    st = c.st
    obl(c.eng, st, ('C04', 'C05'), 'only whole records are written', Eq(st.ghost['avail'], 0))
    st.ghost['avail'] = z3.Int('size of a record')
    st.ghost['lasterr'] = 0
    s2.ghost['lasterr'] = e.term
    return [(st, [ErrV(0)]), (s2, [e])]


def b_write(c):
    eng, st = c.eng, c.st
    p = c.args[-1]
    av = st.ghost['avail']
    obl(eng, st, ('C04', 'C05'), 'no more is buffered than fits into a record', Cmp('<=', p.len, av))
    obl(eng, st, ('C04', 'C05', 'C10'), 'something is written', Cmp('>', p.len, 0))
    s2, e = both(c)
    n = z3.Int(f'short#{c.uid}')
    s2.pc += [n >= 0, n <= lit(p.len)]
    for s, m, er in ((st, p.len, 0), (s2, n, e.term)):
        s.ghost['avail'] = Sub(av, m)
        s.ghost['lasterr'] = er
        s.ghost['written'] = Add(s.ghost['written'], m)
        s.ghost[('tmp', 'part')] = p
    return [(st, [p.len, ErrV(0)]), (s2, [n, e])]


def rw_pre(eng, st, A):
    N, a = z3.Int('size of a record'), z3.Int('available')
    st.pc += [N >= 1, a >= 0, a <= N]
    st.ghost.update(avail=a, written=0, lasterr=0)
    eng.rwA = A


def rw_templates(eng, f, P, quant, errs):
    out = [('available >= 0', lambda Q: Cmp('>=', Q.st.ghost['avail'], 0)), ('available <= N', lambda Q: Cmp('<=', Q.st.ghost['avail'], z3.Int('size of a record'))),
           ('written >= 0', lambda Q: Cmp('>=', Q.st.ghost['written'], 0)), ('no error', lambda Q: Eq(Q.st.ghost['lasterr'], 0))]
    for nx, gx, x0 in quant:
        if nx.startswith('ghost'):
            continue
        out.append((f'{nx} = written', lambda Q, gx=gx: Eq(gx(Q), Q.st.ghost['written'])))
    ps = eng.rwA['p'].len
    for i, r in slices(eng, f):
        def rest(Q, r=r):
            v = Q.env.get(r)
            return Eq(Add(Q.st.ghost['written'], v.len), ps) if isinstance(v, SliceV) else None
        out.append((f'rest of {r}', rest))
    return out


def slices(eng, f):
    """What loops carry"""
    for b in f['blocks']:
        for i in b['ins']:
            if i['op'] == 'phi':
                yield i, i['r']


def rw_loop(eng, name, start, B, phis):
    p = B.st.ghost.get(('tmp', 'part'))
    for nm, (a, b) in phis.items():
        if isinstance(a, SliceV) and isinstance(b, SliceV) and p is not None:
            obl(eng, B.st, ('C04', 'C05'), 'what is written is what comes next', And(p.root == a.root and b.root == a.root, Eq(p.off, a.off), Eq(b.off, Add(a.off, p.len))))


def rw_post(eng, st, A, rs):
    n, e = rs
    ok = Eq(e.term, 0)
    P = ('C04', 'C05', 'C10')
    obl(eng, st, P, 'all of it is written', Imp(ok, Eq(n, A['p'].len)))
    obl(eng, st, P, 'writing fails exactly if the tape does', Eq(e.term, st.ghost['lasterr']))
    obl(eng, st, P, 'how much has been written is returned', Eq(n, st.ghost['written']))


def recordwriter(prop):
    h = {BW + 'Available': b_available, BW + 'Size': lambda c: z3.Int('size of a record'), BW + 'Buffered': lambda c: Sub(z3.Int('size of a record'), c.st.ghost['avail']), BW + 'Flush': b_flush, BW + 'Write': b_write}
    j = Job(RW + 'Write', pre=rw_pre, post=rw_post, handlers=h, prop=prop, loop_back=rw_loop)
    j.templates = rw_templates
    return [j]


# NewTapeWriter: a trailer after what has been written, and on tapes whole records
NT = 'internal/tarext.NewTapeWriter'


def nt_newtar(c):
    p = newptr(c.eng, c.st, 'archive/tar.Writer', 'tw')
    c.st.ghost['twon'] = Box(c.args[0])
    return PtrV(False, p.root)


def nt_size(c):
    w, n = c.args
    obl(c.eng, c.st, ('C04', 'C05'), 'what is buffered for a tape is a record', Eq(n, Mul(BLK, c.eng.ntA['recordSize'])))
    p = newptr(c.eng, c.st, 'bufio.Writer', 'bw')
    c.st.ghost['bwon'] = Box(w)
    c.st.ghost['bw'] = p.root
    return p


def counter_of(eng, st):
    b = st.ghost.get('twon')
    v = b.v if b is not None else None
    v = v.val if isinstance(v, IfaceV) else None
    return v if isinstance(v, PtrV) else None


def nt_close(c):
    """Closing an archive writes its trailer, and how much has been written is counted"""
    eng, st = c.eng, c.st
    s2, e = both(c)
    for s in (st, s2):
        p = counter_of(eng, s)
        if p is not None:
            o = eng.root(s, p.root)
            n = z3.Int(f'counted#{c.uid}')
            s.pc.append(n >= 0)
            if 'BytesRead' in fields(eng, o):
                s.heap[p.root] = eng.setf(o, eng.p.fidx(o.t, 'BytesRead'), n)
            s.ghost['count'] = n
    st.ev('Trailer', e=ErrV(0))
    s2.ev('Trailer', e=e)
    return [(st, [ErrV(0)]), (s2, [e])]


def nt_write(c):
    p = c.args[-1]
    s2, e = both(c)
    n = z3.Int(f'short#{c.uid}')
    c.st.ev('Fill', n=p.len, e=ErrV(0))
    s2.ev('Fill', n=p.len, e=e)
    return [(c.st, [p.len, ErrV(0)]), (s2, [n, e])]


def nt_flush(c):
    s2, e = both(c)
    c.st.ev('Flush', e=ErrV(0), bw=c.args[0].root)
    s2.ev('Flush', e=e, bw=c.args[0].root)
    return [(c.st, [ErrV(0)]), (s2, [e])]


def nt_pre(eng, st, A):
    eng.ntA = dict(A)
    st.pc.append(A['recordSize'] >= 1)


def nt_post(eng, st, A, rs):
    P = ('C04', 'C05')
    tw, cl, e = rs
    reg = A['isRegular']
    on = st.ghost.get('twon')
    obl(eng, st, P, 'an archive can be written', Eq(e.term, 0))
    if on is None:
        obl(eng, st, P, 'an archive is written', False)
        return
    f = A['f']
    obl(eng, st, P, 'a file is written as it is', Imp(reg, ident(eng, on.v) == ident(eng, f)))
    bwon = st.ghost.get('bwon')
    obl(eng, st, P, 'a tape is written in records', Imp(Not(reg), bwon is not None and ident(eng, bwon.v) == ident(eng, f)))
    bt = typ(eng, 'bool')
    for dirty in (True, False):
        s0 = st.fork()
        d = eng.new(s0, bt, 'dirty~', None)
        s0.heap[d] = dirty
        for s, r in eng.exec_fn(cl.name, [PtrV(False, d)], cl.binds, s0):
            er = r[0]
            ok = Eq(er.term, 0)
            tr, fl, fi = s.events('Trailer'), s.events('Flush'), s.events('Fill')
            if not dirty:
                obl(eng, s, P + ('C15', 'C10'), 'nothing is written if nothing has been', And(ok, not tr and not fl and not fi))
                continue
            obl(eng, s, P, 'an archive ends with a trailer', len(tr) == 1)
            obl(eng, s, P + ('C10',), 'a failure to write the end is reported', iff(ok, And(*[Eq(x['e'].term, 0) for x in tr + fl + fi])))
            n = s.ghost.get('count', 0)
            K = Mul(BLK, A['recordSize'])
            obl(eng, s, P, 'nothing but the trailer ends a file', Imp(reg, not fl and not fi))
            tot = n
            for x in fi:
                tot = Add(tot, x['n'])
            # n = q K + r, of which q K or (q + 1) K is what a whole number of records is
            s = s.fork()
            q, _ = eng.divmod({'name': NT}, s, n, K)
            obl(eng, s, P, 'a tape ends with a whole record', Imp(And(Not(reg), ok), Or(Eq(tot, Mul(q, K)), Eq(tot, Add(Mul(q, K), K)))))
            for x in fi:
                obl(eng, s, P, 'less than a record is filled up', And(Cmp('>', x['n'], 0), Cmp('<', x['n'], K)))
            obl(eng, s, P, 'the last record is written', Imp(And(Not(reg), ok), len(fl) == 1 and fl[0]['bw'] == s.ghost.get('bw') and [k for k, x in s.trace if k in ('Trailer', 'Flush', 'Fill')][-1] == 'Flush'))


def tapewriter(prop):
    h = {'archive/tar.NewWriter': nt_newtar, 'bufio.NewWriterSize': nt_size, '(*archive/tar.Writer).Close': nt_close, RW + 'Write': nt_write,
         BW + 'Flush': nt_flush, BW + 'Write': nt_write}
    return [Job(NT, pre=nt_pre, post=nt_post, handlers=h, prop=prop)]


def drive_jobs(prop):
    J = opening(prop) + manager(prop)
    if prop in ('C04', 'C05', 'C16', 'C10'):
        J += aligning(prop)
    if prop in ('C04', 'C05', 'C16'):
        J += completing_w(prop)
    if prop in ('C04', 'C05', 'C10'):
        J += recordwriter(prop) + tapewriter(prop)
    return J
