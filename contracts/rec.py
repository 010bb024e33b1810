"""Reading a tape (pkg/recovery): the index which is made from it, and the content which is restored from it."""
from common import *

IDX = 'pkg/recovery.Index'
NEXT = 'pkg/recovery.nextHeader'
IHDR = 'pkg/recovery.indexHeader'
FETCH = 'pkg/recovery.Fetch'
BLK = 512

FIELDS = (('Typeflag', 'Typeflag'), ('Linkname', 'Linkname'), ('Mode', 'Mode'), ('UID', 'Uid'), ('Gid', 'Gid'), ('Uname', 'Uname'),
          ('Gname', 'Gname'), ('Modtime', 'ModTime'), ('Accesstime', 'AccessTime'), ('Changetime', 'ChangeTime'), ('Devmajor', 'Devmajor'),
          ('Devminor', 'Devminor'), ('Format', 'Format'))


def obl(eng, st, props, what, cond, assume=False):
    for p in props if isinstance(props, (tuple, list)) else (props,):
        eng.check(st, f'{p}:{eng.job.fn}:{what}', cond, assume=assume)


def hdr_pre(eng, st, p, wf=True):
    """A header, with its records."""
    h = eng.root(st, p.root)
    i = eng.p.fidx(h.t, 'PAXRecords')
    d = z3.Const(f'records of {p.root}', z3.ArraySort(z3.StringSort(), z3.BoolSort()))
    a = z3.Const(f'values of {p.root}', z3.ArraySort(z3.StringSort(), z3.StringSort()))
    m = newmap(eng, st, 'map[string]string', d, a)
    h = eng.setf(h, i, MapV(False, m.root, m.t))
    # Headers which have been read have a type
    t = eng.fget(h, 'Typeflag')
    st.pc.append(z3.And(t >= 0, t <= 255))
    st.heap[p.root] = h
    return h, d, a


# ---------------------------------------------------------------- indexHeader
def ih_err(c, tag=''):
    return c.eng.fresh_err(f'ret {short(c.name).split(".")[-1]}{tag}#{c.uid}')


def rowname(eng, st, v):
    return eng.load1(st, v) if isinstance(v, PtrV) else v


def ih_upsert(name):
    def h(c):
        eng, st = c.eng, c.st
        e = ih_err(c)
        row = eng.load1(st, c.args[1]) if len(c.args) > 1 and isinstance(c.args[1], PtrV) else None
        st.ev(name, row=row, args=c.args, e=e)
        if name == 'DeleteHeader':
            return (c.fresh()[0], e)
        return e
    return h


def ih_get(c):
    eng, st = c.eng, c.st
    e = ih_err(c)
    p = cfgheader(eng, st, 'row')
    st.ev('GetHeader', name=c.args[-1], e=e, row=eng.root(st, p.root))
    return (PtrV(z3.Not(e.term == 0), p.root), e)


def ih_removesuffix(c):
    name, comp, enc = c.args
    e = err(c)
    c.st.ev('RemoveSuffix', name=name, comp=comp, enc=enc, e=e)
    return (ustr('unsuffixed', name, comp, enc), e)


def ih_pre(eng, st, A):
    h, d, a = hdr_pre(eng, st, A['hdr'])
    st.pc.append(z3.Not(A['metadataPersister'].nil))
    eng.ih = dict(h=h, d=d, a=a)
    return {'hdr': PtrV(False, A['hdr'].root)}


K = z3.StringVal


def has(d, k):
    return z3.Select(d, K('STFS.' + k))


def val(a, k):
    return z3.Select(a, K('STFS.' + k))


def ih_spec(eng, A):
    h, d, a = eng.ih['h'], eng.ih['d'], eng.ih['a']
    f = lambda n: eng.fget(h, n)
    S = {}
    S['version'] = z3.If(has(d, 'Version'), val(a, 'Version'), K('1'))
    S['action'] = z3.If(has(d, 'Action'), val(a, 'Action'), K('CREATE'))
    S['us'] = has(d, 'UncompressedSize')
    us = val(a, 'UncompressedSize')
    S['badsize'] = z3.And(S['us'], z3.Not(models.ISNUM(us)))
    S['replaces'] = z3.And(has(d, 'ReplacesContent'), val(a, 'ReplacesContent') == K('true'))
    S['moves'] = has(d, 'ReplacesName')
    S['v1'] = S['version'] == K('1')
    S['create'] = z3.And(S['v1'], S['action'] == K('CREATE'))
    S['delete'] = z3.And(S['v1'], S['action'] == K('DELETE'))
    S['update'] = z3.And(S['v1'], S['action'] == K('UPDATE'))
    content = z3.And(z3.Not(S['moves']), z3.Or(S['action'] == K('CREATE'), z3.And(S['action'] == K('UPDATE'), S['replaces'])))
    regular = ubool('mode.IsRegular', models.hdrinfo(eng, None, h))
    S['suffixed'] = z3.And(S['us'], content, regular)
    S['name'] = z3.If(S['suffixed'], ustr('unsuffixed', f('Name'), A['compressionFormat'], A['encryptionFormat']), lit(f('Name')))
    S['size'] = z3.If(S['us'], models.ATOI(us), lit(f('Size')))
    S['old'] = z3.If(S['moves'], val(a, 'ReplacesName'), S['name'])
    return S


IH_EV = ('UpsertHeader', 'UpdateHeaderMetadata', 'MoveHeader', 'DeleteHeader', 'PurgeAllHeaders')


def ih_post(eng, st, A, rs):
    S = ih_spec(eng, A)
    h, d, a = eng.ih['h'], eng.ih['d'], eng.ih['a']
    ok = Eq(rs[0].term, 0)
    evs = [(n, e) for n, e in st.trace if n in IH_EV]
    names = [n for n, _ in evs]
    rec, blk = A['record'], A['block']
    ALL = ('C01', 'C02', 'C07')
    obl(eng, st, ALL, 'what has no readable size is not indexed', Imp(S['badsize'], And(Not(ok), not evs)))
    known = Or(S['create'], S['delete'], S['update'])
    obl(eng, st, ALL, 'what is not known is refused', Imp(And(Not(known), Not(S['badsize'])), And(Not(ok), not evs)))
    obl(eng, st, ALL, 'a created member becomes one entry', Imp(And(S['create'], ok), names == ['UpsertHeader']))
    obl(eng, st, ALL + ('C06',), 'a deletion deletes', Imp(And(S['delete'], ok), names == ['DeleteHeader']))
    up = [n for n in names if n != 'MoveHeader']
    mv = names.count('MoveHeader')
    obl(eng, st, ALL, 'an update of the content replaces the entry', Imp(And(S['update'], S['replaces'], ok), up == ['UpdateHeaderMetadata']))
    obl(eng, st, ALL + ('C12',), 'a record which replaces a name moves', Imp(And(S['update'], ok), iff(S['moves'], mv == 1)))
    obl(eng, st, ALL + ('C12',), 'nothing else moves', And(Imp(mv > 0, S['update']), mv <= 1, 'MoveHeader' not in names[:-1]))
    for n, e in evs:
        # No failure of the index is ignored, but that there is nothing to delete
        none = eng.err('database/sql.ErrNoRows').term
        obl(eng, st, ('C01', 'C07', 'C10'), 'a failure of the index is reported', Imp(Not(Eq(e['e'].term, 0)), Or(Not(ok), And(n == 'DeleteHeader', Eq(e['e'].term, none)))))
        if n == 'DeleteHeader':
            obl(eng, st, ('C06', 'C07', 'C16'), 'a deletion of what has been lost is no failure', Imp(Eq(e['e'].term, none), ok))
            obl(eng, st, ALL + ('C12',), 'what is deleted is what the record names', And(S['delete'], Eq(e['args'][1], S['name'])))
            obl(eng, st, ('C04', 'C16'), 'the deletion is where the index ends', And(Eq(e['args'][2], rec), Eq(e['args'][3], blk)))
        elif n == 'MoveHeader':
            obl(eng, st, ALL + ('C12',), 'what is moved is what the record names', And(Eq(e['args'][1], S['old']), Eq(e['args'][2], S['name'])))
            obl(eng, st, ('C04', 'C16'), 'the move is where the index ends', And(Eq(e['args'][3], rec), Eq(e['args'][4], blk)))
        elif n in ('UpsertHeader', 'UpdateHeaderMetadata'):
            row = e['row']
            if n == 'UpsertHeader':
                obl(eng, st, ALL, 'only created members become new entries', S['create'])
                obl(eng, st, ('C07', 'C16'), 'the index is told whether it is being made', iff(e['args'][2], A['initializing']))
            else:
                obl(eng, st, ALL, 'only updates change entries', S['update'])
            for rn, hn in FIELDS:
                obl(eng, st, ('C01', 'C07'), f'the entry has the {hn} of the record', val_eq(eng, eng.fget(row, rn), eng.fget(h, hn)))
            obl(eng, st, ('C01', 'C02', 'C03', 'C07'), 'the entry has the name of the record', Eq(eng.fget(row, 'Name'), S['name']))
            obl(eng, st, ('C01', 'C07'), 'the entry has the size of the record', Eq(eng.fget(row, 'Size'), S['size']))
            obl(eng, st, ('C01', 'C07'), 'the entry has the records of the record', Eq(eng.fget(row, 'Paxrecords'), z3.Function('json of map', d.sort(), a.sort(), z3.StringSort())(d, a)))
            obl(eng, st, ('C01', 'C07'), 'the entry is not deleted', Eq(eng.fget(row, 'Deleted'), 0))
            obl(eng, st, ('C04', 'C16'), 'the entry is where the index ends', And(Eq(eng.fget(row, 'Lastknownrecord'), rec), Eq(eng.fget(row, 'Lastknownblock'), blk)))
            new = Or(n == 'UpsertHeader', S['replaces'])
            obl(eng, st, ('C01', 'C04'), 'new content is where the record is', Imp(new, And(Eq(eng.fget(row, 'Record'), rec), Eq(eng.fget(row, 'Block'), blk))))
            g = st.events('GetHeader')
            same = False
            for x in g:
                same = Or(same, And(Eq(x['e'].term, 0), Eq(x['name'], S['old']), Eq(eng.fget(row, 'Record'), eng.fget(x['row'], 'Record')), Eq(eng.fget(row, 'Block'), eng.fget(x['row'], 'Block'))))
            obl(eng, st, ('C01', 'C02', 'C04', 'C11'), 'the content stays where it is if it is not replaced', Or(new, same))
    keeps = And(S['update'], Not(S['replaces']), ok)
    g = st.events('GetHeader')
    none = eng.err('database/sql.ErrNoRows').term
    obl(eng, st, ALL, 'an update of what exists changes its entry', Or(Not(keeps), up == ['UpdateHeaderMetadata'], And(up == [], bool(g) and Not(Eq(g[-1]['e'].term, 0)))))
    for x in g:
        obl(eng, st, ('C06', 'C07', 'C16'), 'an update of what has been moved or lost is no failure', Imp(And(S['update'], Eq(x['e'].term, none), *[Eq(e['e'].term, 0) for _, e in evs]), ok))
        obl(eng, st, ('C01', 'C07', 'C10'), 'a failure to read the index is reported', Imp(And(Not(Eq(x['e'].term, 0)), Not(Eq(x['e'].term, none))), Not(ok)))


def ih_handlers():
    h = dict(JSON)
    for n in IH_EV:
        h[MP + n] = ih_upsert(n)
    h[MP + 'GetHeader'] = ih_get
    h['internal/suffix.RemoveSuffix'] = ih_removesuffix
    h[f'param {IHDR}.onHeader'] = h_onheader
    return h


def indexheader(prop):
    return Job(IHDR, pre=ih_pre, post=ih_post, handlers=ih_handlers(), prop=prop)


# ---------------------------------------------------------------- the position on the drive
def ceil512(eng, st, x):
    """The number of blocks up to a position"""
    k = z3.Int(f'blocks {eng.key(x)}')
    st.pc.append(z3.And(k * BLK >= lit(x), lit(x) > (k - 1) * BLK))
    return k


def under(st):
    return st.ghost.get('under')


def getpos(eng, st):
    u = under(st)
    if isinstance(u, PtrV) and u.root in eng.roottype:
        s = eng.root(st, u.root)
        if isinstance(s, StructV) and 'BytesRead' in fields(eng, s):
            return eng.fget(s, 'BytesRead')
    return st.ghost.get('dpos', 0)


def setpos(eng, st, v):
    u = under(st)
    if isinstance(u, PtrV) and u.root in eng.roottype:
        s = eng.root(st, u.root)
        if isinstance(s, StructV) and 'BytesRead' in fields(eng, s):
            eng.store(st, PtrV(False, u.root, (eng.p.fidx(s.t, 'BytesRead'),)), v)
            return
    st.ghost['dpos'] = v


def d_seek(c):
    eng, st = c.eng, c.st
    off, wh = c.args
    e = err(c)
    n = z3.Int(f'seek#{c.uid}')
    cur = st.ghost.get('dpos', 0)
    if wh == 0:
        st.pc.append(z3.Implies(e.term == 0, n == lit(off)))
    elif wh == 1:
        st.pc.append(z3.Implies(e.term == 0, n == lit(cur) + lit(off)))
    st.pc.append(z3.Implies(e.term == 0, n >= 0))
    st.ghost['dpos'] = z3.If(e.term == 0, n, lit(cur))
    st.ghost['badseek'] = Or(st.ghost.get('badseek', False), Not(Eq(e.term, 0)))
    st.ev('dseek', off=off, wh=wh, e=e)
    return (n, e)


def d_newreader(c):
    eng, st = c.eng, c.st
    r = c.args[0]
    p = newptr(eng, st, 'archive/tar.Reader', 'tr')
    v = r.val if isinstance(r, IfaceV) and r.dyn is not None else None
    st.ghost['tr'] = p
    st.ghost['under'] = v if isinstance(v, PtrV) else PtrV(True, None)
    st.ghost['unread'] = False
    if isinstance(v, PtrV) and eng.job.fn == IDX:
        ck(c, 'C04', 'members are counted from where the tape is', Eq(getpos(eng, st), st.ghost.get('dpos', 0)))
    st.ev('NewReader', r=r)
    return p


def d_next(c):
    """The next header; what is left of the member before is skipped first."""
    eng, st = c.eng, c.st
    e = err(c)
    tr = st.ghost.get('tr')
    p0 = getpos(eng, st)
    known = tr is not None and c.args[0].root == tr.root
    start = z3.Int(f'skipped to#{c.uid}')
    if known:
        b = ceil512(eng, st, p0)
        st.pc.append(z3.Or(lit(st.ghost.get('unread', False)), start == b))
        st.pc.append(start >= b)
    n = z3.Int(f'next#{c.uid}')
    st.pc.append(z3.And(n >= lit(p0), n >= 0))
    st.pc.append(z3.Implies(e.term == 0, n >= (start + 1) * BLK))
    setpos(eng, st, n)
    st.ghost['hblk'] = start
    st.ghost['unread'] = e.term == 0
    st.ghost['seen'] = lit(st.ghost.get('seen', 0)) + z3.If(e.term == 0, 1, 0)
    hp = newptr(eng, st, HDR, 'hdr')
    hdr_pre(eng, st, hp)
    st.ghost['nerr'] = e.term
    st.ghost['hdr'] = PtrV(z3.Not(e.term == 0), hp.root)
    st.ev('Next', e=e, h=hp, tr=c.args[0], start=start)
    return (PtrV(z3.Not(e.term == 0), hp.root), e)


def d_copy(c):
    eng, st = c.eng, c.st
    dst, src = c.args
    v = src.val if isinstance(src, IfaceV) and src.dyn is not None else src
    e = err(c)
    n = z3.Int(f'copied#{c.uid}')
    st.pc.append(n >= 0)
    tr = st.ghost.get('tr')
    if isinstance(v, PtrV) and tr is not None and v.root == tr.root:
        p = z3.Int(f'read up to#{c.uid}')
        st.pc.append(p >= lit(getpos(eng, st)))
        setpos(eng, st, p)
        st.ghost['unread'] = And(st.ghost.get('unread', False), Not(Eq(e.term, 0)), Not(Eq(e.term, eng.err('io.ErrUnexpectedEOF').term)))
    st.ev('Copy', dst=dst, src=src, e=e, n=n)
    return (n, e)


DRIVE = {
    'archive/tar.NewReader': d_newreader,
    '(*archive/tar.Reader).Next': d_next,
    'io.Copy': d_copy,
}
for _k in ('(pkg/config.ReadSeekFder).Seek', '(io.Seeker).Seek', '(io.ReadSeeker).Seek', 'pkg/config.DriveReaderConfig.Drive.Seek', f'param {NEXT}.drive.Seek'):
    DRIVE[_k] = d_seek


def lin(*kinds):
    """Candidate invariants: two quantities are the record and the block of a position, another counts the members"""
    def t(eng, f, P, quant, errs):
        ks = list(getattr(eng, 'posK', {}).values())
        out = []
        for nx, gx, x0 in errs:
            out.append((f'{nx} is what reading returned', lambda Q, gx=gx: Eq(gx(Q), Q.st.ghost.get('nerr', 0))))
        out.append(('position >= 0', lambda Q: Cmp('>=', getpos(eng, Q.st), 0)))
        loc = [q for q in quant if not q[0].startswith('ghost')]
        for nx, gx, x0 in loc:
            out.append((f'{nx}>=0', lambda Q, gx=gx: Cmp('>=', gx(Q), 0)))
            if 'seen' in kinds:
                out.append((f'{nx}=seen', lambda Q, gx=gx: Eq(gx(Q), Q.st.ghost.get('seen', 0))))
            for K_ in ks:
                out.append((f'{nx}<K', lambda Q, gx=gx, K_=K_: Cmp('<', gx(Q), K_)))
            for ny, gy, y0 in loc:
                if nx == ny:
                    continue
                for K_ in ks:
                    pos = lambda Q, gx=gx, gy=gy, K_=K_: Add(Mul(gx(Q), K_), gy(Q))
                    if 'hblk' in kinds:
                        out.append((f'{nx}*K+{ny}=header', lambda Q, pos=pos: Eq(pos(Q), Q.st.ghost.get('hblk', 0))))
                        out.append((f'{nx}*K+{ny}>=init', lambda Q, pos=pos: Cmp('>=', pos(Q), pos(P))))
                    if 'pos' in kinds:
                        out.append((f'{nx}*K+{ny}=ceil(pos)', lambda Q, pos=pos: ceilis(eng, Q.st, pos(Q))))
        return out
    return t


def ceilis(eng, st, b):
    p = lit(getpos(eng, st))
    b = lit(b)
    return z3.And(b * BLK >= p, p > (b - 1) * BLK)


def Mul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    return lit(a) * lit(b)


# ---------------------------------------------------------------- nextHeader
def nh_pre(eng, st, A):
    ints = [k for k, v in A.items() if isz(v) and z3.is_int(v)]
    rs, r, b = A['recordSize'], A['record'], A['block']
    st.pc += [rs >= 1, r >= 0, b >= 0, b < rs]
    eng.posK = {'rs': rs}
    eng.nh0 = r * rs + b
    tr = A['tr']
    p = z3.Int('position of the drive')
    # The reader is where the header is expected
    st.pc += [p >= 0, eng.nh0 * BLK >= p, p > (eng.nh0 - 1) * BLK]
    st.ghost.update(dpos=p, tr=PtrV(False, tr.root), under=PtrV(True, None), unread=False, seen=0, hblk=eng.nh0, badseek=False, nerr=-1)
    st.pc.append(z3.Not(A['drive'].nil))
    return {'tr': PtrV(False, tr.root)}


def nh_post(eng, st, A, rs):
    hdr, tr, r, b, e = rs
    K_ = A['recordSize']
    ok = Eq(e.term, 0)
    tot = Add(Mul(r, K_), b)
    P6 = ('C06', 'C16', 'C04', 'C17')
    obl(eng, st, P6, 'a header is where it says', Imp(ok, Eq(tot, st.ghost['hblk'])))
    obl(eng, st, P6, 'a header is not before where it is expected', Imp(ok, Cmp('>=', tot, eng.nh0)))
    obl(eng, st, ('C04',), 'the block is within the record', Imp(ok, And(Cmp('>=', b, 0), Cmp('<', b, K_), Cmp('>=', r, 0))))
    g, t, le = st.ghost.get('hdr'), st.ghost.get('tr'), st.ghost.get('nerr')
    if g is None:
        return
    obl(eng, st, P6, 'a header is the last one which has been read', Imp(ok, And(Eq(le, 0), hdr.root == g.root, tr.root == t.root)))
    bad = st.ghost.get('badseek', False)
    obl(eng, st, ('C06', 'C16', 'C17'), 'a failure to read is reported', Imp(ok, And(Eq(le, 0), Not(bad))))
    eof = eng.err('io.EOF').term
    torn = Or(*[Eq(le, eng.err(x).term) for x in ('io.ErrUnexpectedEOF', 'archive/tar.ErrHeader', 'archive/tar.ErrFieldTooLong')])
    # Only a drive which fails, or another failure than that of a torn record, stops reading
    obl(eng, st, ('C06', 'C16', 'C17'), 'a torn record does not end the tape', Imp(And(torn, Not(ok)), bad))
    obl(eng, st, ('C06', 'C16', 'C17'), 'the tape ends where nothing can be read', Imp(And(Eq(e.term, eof), Not(bad)), Eq(le, eof)))


def nh_loop(eng, name, start, B, phis):
    """Every iteration goes ahead, and jumps over nothing but a trailer or one block of what is no header."""
    st0, st1 = start.st, B.st
    a, b = st0.ghost['hblk'], st1.ghost['hblk']
    for p in ('C10', 'C06', 'C16'):
        eng.check(st1, f'{p}:{name}:reading goes ahead', Cmp('>', b, a), assume=False)


def nextheader(prop):
    j = Job(NEXT, pre=nh_pre, post=nh_post, handlers=dict(DRIVE), loop_back=nh_loop, prop=prop)
    j.templates = lin('hblk')
    return j


# ---------------------------------------------------------------- Index
def ix_next(c):
    """The contract of nextHeader"""
    eng, st = c.eng, c.st
    d, tr, rs, r, b = c.args
    P = ('C04', 'C06', 'C16')
    tot = Add(Mul(r, rs), b)
    g = st.ghost.get('tr')
    for p in P:
        ck(c, p, 'the next header is expected where the content before ends', And(ceilis(eng, st, tot), Not(st.ghost.get('unread', False))))
        ck(c, p, 'the next header is read from where the drive is', g is not None and tr.root == g.root)
    ck(c, 'C04', 'the record size is the configured one', Eq(rs, eng.ixrs))
    e = err(c)
    nr, nb, n = z3.Int(f'next record#{c.uid}'), z3.Int(f'next block#{c.uid}'), z3.Int(f'next#{c.uid}')
    st.pc.append(z3.Implies(e.term == 0, z3.And(nr >= 0, nb >= 0, nb < lit(rs), nr * lit(rs) + nb >= lit(tot))))
    st.pc.append(n >= (nr * lit(rs) + nb + 1) * BLK)
    st.ghost['dpos'] = n
    st.ghost['unread'] = e.term == 0
    st.ghost['hblk'] = nr * lit(rs) + nb
    st.ghost['seen'] = lit(st.ghost.get('seen', 0)) + z3.If(e.term == 0, 1, 0)
    hp = newptr(eng, st, HDR, 'hdr')
    hdr_pre(eng, st, hp)
    t = newptr(eng, st, 'archive/tar.Reader', 'tr')
    t = PtrV(z3.Not(e.term == 0), t.root)
    st.ghost['tr'] = t
    st.ev('Next', e=e, h=hp, tr=t)
    return (PtrV(z3.Not(e.term == 0), hp.root), t, z3.If(e.term == 0, nr, 0), z3.If(e.term == 0, nb, 0), e)


def ix_decrypt(c):
    eng, st = c.eng, c.st
    hp, i = c.args
    last = lasthdr(st)
    for p in ('C01', 'C09', 'C07'):
        ck(c, p, 'the header which has been read is opened', last is not None and hp.root == last['h'].root)
    seen = st.ghost.get('seen', 0)
    off = eng.ixA['offset']
    for p in ('C01', 'C04', 'C07'):
        ck(c, p, 'the header is the one which has been written for this member', Eq(i, Sub(Sub(seen, 1), off)))
    e = err(c)
    st.ghost[('tmp', 'opened', hp.root)] = Eq(e.term, 0)
    st.ghost['failed'] = Or(st.ghost.get('failed', False), Not(Eq(e.term, 0)))
    # It might be replaced
    eng.havoc(st, hp, f'opened#{c.uid}')
    hdr_pre(eng, st, hp)
    return e


def lasthdr(st):
    x = st.events('Next')
    return x[-1] if x else None


def ix_verify(c):
    eng, st = c.eng, c.st
    hp, reg = c.args
    ck(c, 'C08', 'a header is verified after it has been opened', st.ghost.get(('tmp', 'opened', hp.root), False))
    ck(c, 'C08', 'the signature is the one of this kind of drive', iff(reg, eng.fget(eng.ixA['reader'], 'DriveIsRegular')))
    e = err(c)
    st.ghost[('tmp', 'verified', hp.root)] = Eq(e.term, 0)
    st.ghost['failed'] = Or(st.ghost.get('failed', False), Not(Eq(e.term, 0)))
    return e


def ix_indexheader(c):
    eng, st = c.eng, c.st
    r, b, hp, mp, comp, enc, ini, on = c.args
    A = eng.ixA
    ck(c, 'C08', 'only verified headers are indexed', st.ghost.get(('tmp', 'verified', hp.root), False))
    for p in ('C04', 'C01'):
        ck(c, p, 'a member is indexed where its header is', Eq(Add(Mul(r, eng.ixrs), b), st.ghost.get('hblk', -1)))
    last = lasthdr(st)
    for p in ('C01', 'C07'):
        ck(c, p, 'the header which has been read is indexed', last is not None and hp.root == last['h'].root)
        ck(c, p, 'it is indexed in the given index', eng.same(mp, eng.fget(A['metadata'], 'Metadata')))
    pp = A['pipes']
    for p in ('C03', 'C01'):
        ck(c, p, 'the formats are the configured ones', And(Eq(comp, eng.fget(pp, 'Compression')), Eq(enc, eng.fget(pp, 'Encryption'))))
    ck(c, 'C07', 'the index is told whether it is being made', iff(ini, A['initializing']))
    e = err(c)
    st.ghost['failed'] = Or(st.ghost.get('failed', False), Not(Eq(e.term, 0)))
    st.ghost['indexed'] = lit(st.ghost.get('indexed', 0)) + z3.If(e.term == 0, 1, 0)
    st.ev('indexHeader', e=e, h=hp)
    return e


def ix_purge(c):
    e = err(c)
    for p in ('C16', 'C07', 'C01'):
        ck(c, p, 'the index is only emptied if the tape is new', c.eng.ixA['overwrite'])
        ck(c, p, 'the index is emptied before it is made', Eq(c.st.ghost.get('seen', 0), 0))
    c.st.ev('Purge', e=e)
    return e


def rsize(eng):
    return list(eng.posK.values())[0]


def mt_seek(c):
    e = err(c)
    c.st.ghost['dpos'] = Mul(Mul(c.args[-1], rsize(c.eng)), BLK)
    c.st.ev('SeekToRecord', rec=c.args[-1], e=e)
    return e


def mt_next(c):
    e = err(c)
    c.st.ghost['failed'] = c.st.ghost.get('failed', False)
    c.st.ev('GoToNextFile', e=e)
    return e


def mt_current(c):
    e = err(c)
    n = z3.Int(f'tape record#{c.uid}')
    c.st.pc.append(n >= 0)
    c.st.ghost['dpos'] = Mul(Mul(n, rsize(c.eng)), BLK)
    c.st.ev('CurrentRecord', e=e, n=n)
    return (n, e)


def ix_pre(eng, st, A):
    eng.ixA = A
    pp = A['pipes']
    eng.ixrs = rs = eng.fget(pp, 'RecordSize')
    eng.posK = {'rs': rs}
    r, b, off = A['record'], A['block'], A['offset']
    # What its callers give it
    st.pc += [rs >= 1, r >= 0, b >= 0, b < rs, off >= 0]
    for k in ('decryptHeader', 'verifyHeader'):
        st.pc.append(z3.Not(A[k].nil))
    st.ghost.update(dpos=z3.Int('position of the drive'), seen=0, indexed=0, hblk=-1, failed=False, unread=False, badseek=False, nerr=-1)
    st.ghost['hdr'] = PtrV(True, newptr(eng, st, HDR, 'no header').root)
    st.pc.append(st.ghost['dpos'] >= 0)


def ix_loop(eng, name, start, B, phis):
    st0, st1 = start.st, B.st
    s0, s1 = st0.ghost.get('seen', 0), st1.ghost.get('seen', 0)
    i0, i1 = st0.ghost.get('indexed', 0), st1.ghost.get('indexed', 0)
    off = eng.ixA['offset']
    new = Not(Eq(s0, s1))
    for p in ('C01', 'C04', 'C06', 'C07', 'C16'):
        eng.check(st1, f'{p}:{name}:every member behind the given ones is indexed', Imp(And(new, Cmp('>=', s0, off)), Eq(Sub(i1, i0), 1)), assume=False)
        eng.check(st1, f'{p}:{name}:no member is indexed again', Imp(Or(Not(new), Cmp('<', s0, off)), Eq(i1, i0)), assume=False)
    for p in ('C08', 'C10', 'C07'):
        eng.check(st1, f'{p}:{name}:nothing is indexed behind a failure', Not(st1.ghost.get('failed', False)), assume=False)


def ix_post(eng, st, A, rs):
    ok = Eq(rs[0].term, 0)
    obl(eng, st, ('C01', 'C07', 'C08', 'C10'), 'a failure is reported', Imp(st.ghost.get('failed', False), Not(ok)))
    pg = st.events('Purge')
    obl(eng, st, ('C16', 'C07', 'C01'), 'the index of a new tape is emptied', Imp(And(A['overwrite'], ok), len(pg) == 1 and Eq(pg[0]['e'].term, 0)))
    reg = eng.fget(A['reader'], 'DriveIsRegular')
    nx = st.events('Next')
    cp = st.events('Copy')
    torn = bool(cp) and Eq(cp[-1]['e'].term, eng.err('io.ErrUnexpectedEOF').term)
    end = bool(nx) and Eq(nx[-1]['e'].term, eng.err('io.EOF').term)
    obl(eng, st, ('C01', 'C06', 'C07', 'C16', 'C17'), 'all of the drive has been read', Imp(And(ok, reg), Or(end, torn)))
    # What is read before the end of the drive or its torn end has been indexed
    gone = bool(nx) and nx[-1]['e'].term == 0
    ixs = st.events('indexHeader')
    if nx and isz(gone):
        seen = st.ghost.get('seen', 0)
        obl(eng, st, ('C01', 'C06', 'C07', 'C16'), 'the last member is indexed as well', Imp(And(ok, reg, gone, Cmp('>=', Sub(seen, 1), A['offset'])), bool(ixs) and ixs[-1]['h'].root == nx[-1]['h'].root))
    if nx:
        ne = st.ghost.get('nerr', 0)
        ends = Or(Eq(ne, eng.err('io.EOF').term), Eq(ne, eng.err('io.ErrUnexpectedEOF').term))
        bad = Or(*[Not(Eq(x['e'].term, 0)) for x in st.events('CurrentRecord', 'Copy')]) if st.events('CurrentRecord', 'Copy') else False
        obl(eng, st, ('C06', 'C16', 'C17'), 'a torn record does not end the tape', Imp(And(Not(reg), ends, Not(ok)), bad))
    if cp:
        obl(eng, st, ('C06', 'C16'), 'torn content is no failure', Imp(And(torn, st.trace[-1][0] == 'Copy'), ok))
    go = st.events('GoToNextFile')
    obl(eng, st, ('C01', 'C07', 'C16', 'C17'), 'all of the tape has been read', Imp(And(ok, Not(reg)), bool(go) and Not(Eq(go[-1]['e'].term, 0))))


def nilreader(c):
    r = c.fresh()
    return r


def b_newsize(c):
    p = newptr(c.eng, c.st, 'bufio.Reader', 'br')
    c.st.ev('NewReaderSize', size=c.args[1])
    return p


def b_read(c):
    eng, st = c.eng, c.st
    e, n = err(c), z3.Int(f'skipped#{c.uid}')
    # The drive hands out whole records: a block of the record is skipped in one go
    st.pc.append(z3.And(n >= 0, n <= lit(c.args[1].len)))
    st.ghost['dpos'] = Add(st.ghost.get('dpos', 0), c.args[1].len)
    st.ev('skip', n=c.args[1].len, e=e)
    return (n, e)


def index(prop, tag='', pre=None):
    h = dict(DRIVE)
    h.update(JSON)
    h[NEXT] = ix_next
    h[IHDR] = ix_indexheader
    h[f'param {IDX}.decryptHeader'] = ix_decrypt
    h[f'param {IDX}.verifyHeader'] = ix_verify
    h[MP + 'PurgeAllHeaders'] = ix_purge
    h['bufio.NewReaderSize'] = b_newsize
    h['(*bufio.Reader).Read'] = b_read
    for k in ('pkg/config.MagneticTapeIO',):
        h[f'({k}).SeekToRecordOnTape'] = mt_seek
        h[f'({k}).GoToNextFileOnTape'] = mt_next
        h[f'({k}).GetCurrentRecordFromTape'] = mt_current
    h['(pkg/config.ReadSeekFder).Fd'] = lambda c: c.fresh()
    j = Job(IDX, pre=ix_pre, post=ix_post, handlers=h, loop_back=ix_loop, prop=prop)
    j.templates = lin('pos', 'seen')
    return j


# ---------------------------------------------------------------- Fetch
def f_hdr(name, prop, fmtf, keyf):
    def h(c):
        eng, st = c.eng, c.st
        A = eng.fA
        hp = c.args[0]
        fmt, key = c.args[-2], c.args[-1]
        ck(c, prop, f'{name} with the configured format', Eq(fmt, eng.fget(A['pipes'], fmtf)))
        ck(c, prop, f'{name} with the configured key', ident(eng, key) == ident(eng, eng.fget(A['crypto'], keyf)))
        last = lasthdr(st)
        ck(c, prop, f'{name} of the header which has been read', last is not None and hp.root == last['h'].root)
        if name == 'VerifyHeader':
            ck(c, 'C08', 'a header is verified after it has been opened', st.ghost.get(('tmp', 'DecryptHeader', hp.root), False))
            ck(c, 'C08', 'the signature is the one of this kind of drive', iff(c.args[1], eng.fget(A['reader'], 'DriveIsRegular')))
        e = err(c)
        eng.havoc(st, hp, f'{name}#{c.uid}')
        hh, d, a = hdr_pre(eng, st, hp)
        st.ghost[('tmp', name, hp.root)] = Eq(e.term, 0)
        st.ghost['verifiedhdr'] = Box((hh, d, a))
        bad(st, e)
        return e
    return h


def bad(st, e):
    st.ghost['failed'] = Or(st.ghost.get('failed', False), Not(Eq(e.term, 0)))


def verified(st):
    last = lasthdr(st)
    return last is not None and st.ghost.get(('tmp', 'VerifyHeader', last['h'].root), False)


def f_getdst(c):
    eng, st = c.eng, c.st
    ck(c, 'C08', 'only a verified header makes output', verified(st))
    ck(c, 'C10', 'one output', not st.events('getDst'))
    ck(c, 'C03', 'no output for a preview', Not(eng.fA['preview']))
    e = err(c)
    bad(st, e)
    lab = f'dst#{c.uid}'
    st.ev('getDst', to=c.args[0], mode=c.args[1], e=e, lab=lab)
    return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'dst'), e)


def f_mkdir(c):
    eng, st = c.eng, c.st
    ck(c, 'C08', 'only a verified header makes output', verified(st))
    ck(c, 'C03', 'no output for a preview', Not(eng.fA['preview']))
    e = err(c)
    bad(st, e)
    st.ev('mkdirAll', to=c.args[0], mode=c.args[1], e=e)
    return e


def f_close(c):
    e = err(c)
    last = c.st.ghost.get('closed', 0)
    c.st.ghost['closed'] = last + 1
    if c.recv.kind == 'dst':
        c.st.ev('dstClose', e=e)
    else:
        c.st.ev('Close', e=e, r=c.recv.label)
    return e


def f_onheader(c):
    ck(c, 'C08', 'only verified headers are handed out', verified(c.st))
    c.st.ev('onHeader')
    return [(c.st, [])]


def layer(kind, fmtf, keyf, prop):
    def h(c):
        eng, st = c.eng, c.st
        A = eng.fA
        if kind == 'verifier':
            src, reg, fmt, key, sig = c.args
            ck(c, 'C08', 'the content is verified as what this kind of drive has', iff(reg, eng.fget(A['reader'], 'DriveIsRegular')))
            b = st.ghost.get('verifiedhdr')
            hh, d, a = b.v if b else (None, None, None)
            if b:
                ck(c, 'C08', 'the signature is the one of the header', Eq(sig, z3.If(has(d, 'Signature'), val(a, 'Signature'), K(''))))
        elif kind == 'decompressor':
            (src, fmt), key = c.args, None
        else:
            src, fmt, key = c.args
        ck(c, prop, f'{kind} of the configured format', Eq(fmt, eng.fget(A['pipes'], fmtf)))
        if key is not None:
            ck(c, prop, f'{kind} with the configured key', ident(eng, key) == ident(eng, eng.fget(A['crypto'], keyf)))
        e = err(c)
        bad(st, e)
        lab = f'{kind}#{c.uid}'
        st.ghost[('tmp', 'layer', lab)] = (kind, srcname(eng, st, src))
        r = IfaceV(z3.Not(e.term == 0), None, None, lab, kind)
        if kind == 'verifier':
            return (r, FuncV(z3.Not(e.term == 0), None, (), f'verify {lab}', 'verify'), e)
        return (r, e)
    return h


def srcname(eng, st, src):
    v = src.val if isinstance(src, IfaceV) and src.dyn is not None else src
    tr = st.ghost.get('tr')
    if isinstance(v, PtrV):
        return 'member' if tr is not None and v.root == tr.root else str(v.root)
    return str(v.label)


def chain(st, lab):
    out = []
    while True:
        x = st.ghost.get(('tmp', 'layer', lab))
        if x is None:
            return out + [lab]
        out.append(x[0])
        lab = x[1]


def f_copy(c):
    eng, st = c.eng, c.st
    dst, src = c.args
    e, n = err(c), z3.Int(f'copied#{c.uid}')
    st.pc.append(n >= 0)
    bad(st, e)
    g = st.events('getDst')
    ch = chain(st, srcname(eng, st, src))
    st.ev('Copy', dst=dst, e=e, n=n, ch=ch, todst=bool(g) and isinstance(dst, IfaceV) and dst.label == g[-1]['lab'])
    return (n, e)


def f_verify(c):
    e = err(c)
    bad(c.st, e)
    c.st.ev('verify', e=e)
    return e


def f_pre(eng, st, A):
    eng.fA = A
    pp = A['pipes']
    rs = eng.fget(pp, 'RecordSize')
    eng.posK = {'rs': rs}
    st.pc += [rs >= 1, A['record'] >= 0, A['block'] >= 0, A['block'] < rs]
    for k in ('getDst', 'mkdirAll'):
        st.pc.append(z3.Not(A[k].nil))
    st.ghost.update(dpos=z3.Int('position of the drive'), seen=0, hblk=-1, failed=False, unread=False, badseek=False, nerr=-1)
    st.ghost['hdr'] = PtrV(True, newptr(eng, st, HDR, 'no header').root)


def f_post(eng, st, A, rs):
    ok = Eq(rs[0].term, 0)
    P = ('C03', 'C01')
    failed = Or(st.ghost.get('failed', False), st.ghost.get('badseek', False), Not(Eq(st.ghost.get('nerr', 0), 0)))
    obl(eng, st, ('C03', 'C06', 'C08', 'C10'), 'a failure is reported', Imp(failed, Not(ok)))
    nx = st.events('Next')
    if nx:
        want = Add(Mul(A['record'], rsize(eng)), A['block'])
        obl(eng, st, ('C03', 'C04'), 'the member which is read is the one at the given position', Or(Not(And(ok, len(nx) == 1)), Eq(nx[0]['start'], want)))
    g, md, cp = st.events('getDst'), st.events('mkdirAll'), st.events('Copy')
    cl = st.events('dstClose')
    opened = bool(g) and Eq(g[-1]['e'].term, 0)
    obl(eng, st, ('C10', 'C03'), 'the output is closed', Imp(opened, len(cl) >= 1))
    obl(eng, st, ('C03', 'C10'), 'a failure to close the output is reported', Imp(bool(cl) and Not(Eq(cl[-1]['e'].term, 0)), Not(ok)))
    b = st.ghost.get('verifiedhdr')
    if b is None or A['preview'] is True:
        return
    h, d, a = b.v
    isdir = Eq(eng.fget(h, 'Typeflag'), ord('5'))
    regular = ubool('mode.IsRegular', models.hdrinfo(eng, st, h))
    real = And(Not(A['preview']), ok)
    obl(eng, st, P, 'a folder is made for a folder', Imp(And(real, isdir), len(md) == 1 and not g))
    obl(eng, st, P, 'a file is made for everything else', Imp(And(real, Not(isdir)), len(g) == 1 and not md))
    to = z3.If(A['to'] == K(''), ustr('path.Base', eng.fget(h, 'Name')), A['to'])
    for x in g + md:
        obl(eng, st, ('C03', 'C02'), 'the output is where it is asked for', Eq(x['to'], to))
    empty = And(Not(has(d, 'UncompressedSize')), Eq(eng.fget(h, 'Size'), 0))
    full = ['verifier', 'decompressor', 'decryptor', 'member']
    body = And(real, Not(isdir), regular, Not(empty))
    obl(eng, st, P + ('C08', 'C09'), 'content goes through the whole pipeline', Imp(body, len(cp) == 1 and cp[0]['ch'] == full and cp[0]['todst']))
    obl(eng, st, P, 'other members are copied as they are', Imp(And(real, Not(isdir), Not(regular)), len(cp) == 1 and cp[0]['ch'] == ['member'] and cp[0]['todst']))
    obl(eng, st, P, 'only members without content are empty', Imp(And(real, Not(isdir), not cp), empty))
    names = [n for n, _ in st.trace]
    vf = [k for k, n in enumerate(names) if n == 'verify']
    cpi = [k for k, n in enumerate(names) if n == 'Copy']
    obl(eng, st, ('C08',), 'content is verified behind its end', Imp(body, bool(vf) and bool(cpi) and vf[-1] > cpi[-1]))
    sig = eng.fget(A['pipes'], 'Signature')
    for x in cp:
        obl(eng, st, ('C08',), 'content which has no signature is refused', Imp(And(x['ch'] == ['member'], Cmp('>', x['n'], 0), Not(Eq(sig, ''))), Not(ok)))


def fetch(prop):
    h = dict(DRIVE)
    h.update(JSON)
    h['io.Copy'] = f_copy
    h['bufio.NewReaderSize'] = b_newsize
    h['(*bufio.Reader).Read'] = b_read
    h['(pkg/config.MagneticTapeIO).SeekToRecordOnTape'] = mt_seek
    h['(pkg/config.ReadSeekFder).Fd'] = lambda c: c.fresh()
    h['pkg/encryption.DecryptHeader'] = f_hdr('DecryptHeader', 'C09', 'Encryption', 'Identity')
    h['pkg/signature.VerifyHeader'] = f_hdr('VerifyHeader', 'C08', 'Signature', 'Recipient')
    h['pkg/encryption.Decrypt'] = layer('decryptor', 'Encryption', 'Identity', 'C09')
    h['pkg/compression.Decompress'] = layer('decompressor', 'Compression', None, 'C03')
    h['pkg/signature.Verify'] = layer('verifier', 'Signature', 'Recipient', 'C08')
    h['verify'] = f_verify
    for k in ('dst', 'decryptor', 'decompressor'):
        h[f'{k}.Close'] = f_close
    h[f'param {FETCH}.getDst'] = f_getdst
    h[f'param {FETCH}.mkdirAll'] = f_mkdir
    h[f'param {FETCH}.onHeader'] = f_onheader
    return Job(FETCH, pre=f_pre, post=f_post, handlers=h, prop=prop)
