"""What compresses and what decompresses (pkg/compression), the suffixes of names (internal/suffix), the copying of
content (pkg/operations/copy.go) and the counting of what is read and written (internal/ioext).

Every library is the family of what it writes or reads; that a family's reader reads what its writer has written is
assumed of the libraries.
"""
from common import *
from rec import obl
from drv import both, same_slice

P = ('C03',)
COMP = 'pkg/compression.'
FAMILY = {'gzip': 'gzip', 'parallelgzip': 'gzip', 'lz4': 'lz4', 'zstandard': 'zstandard', 'brotli': 'brotli', 'bzip2': 'bzip2', 'parallelbzip2': 'bzip2', '': 'none'}
LEVELS = ('fastest', 'balanced', 'smallest')
LZ, ZS, BR, BZ, PB, PG = 'github.com/pierrec/lz4/v4', 'github.com/klauspost/compress/zstd', 'github.com/andybalholm/brotli', 'github.com/dsnet/compress/bzip2', 'github.com/cosnicolaou/pbzip2', 'github.com/klauspost/pgzip'


def place(eng, v):
    if isinstance(v, IfaceV) and v.dyn is not None:
        return place(eng, v.val)
    return v.root if isinstance(v, PtrV) else ident(eng, v)


def lib(c, family, tname, on, fails, key):
    eng, st = c.eng, c.st
    p = newptr(eng, st, tname, family + key)
    st.ghost[(key, p.root)] = Box((family, on))
    st.ghost['libs'] = Box(st.ghost.get('libs', Box(())).v + (p.root,))
    if fails is None:
        return p
    s2, e = both(c)
    if fails is not True:
        # It fails exactly if
        st.pc.append(lit(Not(fails)))
        s2.pc.append(lit(fails))
    else:
        s2.ghost['libfails'] = True
    return [(st, [p, ErrV(0)]), (s2, [PtrV(True, p.root), e])]


def writer(family, tname, lo=None, hi=None, fails=False):
    def h(c):
        f = None
        if lo is not None:
            f = Or(Cmp('<', c.args[1], lo), Cmp('>', c.args[1], hi))
            if not fails:
                c.eng.check(c.st, 'C03:a level of the library', Not(f))
                f = None
        elif fails:
            f = True
        return lib(c, family, tname, c.args[0], f, 'writes')
    return h


def reader(family, tname, fails=True, arg=0):
    return lambda c: lib(c, family, tname, c.args[arg], True if fails else None, 'decodes')


def done(what):
    """A call of a library, or of what it is for"""
    def h(c):
        eng, st = c.eng, c.st
        o = c.recv if c.recv is not None else c.args[0]
        data = c.args[-1] if what in ('Write', 'Read') else None
        s2, e = both(c)
        n = z3.Int(f'{what} n#{c.uid}')
        for s, er in ((st, ErrV(0)), (s2, e)):
            s.ev('lib ' + what, on=place(eng, o), p=data, e=er, n=n)
        pre = [n] if data is not None else []
        return [(st, pre + [ErrV(0)]), (s2, pre + [e])]
    return h


def apply_(c):
    """Options"""
    s2, e = both(c)
    s2.ghost['libfails'] = True
    return [(c.st, [ErrV(0)]), (s2, [e])]


def z_new(c):
    """Windows smaller than 1 KB are refused"""
    return writer('zstandard', ZS + '.Encoder', fails=True)(c)


def bz_new(c):
    eng, st = c.eng, c.st
    cfg = c.args[1]
    if isinstance(cfg, PtrV) and cfg.nil is False:
        lv = eng.fget(eng.root(st, cfg.root), 'Level')
        eng.check(st, 'C03:a level of the library', And(Cmp('>=', lv, 0), Cmp('<=', lv, 9)))
    return lib(c, 'bzip2', BZ + '.Writer', c.args[0], True, 'writes')


def cw():
    h = {'compress/gzip.NewWriterLevel': writer('gzip', 'compress/gzip.Writer', -2, 9, True), PG + '.NewWriterLevel': writer('gzip', PG + '.Writer', -2, 9, True),
         'compress/gzip.NewWriter': writer('gzip', 'compress/gzip.Writer'), PG + '.NewWriter': writer('gzip', PG + '.Writer'),
         LZ + '.NewWriter': writer('lz4', LZ + '.Writer'), ZS + '.NewWriter': z_new, BR + '.NewWriterLevel': writer('brotli', BR + '.Writer', 0, 11), BR + '.NewWriter': writer('brotli', BR + '.Writer'),
         BZ + '.NewWriter': bz_new,
         'math.Pow': lambda c: z3.Real(f'power#{c.uid}'), 'math.Log2': lambda c: z3.Real(f'log#{c.uid}'),
         'compress/gzip.NewReader': reader('gzip', 'compress/gzip.Reader'), PG + '.NewReader': reader('gzip', PG + '.Reader'), PG + '.NewReaderN': reader('gzip', PG + '.Reader'),
         LZ + '.NewReader': reader('lz4', LZ + '.Reader', False), ZS + '.NewReader': reader('zstandard', ZS + '.Decoder'), BR + '.NewReader': reader('brotli', BR + '.Reader', False),
         BZ + '.NewReader': reader('bzip2', BZ + '.Reader'), PB + '.NewReader': reader('bzip2', 'io.Reader', False, 1), 'compress/bzip2.NewReader': reader('bzip2', 'io.Reader', False),
         'io.NopCloser': c_nop, f'(*{LZ}.Writer).Apply': apply_, f'(*{LZ}.Reader).Apply': apply_}
    for o in ('CompressionLevelOption', 'ConcurrencyOption', 'BlockSizeOption'):
        h[f'{LZ}.{o}'] = option
    for o in ('WithEncoderLevel', 'WithWindowSize'):
        h[f'{ZS}.{o}'] = option
    for t in ('compress/gzip.Writer', PG + '.Writer', LZ + '.Writer', ZS + '.Encoder', BR + '.Writer', BZ + '.Writer', 'compress/gzip.Reader', PG + '.Reader', LZ + '.Reader', ZS + '.Decoder', BR + '.Reader', BZ + '.Reader'):
        for m in ('Write', 'Close', 'Flush', 'Read'):
            h[f'(*{t}).{m}'] = done(m)
    for t in ('io.Writer', 'io.Reader'):
        for m in ('Write', 'Read'):
            h[f'({t}).{m}'] = done(m)
    return h


def option(c):
    return c.fresh()[0]


def c_nop(c):
    r = c.args[0]
    lab = f'nop~{c.uid}'
    c.st.ghost[('nop', lab)] = Box(r)
    return IfaceV(False, None, None, lab, 'io.NopCloser')


def invoke(eng, st, v, meth, args):
    """What a method of a result does"""
    if isinstance(v, IfaceV) and v.kind == 'io.NopCloser':
        if meth == 'Close':
            return [(st, [ErrV(0)])]
        return invoke(eng, st, st.ghost[('nop', v.label)].v, meth, args)
    if isinstance(v, PtrV):
        t = eng.p.types[eng.root(st, v.root).t]['s']
        return eng.apply(mk(eng, st, v, meth, args, f'(*{t}).{meth}'), done(meth))
    if v.dyn is None:
        return eng.apply(mk(eng, st, v, meth, args, meth), done(meth))
    ins = {'call': {'sig': None}}
    return eng.do_call({'name': 'spec'}, st, (None, meth, f'(io.X).{meth}', v), args, ins, 1)


def mk(eng, st, v, meth, args, name):
    class C:
        pass
    eng.uid += 1
    c = C()
    c.eng, c.st, c.args, c.recv, c.uid, c.name = eng, st, [v] + list(args), v, eng.uid, name
    return c


def objects(st, key):
    b = st.ghost.get('libs')
    return [r for r in (b.v if b is not None else ()) if (key, r) in st.ghost]


def slice_arg(eng, st):
    for f in eng.p.funcs.values():
        for pa in f.get('params', ()):
            if eng.p.types[pa['t']]['s'] == '[]byte':
                return eng.fresh(pa['t'], 'the content')
    raise Unsupported('no bytes')


def family_is(fmt, fam):
    return Or(*[Eq(fmt, k) for k, v in FAMILY.items() if v == fam])


def known(x, xs):
    return Or(*[Eq(x, k) for k in xs])


def comp_post(eng, st, A, rs):
    w, e = rs
    ok = Eq(e.term, 0)
    fmt, lvl = A['compressionFormat'], A['compressionLevel']
    obl(eng, st, P, 'an unknown format is refused', Imp(ok, known(fmt, FAMILY)))
    obl(eng, st, P, 'an unknown level is refused', Imp(And(ok, Not(Eq(fmt, ''))), known(lvl, LEVELS)))
    if not st.ghost.get('libfails'):
        obl(eng, st, P, 'content of a file is compressed in every format and level', Imp(And(A['isRegular'], known(fmt, FAMILY), known(lvl, LEVELS)), ok))
    if not eng.feasible(st, ok):
        return
    eng.assume(st, ok)
    p = slice_arg(eng, st)
    s0 = st.fork()
    s0.trace = ()
    def of(s, x):
        for r in objects(s, 'writes'):
            if x['on'] == r:
                return s.ghost[('writes', r)].v
        return ('none', None) if x['on'] == place(eng, A['dst']) else ('?', None)
    for s, (n, e1) in invoke(eng, s0.fork(), w, 'Write', [p]):
        ev = s.events('lib Write')
        obl(eng, s, P, 'what is written is compressed', len(ev) == 1 and same_slice(ev[0]['p'], p))
        if len(ev) != 1:
            continue
        fam, dst = of(s, ev[0])
        obl(eng, s, P, 'the format is the one which has been asked for', family_is(fmt, fam))
        obl(eng, s, P, 'what is compressed goes to where it belongs', dst is None or ident(eng, dst) == ident(eng, A['dst']))
        obl(eng, s, P, 'a failure to write is reported', iff(Eq(e1.term, 0), Eq(ev[0]['e'].term, 0)))
        obl(eng, s, P, 'how much has been written is returned', Eq(n, ev[0]['n']))
    for s, (e1,) in invoke(eng, s0.fork(), w, 'Close', []):
        ev = s.events('lib Close')
        obl(eng, s, P, 'closing ends what is compressed', Or(Eq(fmt, ''), len(ev) == 1 and family_is(fmt, of(s, ev[0])[0])))
        obl(eng, s, P, 'a failure to close is reported', iff(Eq(e1.term, 0), And(*[Eq(x['e'].term, 0) for x in ev])))
    for s, (e1,) in invoke(eng, s0.fork(), w, 'Flush', []):
        ev = s.events('lib Flush', 'lib Close')
        obl(eng, s, P, 'flushing does not end what is compressed', not s.events('lib Close'))
        obl(eng, s, P, 'a failure to flush is reported', iff(Eq(e1.term, 0), And(*[Eq(x['e'].term, 0) for x in ev])))


def decomp_post(eng, st, A, rs):
    r, e = rs
    ok = Eq(e.term, 0)
    fmt = A['compressionFormat']
    obl(eng, st, P, 'an unknown format is refused', Imp(ok, known(fmt, FAMILY)))
    if not st.ghost.get('libfails'):
        obl(eng, st, P, 'every format is decompressed', Imp(known(fmt, FAMILY), ok))
    if not eng.feasible(st, ok):
        return
    eng.assume(st, ok)
    p = slice_arg(eng, st)
    s0 = st.fork()
    s0.trace = ()
    for s, (n, e1) in invoke(eng, s0.fork(), r, 'Read', [p]):
        ev = s.events('lib Read')
        obl(eng, s, P, 'what is read is decompressed', len(ev) == 1 and same_slice(ev[0]['p'], p))
        if len(ev) != 1:
            continue
        fam, src = 'none' if ev[0]['on'] == place(eng, A['src']) else '?', None
        for x in objects(s, 'decodes'):
            if ev[0]['on'] == x:
                fam, src = s.ghost[('decodes', x)].v
        obl(eng, s, P, 'the format is the one which has been asked for', family_is(fmt, fam))
        obl(eng, s, P, 'what is decompressed is what there is', src is None or ident(eng, src) == ident(eng, A['src']))
        obl(eng, s, P, 'how much has been read is returned', Eq(n, ev[0]['n']))
        obl(eng, s, P, 'a failure to read is reported', Eq(e1.term, ev[0]['e'].term))


def compression(prop):
    return [Job(COMP + 'Compress', post=comp_post, handlers=cw(), prop=prop), Job(COMP + 'Decompress', post=decomp_post, handlers=cw(), prop=prop)]


# suffixes
SUF = 'internal/suffix.'
CF, EF = tuple(FAMILY), ('', 'age', 'pgp')


def suf_post(eng, st, A, rs):
    r, e = rs
    Q = ('C03', 'C01', 'C02', 'C06')
    ok = Eq(e.term, 0)
    cf, ef, name = A['compressionFormat'], A['encryptionFormat'], A['name']
    obl(eng, st, Q, 'a name gets a suffix exactly in known formats', iff(ok, And(known(cf, CF), known(ef, EF))))
    if not eng.feasible(st, ok):
        return
    eng.assume(st, ok)
    rm = [n for n in eng.p.funcs if short(n) == SUF + 'RemoveSuffix']
    if not rm:
        raise Unsupported('no RemoveSuffix')
    for s, (r2, e2) in eng.exec_fn(rm[0], [r, cf, ef], [], st.fork(), 1):
        obl(eng, s, Q, 'a name gets rid of its suffix', And(Eq(e2.term, 0), Eq(r2, name)))


def suffixes(prop):
    return [Job(SUF + 'AddSuffix', post=suf_post, prop=prop)]


# copyContent: all of it, in order, in writes of the same length
CP = 'pkg/operations.copyContent'


def cp_read(full):
    def h(c):
        eng, st = c.eng, c.st
        p = c.args[-1]
        n = z3.Int(f'read#{c.uid}')
        obl(eng, st, P, 'nothing is read before what has been read is written', Eq(st.ghost['pending'], 0))
        obl(eng, st, P, 'nothing is read after the end', Not(st.ghost['end']))
        obl(eng, st, P, 'something can be read', Cmp('>', p.len, 0))
        out = []
        kinds = [('all', 0), ('fails', None), ('end', eng.err('io.EOF').term)] + ([('rest', eng.err('io.ErrUnexpectedEOF').term)] if full else [('short', 0)])
        for k, t in kinds:
            s = st.fork()
            e = err(c) if t is None else ErrV(t)
            s.pc += [n >= 0, n <= lit(p.len)]
            if k == 'all':
                s.pc.append(n == lit(p.len))
            if k == 'fails':
                s.pc += [e.term != 0, e.term != eng.err('io.EOF').term, e.term != eng.err('io.ErrUnexpectedEOF').term]
                s.ghost['failed'] = True
                if not full:
                    s.pc.append(n == 0)
            if k == 'end':
                s.pc.append(n == 0)
            if k in ('rest', 'short'):
                s.pc += [n > 0, n < lit(p.len)]
            if k in ('end', 'rest'):
                s.ghost['end'] = True
            s.ghost['pending'] = n
            s.ghost['left'] = And(k == 'short')
            s.ghost[('tmp', 'buf')] = p
            out.append((s, [n, e]))
        return out
    return h


def cp_write(c):
    eng, st = c.eng, c.st
    p = c.args[-1]
    b = st.ghost.get(('tmp', 'buf'))
    obl(eng, st, P, 'what has been read is written', b is not None and And(p.root == b.root, Eq(p.off, b.off), Eq(p.len, st.ghost['pending'])))
    # A read which hands out less than there is would make writes depend on the source
    obl(eng, st, P + ('C05',), 'writes do not depend on how the content is handed out', Not(st.ghost.get('left', False)))
    s2, e = both(c)
    n = z3.Int(f'short#{c.uid}')
    st.ghost['pending'] = 0
    s2.ghost['failed'] = True
    s2.ghost['pending'] = 0
    return [(st, [p.len, ErrV(0)]), (s2, [n, e])]


def cp_pre(eng, st, A):
    st.pc.append(A['recordSize'] >= 1)
    st.ghost.update(pending=0, end=False, failed=False, left=False)


def cp_post(eng, st, A, rs):
    ok = Eq(rs[0].term, 0)
    obl(eng, st, P, 'success is the end of the content', Imp(ok, st.ghost['end']))
    obl(eng, st, P, 'all of the content is written', Imp(ok, Eq(st.ghost['pending'], 0)))
    obl(eng, st, P + ('C10',), 'a failure to read or write is reported', iff(ok, Not(st.ghost['failed'])))


def cp_templates(eng, f, P_, quant, errs):
    return [('nothing is pending', lambda Q: Eq(Q.st.ghost['pending'], 0)), ('not the end', lambda Q: Not(Q.st.ghost['end'])), ('nothing has failed', lambda Q: Not(Q.st.ghost['failed'])),
            ('nothing is left', lambda Q: Not(Q.st.ghost['left']))]


def copying(prop):
    h = {'io.ReadFull': lambda c: cp_read(True)(c), 'io.ReadAtLeast': None, '(io.Reader).Read': cp_read(False), '(io.Writer).Write': cp_write}
    h.pop('io.ReadAtLeast')
    j = Job(CP, pre=cp_pre, post=cp_post, handlers=h, prop=prop)
    j.templates = cp_templates
    return [j]


# counters
CNT = [('CounterReader', 'Read'), ('CounterReadCloser', 'Read'), ('CounterReadSeekCloser', 'Read'), ('CounterWriter', 'Write')]


def counting(prop):
    Q = ('C03', 'C04')

    def mkjob(t, m):
        def call(c):
            n = z3.Int('n')
            e = err(c)
            c.st.pc += [n >= 0, n <= lit(c.args[-1].len)]
            c.st.ev('io', p=c.args[-1], n=n, e=e)
            return (n, e)

        def pre(eng, st, A):
            p = [v for v in A.values() if isinstance(v, PtrV)][0]
            A['counter'] = p
            A['before'] = eng.fget(eng.root(st, p.root), 'BytesRead')

        def post(eng, st, A, rs):
            n, e = rs
            ev = st.events('io')
            obl(eng, st, Q, 'what is counted is read or written once', len(ev) == 1)
            if len(ev) != 1:
                return
            sl = [v for v in A.values() if isinstance(v, SliceV)][0]
            obl(eng, st, Q, 'what is read or written is what is to be', same_slice(ev[0]['p'], sl))
            obl(eng, st, Q, 'the result is the one of what is counted', And(Eq(n, ev[0]['n']), Eq(e.term, ev[0]['e'].term)))
            obl(eng, st, Q, 'all of it is counted', Eq(eng.fget(eng.root(st, A['counter'].root), 'BytesRead'), Add(A['before'], n)))
        h = {}
        for i in ('io.Reader', 'io.Writer', 'io.ReadCloser', 'io.ReadSeekCloser', 'io.ReadSeeker'):
            h[f'({i}).{m}'] = call
        return Job(f'(*internal/ioext.{t}).{m}', pre=pre, post=post, handlers=h, prop=prop)
    return [mkjob(*x) for x in CNT]


def codec_jobs(prop):
    J = []
    if prop == 'C03':
        J += compression(prop)
    if prop in ('C03', 'C05', 'C10'):
        J += copying(prop)
    if prop in ('C03', 'C04'):
        J += counting(prop)
    if prop in ('C01', 'C02', 'C03', 'C06'):
        J += suffixes(prop)
    return J
