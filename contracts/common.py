"""The contracts which callers use for what they call: drive, index, archive, pipeline.

Every handler states the contract of a function as its callers see it: obligations on what it requires (named after the
property they decide), the havoc of what it may change, and its result. The bodies behind these contracts are verified
separately (see the modules of the properties); those of what is not part of /repo are assumed and listed as such.
"""
import z3
from engine import Job, Unsupported, short
import models
from models import ustr, uint, ubool, lockname, locks_free, elems
from values import *

OPS = '(*pkg/operations.Operations).'
TM = '(*pkg/tape.TapeManager).'
FS = '(*pkg/fs.STFS).'
FILE = '(*pkg/fs.File).'
MP = '(pkg/config.MetadataPersister).'
PERS = '(*pkg/persisters.MetadataPersister).'
PANICS = {'nil', 'bounds', 'typeassert', 'panic', 'div'}

REC = 'pkg'


# ---------------------------------------------------------------- helpers
def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return lit(a) == lit(b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if not isz(a) and not isz(b) and a == b:
        return a
    return z3.If(c, lit(a), lit(b))


def where(c):
    """The function whose contract is being verified, for the names of obligations."""
    return c.eng.job.fn


def held(eng, st, field):
    """Is a lock with this field name held?"""
    r = False
    for k, v in st.ghost.items():
        if isinstance(k, tuple) and k[0] == 'lock':
            n = lockname(eng, PtrV(False, k[1], k[2]))
            if n.endswith(field):
                r = Or(r, v)
    return r


def ck(c, prop, what, cond):
    """An obligation of `prop` at a call."""
    return c.eng.check(c.st, f'{prop}:{where(c)}:{what}', cond)


def drive(st):
    return st.ghost.get('drive', 0)


def fields(eng, s):
    return [f['n'] for f in eng.p.fields(s.t)]


def struct_eq(eng, a, b, skip=()):
    """Equality of two structs, field by field; None if a field cannot be compared."""
    if eng.same(a, b):
        return True
    cs = []
    for i, f in enumerate(eng.p.fields(a.t)):
        if f['n'] in skip:
            continue
        x, y = eng.field(a, i), eng.field(b, i)
        cs.append(val_eq(eng, x, y))
    if any(x is None for x in cs):
        return None
    return And(*cs)


def val_eq(eng, x, y):
    if eng.same(x, y):
        return True
    if isinstance(x, StructV) and isinstance(y, StructV):
        return struct_eq(eng, x, y)
    if isinstance(x, MapV) and isinstance(y, MapV):
        return True if x.root == y.root and x.root is not None else Eq(x, y)
    if isinstance(x, OpaqueV) and isinstance(y, OpaqueV):
        return x.label == y.label
    return Eq(x, y)


def typ(eng, s):
    """The id of a type by its short name."""
    for k, i in eng.p.by_s.items():
        if short(k) == s:
            return i
    raise Unsupported('no type ' + s)


def newptr(eng, st, tname, label, over=None):
    t = typ(eng, tname)
    eng.uid += 1
    r = eng.new(st, t, f'{label}~{eng.uid}', None)
    s = StructV(t, r)
    for k, v in (over or {}).items():
        s = eng.setf(s, eng.p.fidx(t, k), v)
    st.heap[r] = s
    return PtrV(False, r)


def newmap(eng, st, tname, dom, arr):
    t = typ(eng, tname)
    eng.uid += 1
    r = eng.new(st, ('map', t), f'map~{eng.uid}', None)
    st.heap[r] = MapC(dom, arr)
    return MapV(False, r, t)


def emptydom():
    return z3.K(z3.StringSort(), z3.BoolVal(False)), z3.K(z3.StringSort(), z3.StringVal(''))


def pax(eng, st, hdr):
    """(dom, arr) of the PAX records of a header; those of nil are empty"""
    m = eng.fget(hdr, 'PAXRecords')
    if m.root is None:
        return emptydom()
    c = eng.map_of(st, m)
    return c.dom, c.arr


def paxget(eng, st, hdr, key):
    d, a = pax(eng, st, hdr)
    return simp(d[z3.StringVal(key)]), simp(a[z3.StringVal(key)])


def err(c, tag=''):
    return c.eng.fresh_err(f'ret {short(c.name)}{tag}#{c.uid}')


def ident(eng, v):
    """What a value is, as a key: two values with the same key are the same."""
    if isinstance(v, IfaceV):
        if v.nil is True:
            return 'nil'
        return f'{v.dyn}:{ident(eng, v.val)}' if v.dyn is not None else str(v.label)
    if isinstance(v, PtrV):
        return f'{v.root}{list(v.path)}'
    if isinstance(v, FuncV):
        return f'func {v.name or v.label}'
    if scalar(v):
        return eng.key(v)
    if isinstance(v, StructV):
        return f'{v.label}{{{",".join(f"{k}={ident(eng, x)}" for k, x in sorted(v.over.items()))}}}'
    if isinstance(v, OpaqueV):
        return str(v.label)
    return repr(v)


# ---------------------------------------------------------------- drive
def h_getwriter(c):
    ck(c, 'C10', 'drive free at GetWriter', Eq(drive(c.st), 0))
    ck(c, 'C11', 'diskOperationLock held at GetWriter', held(c.eng, c.st, '.diskOperationLock'))
    r = list(c.fresh())
    c.st.ghost['drive'] = ite(Eq(r[-1].term, 0), 1, 0)
    c.st.ev('GetWriter', w=r[0], ok=Eq(r[-1].term, 0))
    c.st.ghost['regular'] = c.eng.fget(r[0], 'DriveIsRegular')
    # A drive which has been handed out can be written to
    d = c.eng.fget(r[0], 'Drive')
    if isz(d.nil):
        c.st.pc.append(z3.Implies(r[-1].term == 0, z3.Not(d.nil)))
    return tuple(r)


def h_closewriter(c):
    c.st.ghost['drive'] = 0
    c.st.ghost['trailed'] = False
    c.st.ev('CloseWriter')
    return err(c)


def h_getreader(c):
    ck(c, 'C10', 'drive not being written at GetReader', Not(Eq(drive(c.st), 1)))
    if c.eng.job.fn.startswith(OPS):
        ck(c, 'C11', 'diskOperationLock held at GetReader', held(c.eng, c.st, '.diskOperationLock'))
    else:
        ck(c, 'C11', 'ioLock held at GetReader', held(c.eng, c.st, 'ioLock'))
    r = list(c.fresh())
    c.st.ghost['drive'] = ite(Eq(r[-1].term, 0), 2, 0)
    c.st.ev('GetReader', r=r[0])
    d = c.eng.fget(r[0], 'Drive')
    if isz(d.nil):
        c.st.pc.append(z3.Implies(r[-1].term == 0, z3.Not(d.nil)))
    return tuple(r)


def h_closereader(c):
    c.st.ghost['drive'] = 0
    c.st.ev('CloseReader')
    return err(c)


BACKEND = {
    'pkg/config.BackendConfig.GetWriter': h_getwriter,
    'pkg/config.BackendConfig.CloseWriter': h_closewriter,
    'pkg/config.BackendConfig.GetReader': h_getreader,
    'pkg/config.BackendConfig.CloseReader': h_closereader,
}


# ---------------------------------------------------------------- index
def ro_locked(c):
    """Reading the index needs the lock under which it is changed."""
    fn = c.eng.job.fn
    if fn.startswith(OPS):
        ck(c, 'C11', f'diskOperationLock held at {short(c.name).split(".")[-1]}', held(c.eng, c.st, '.diskOperationLock'))
    elif fn.startswith(FS) or fn.startswith(FILE):
        ck(c, 'C11', f'ioLock held at {short(c.name).split(".")[-1]}', held(c.eng, c.st, 'ioLock'))


def h_lastindexed(c):
    ro_locked(c)
    e = err(c)
    ep = c.st.ghost.get('epoch', 0)
    r, b = uint('last record', ep), uint('last block', ep)
    rs = c.args[-1]
    c.st.pc.append(z3.Implies(e.term == 0, z3.And(r >= 0, b >= 0)))
    c.st.ev('GetLastIndexed', rs=rs, written=c.st.ghost.get('nwritten', 0), reg=c.st.ghost.get('nindexed', 0))
    return (z3.If(e.term == 0, r, 0), z3.If(e.term == 0, b, 0), e)


def cfgheader(eng, st, label):
    """A row of the index"""
    p = newptr(eng, st, 'pkg/config.Header', label)
    return p


def h_getheader(c):
    ro_locked(c)
    e = err(c)
    c.st.ev('GetHeader', name=c.args[-1], e=e, how=short(c.name).split('.')[-1])
    p = cfgheader(c.eng, c.st, 'row')
    root = p.root
    return (PtrV(z3.Not(e.term == 0), root), e)


def h_headers(c):
    ro_locked(c)
    r = list(c.fresh())
    c.st.ev(short(c.name).split('.')[-1], args=c.args[1:], r=r)
    return tuple(r)


def h_mutate(c):
    fn = c.eng.job.fn
    if fn.startswith(FS) or fn.startswith(FILE) or fn.startswith(OPS):
        ck(c, 'C15', 'the index is only changed by the indexer', False)
    r = list(c.fresh())
    c.st.ev(short(c.name).split('.')[-1], args=c.args[1:], r=r)
    c.st.ghost['epoch'] = Add(c.st.ghost.get('epoch', 0), 1)
    return tuple(r)


def h_getroot(c):
    ro_locked(c)
    e = err(c)
    s = z3.String(f'root#{c.uid}')
    c.st.ev('GetRootPath', e=e)
    return (s, e)


INDEX = {
    MP + 'GetLastIndexedRecordAndBlock': h_lastindexed,
    MP + 'GetHeader': h_getheader,
    MP + 'GetHeaderByLinkname': h_getheader,
    MP + 'GetHeaderChildren': h_headers,
    MP + 'GetHeaders': h_headers,
    MP + 'GetHeaderDirectChildren': h_headers,
    MP + 'GetRootPath': h_getroot,
    MP + 'UpsertHeader': h_mutate,
    MP + 'UpdateHeaderMetadata': h_mutate,
    MP + 'MoveHeader': h_mutate,
    MP + 'DeleteHeader': h_mutate,
    MP + 'PurgeAllHeaders': h_mutate,
}


# ---------------------------------------------------------------- JSON
def h_marshal(c):
    v = c.args[0]
    if isinstance(v, IfaceV) and v.dyn is not None:
        v = v.val
    e = ErrV(0)
    if isinstance(v, MapV):
        if v.root is None:
            return (c.eng.mkbytes(c.st, 'null'), e)
        m = c.eng.map_of(c.st, v)
        f = z3.Function('json of map', m.dom.sort(), m.arr.sort(), z3.StringSort())
        return (c.eng.mkbytes(c.st, f(m.dom, m.arr)), e)
    if isinstance(v, PtrV):
        s = c.eng.load1(c.st, v)
        t = z3.String(f'json#{c.uid}')
        d, a = pax(c.eng, c.st, s) if c.eng.p.tname(s.t) == 'archive/tar.Header' else (None, None)
        c.st.ghost[('tmp', 'json', f'json#{c.uid}')] = Box((s, d, a))
        e = err(c)
        return (c.eng.mkbytes(c.st, t), e)
    return c.fresh()


def h_unmarshal(c):
    eng, st = c.eng, c.st
    s = lit(eng.bytes_str(st, c.args[0]))
    p = c.args[1]
    if isinstance(p, IfaceV) and p.dyn is not None:
        p = p.val
    e = err(c)
    old = eng.load1(st, p)
    if isinstance(old, MapV):
        d0, a0 = emptydom()
        if z3.is_app(s) and s.decl().name() == 'json of map':
            d, a, e = s.arg(0), s.arg(1), ErrV(0)
            nil = False
        else:
            d = z3.Function('unjson dom', z3.StringSort(), d0.sort())(s)
            a = z3.Function('unjson arr', z3.StringSort(), a0.sort())(s)
            nil = ubool('unjson null', s)
        m = newmap(eng, st, eng.p.tname(old.t), d, a)
        eng.store(st, p, MapV(nil, m.root, old.t))
        return e
    if isinstance(old, StructV):
        b = st.ghost.get(('tmp', 'json', s.decl().name())) if z3.is_app(s) and s.num_args() == 0 else None
        if b is not None:
            h, d, a = b.v
            if d is not None:
                h = eng.setf(h, eng.p.fidx(h.t, 'PAXRecords'), newmap(eng, st, 'map[string]string', d, a))
            eng.store(st, p, h)
            return ErrV(0)
        h = StructV(old.t, f'unjson({eng.key(s)})')
        eng.store(st, p, h)
        return e
    return e


JSON = {'encoding/json.Marshal': h_marshal, 'encoding/json.Unmarshal': h_unmarshal}


# ---------------------------------------------------------------- archive
HDR = 'archive/tar.Header'


def h_fileinfoheader(c):
    """The standard library's header for a file: size only for regular files, PAX records nil."""
    fi, link = c.args
    e = err(c)
    lab = ident(c.eng, fi)
    size, mode = z3.Int(f'{lab}.Size()'), z3.Int(f'{lab}.Mode()')
    c.eng.axioms[f'{lab}.Size()'] = size >= 0
    c.eng.axioms[f'{lab}.Mode()'] = mode >= 0
    p = newptr(c.eng, c.st, HDR, 'hdr')
    s = c.eng.root(c.st, p.root)
    s = c.eng.setf(s, c.eng.p.fidx(s.t, 'Size'), z3.If(ubool('mode.IsRegular', mode), size, 0))
    s = c.eng.setf(s, c.eng.p.fidx(s.t, 'PAXRecords'), c.eng.zero(c.eng.p.fields(s.t)[c.eng.p.fidx(s.t, 'PAXRecords')]['t']))
    c.st.heap[p.root] = s
    c.st.ev('FileInfoHeader', fi=lab, link=link)
    return (PtrV(z3.Not(e.term == 0), p.root), e)


def h_newtapewriter(c):
    f, reg, rs = c.args
    e = err(c)
    p = newptr(c.eng, c.st, 'archive/tar.Writer', 'tw')
    ck(c, 'C05', 'the archive is written as the drive wants it', iff(reg, c.st.ghost.get('regular', reg)))
    c.st.ev('NewTapeWriter', reg=reg, rs=rs)
    c.st.ghost['tw'] = Box((p.root, reg, ident(c.eng, rs)))
    return (PtrV(z3.Not(e.term == 0), p.root), FuncV(z3.Not(e.term == 0), None, (), f'cleanup#{c.uid}', 'cleanup'), e)


def h_cleanup(c):
    d = c.args[0]
    dirty = c.eng.load1(c.st, d)
    st = c.st
    ck(c, 'C05', 'writing to the drive it has been given', Eq(drive(st), 1))
    # The trailer: exactly if something has been written
    ck(c, 'C05', 'one trailer exactly if something has been written', iff(dirty, st.ghost.get('wrote', False)))
    ck(c, 'C05', 'no content is missing at the trailer', Eq(st.ghost.get('owed', 0), 0))
    ck(c, 'C05', 'only one trailer', Not(st.ghost.get('trailed', False)))
    st.ev('cleanup', dirty=dirty)
    e = err(c)
    # A trailer which fails leaves the archive closed: nothing else can be written to it
    st.ghost['trailed'] = Or(st.ghost.get('trailed', False), And(dirty, e.term == 0))
    return e


def h_writeheader(c):
    tw, hp = c.args
    eng, st = c.eng, c.st
    h = eng.load1(st, hp)
    ck(c, 'C10', 'writing to the drive it has been given', Eq(drive(st), 1))
    ck(c, 'C11', 'diskOperationLock held at WriteHeader', held(eng, st, '.diskOperationLock'))
    ck(c, 'C05', 'the content before is complete', Eq(st.ghost.get('owed', 0), 0))
    ck(c, 'C05', 'no record behind the trailer', Not(st.ghost.get('trailed', False)))
    # C09: with encryption, nothing but the size is in clear
    enc = pipes(eng, st, 'Encryption')
    if enc is not None:
        clear = []
        for i, f in enumerate(eng.p.fields(h.t)):
            if f['n'] in ('Format', 'Size', 'PAXRecords'):
                continue
            v = eng.field(h, i)
            z = eng.zero(f['t'])
            clear.append(Or(Eq(v, z) if scalar(v) else Eq(v, z), False) if not isinstance(v, StructV) else eng.same(v, z) or v.label.startswith('0:'))
        d, a = pax(eng, st, h)
        k = z3.String('any key')
        only = z3.ForAll([k], z3.Implies(d[k], k == z3.StringVal('STFS.EmbeddedHeader')))
        emb = simp(a[z3.StringVal('STFS.EmbeddedHeader')])
        sealed = isz(emb) and z3.is_app(emb) and emb.decl().name() == 'cipher text'
        cl = And(*clear) if all(x is not None for x in clear) else None
        ck(c, 'C09', 'every field of the header is sealed', Or(Eq(enc, ''), cl) if cl is not None else False)
        ck(c, 'C09', 'only the sealed header is in the records', Or(Eq(enc, ''), simp(only)))
        ck(c, 'C09', 'the header is sealed for the recipient', Or(Eq(enc, ''), sealed))
    sig = pipes(eng, st, 'Signature')
    if sig is not None:
        b = st.ghost.get(('tmp', 'signed', hp.root))
        ck(c, 'C08', 'the header is signed', Or(Eq(sig, ''), bool(b)))
    ok = z3.Bool(f'written#{c.uid}')
    e = err(c)
    c.st.pc.append(ok == (e.term == 0))
    st.ghost['owed'] = z3.If(ok, lit(eng.fget(h, 'Size')), lit(st.ghost.get('owed', 0)))
    st.ghost['wrote'] = Or(st.ghost.get('wrote', False), ok)
    st.ghost['nwritten'] = lit(st.ghost.get('nwritten', 0)) + z3.If(ok, 1, 0)
    st.ev('WriteHeader', h=h, p=hp, ok=ok, presign=st.ghost.get(('tmp', 'presign', hp.root)), src=st.ghost.get(('tmp', 'source')))
    return e


def ops_root(eng):
    """The receiver of the method which is being verified"""
    return '*' + eng.ops if getattr(eng, 'ops', None) else None


def pipes(eng, st, field):
    """The configured format"""
    r = ops_root(eng)
    if r is None:
        return None
    o = eng.root(st, r)
    return eng.fget(eng.fget(o, 'pipes'), field)


def crypto(eng, st, field):
    o = eng.root(st, ops_root(eng))
    return eng.fget(eng.fget(o, 'crypto'), field)


def cfgargs(c, prop, fmt, key, fmtfield, keyfield):
    """The format and the key of a call are the configured ones."""
    eng, st = c.eng, c.st
    if ops_root(eng) is None:
        return
    ck(c, prop, f'{short(c.name).split(".")[-1]} with the configured format', Eq(fmt, pipes(eng, st, fmtfield)))
    ck(c, prop, f'{short(c.name).split(".")[-1]} with the configured key', ident(eng, key) == ident(eng, crypto(eng, st, keyfield)))


def h_signheader(c):
    hp, reg, fmt, ident_ = c.args
    eng, st = c.eng, c.st
    cfgargs(c, 'C08', fmt, ident_, 'Signature', 'Identity')
    h = eng.load1(st, hp)
    d, a = pax(eng, st, h)
    st.ghost[('tmp', 'presign', hp.root)] = Box((h, d, a))
    out = []
    none, some = eng.split(st, Eq(fmt, ''))
    if none is not None:
        out.append((none, [ErrV(0)]))
    if some is not None:
        st = some
        e = eng.fresh_err(f'ret SignHeader#{c.uid}')
        fail = st.fork()
        if eng.feasible(fail, e.term != 0):
            fail.pc.append(e.term != 0)
            out.append((fail, [e]))
        st.pc.append(e.term == 0)
        # What it is replaced by: only the embedded header and its signature
        z = eng.zero(h.t)
        for n, v in (('Format', 4), ('Size', eng.fget(h, 'Size'))):
            z = eng.setf(z, eng.p.fidx(h.t, n), v)
        d, a = emptydom()
        emb = z3.String(f'embedded#{c.uid}')
        for k, v in (('STFS.EmbeddedHeader', emb), ('STFS.Signature', z3.String(f'signature#{c.uid}'))):
            d, a = z3.Store(d, z3.StringVal(k), z3.BoolVal(True)), z3.Store(a, z3.StringVal(k), v)
        z = eng.setf(z, eng.p.fidx(h.t, 'PAXRecords'), newmap(eng, st, 'map[string]string', d, a))
        eng.store(st, hp, z)
        st.ghost[('tmp', 'signed', hp.root)] = True
        out.append((st, [ErrV(0)]))
    return out


def h_encryptheader(c):
    hp, fmt, rec = c.args
    eng, st = c.eng, c.st
    cfgargs(c, 'C09', fmt, rec, 'Encryption', 'Recipient')
    out = []
    none, some = eng.split(st, Eq(fmt, ''))
    if none is not None:
        out.append((none, [ErrV(0)]))
    if some is not None:
        st = some
        h = eng.load1(st, hp)
        e = eng.fresh_err(f'ret EncryptHeader#{c.uid}')
        fail = st.fork()
        fail.pc.append(e.term != 0)
        out.append((fail, [e]))
        st.pc.append(e.term == 0)
        z = eng.zero(h.t)
        for n, v in (('Format', 4), ('Size', eng.fget(h, 'Size'))):
            z = eng.setf(z, eng.p.fidx(h.t, n), v)
        d, a = emptydom()
        ct = ustr('cipher text', z3.IntVal(c.uid))
        d, a = z3.Store(d, z3.StringVal('STFS.EmbeddedHeader'), z3.BoolVal(True)), z3.Store(a, z3.StringVal('STFS.EmbeddedHeader'), ct)
        z = eng.setf(z, eng.p.fidx(h.t, 'PAXRecords'), newmap(eng, st, 'map[string]string', d, a))
        eng.store(st, hp, z)
        out.append((st, [ErrV(0)]))
    return out


# ---------------------------------------------------------------- pipelines
def src_of(eng, st, r):
    """(what is being read, where it starts)"""
    lab = ident(eng, r)
    s = st.ghost.get(('tmp', 'signer', lab))
    if s:
        lab = s
    return lab, st.ghost.get(('tmp', 'pos', lab), 'start')


def h_encrypt(c):
    dst, fmt, rec = c.args
    cfgargs(c, 'C09', fmt, rec, 'Encryption', 'Recipient')
    lab = f'encryptor#{c.uid}'
    e = err(c)
    c.st.ghost[('tmp', 'enc', lab)] = (dstkey(c.eng, dst), c.eng.key(fmt), ident(c.eng, rec))
    c.st.ghost[('tmp', 'dst', lab)] = Box(dst)
    return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'encryptor'), e)


def dstkey(eng, dst):
    d = dst.val if isinstance(dst, IfaceV) and dst.dyn is not None else dst
    return ident(eng, d)


def h_compress(c):
    dst, fmt, level, reg, rs = c.args
    if ops_root(c.eng):
        ck(c, 'C03', 'Compress with the configured format', Eq(fmt, pipes(c.eng, c.st, 'Compression')))
    lab = f'compressor#{c.uid}'
    e = err(c)
    c.st.ghost[('tmp', 'comp', lab)] = (dstkey(c.eng, dst), c.eng.key(fmt), c.eng.key(level), c.eng.key(reg), c.eng.key(rs))
    c.st.ghost[('tmp', 'pst', lab)] = 'open'
    return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'compressor'), e)


def h_sign(c):
    src, reg, fmt, idn = c.args
    cfgargs(c, 'C08', fmt, idn, 'Signature', 'Identity')
    e = err(c)
    lab = f'signer#{c.uid}'
    c.st.ghost[('tmp', 'signer', lab)] = ident(c.eng, src)
    return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'signer'), FuncV(z3.Not(e.term == 0), None, (), f'sign {lab}', 'sign'), e)


def h_signdone(c):
    lab = c.fv.label[5:]
    e = err(c)
    read = c.st.ghost.get(('tmp', 'signed content', lab))
    s = ustr('signature of', z3.StringVal(str(read)))
    c.st.ghost[('tmp', 'contentsig')] = Box((s, read))
    return (s, e)


def h_copycontent(c):
    dst, src, reg, rs = c.args
    eng, st = c.eng, c.st
    lab = ident(eng, dst)
    e = err(c)
    key, pos = src_of(eng, st, src)
    sl = ident(eng, src)
    st.ghost[('tmp', 'data', lab)] = (key, pos, eng.key(reg), eng.key(rs))
    st.ghost[('tmp', 'pos', key)] = 'end'
    if sl.startswith('signer#'):
        st.ghost[('tmp', 'signed content', sl)] = (key, pos)
    st.ev('copyContent', dst=lab, src=key, pos=pos)
    return e


def h_flush(c):
    k = ('tmp', 'pst', c.recv.label)
    if c.st.ghost.get(k) == 'open':
        c.st.ghost[k] = 'flushed'
    return err(c)


def h_compclose(c):
    k = ('tmp', 'pst', c.recv.label)
    ck(c, 'C03', 'the compressor is flushed before it is closed', c.st.ghost.get(k) == 'flushed')
    c.st.ghost[k] = 'closed'
    return err(c)


def pipe_desc(st, enc):
    """The pipeline which ends in this encryptor: its layers and what has been written through it."""
    d = st.ghost.get(('tmp', 'enc', enc))
    comps = [(k[2], v) for k, v in st.ghost.items() if isinstance(k, tuple) and k[:2] == ('tmp', 'comp') and v[0] == enc]
    if len(comps) != 1:
        return None
    lab, cd = comps[0]
    if st.ghost.get(('tmp', 'pst', lab)) != 'closed':
        return None
    data = st.ghost.get(('tmp', 'data', lab))
    if data is None:
        return None
    return ('|'.join(map(str, (d[1], d[2]) + cd[1:] + data[2:])), data[0], data[1])


def h_encclose(c):
    eng, st = c.eng, c.st
    lab = c.recv.label
    d = pipe_desc(st, lab)
    ck(c, 'C03', 'the pipeline is complete when the encryptor is closed', d is not None)
    dst = st.ghost[('tmp', 'dst', lab)].v
    dv = dst.val if isinstance(dst, IfaceV) and dst.dyn is not None else dst
    if isinstance(dv, PtrV):
        tn = eng.p.tname(eng.roottype[dv.root])
        if d is None:
            size = z3.Int(f'unknown size#{c.uid}')
        else:
            size = uint('pipeline size', z3.StringVal(d[0]), z3.StringVal(f'{d[1]}@{d[2]}'))
        st.pc.append(size >= 0)
        if tn == 'archive/tar.Writer':
            ck(c, 'C05', 'the content has the size which the header says', Eq(st.ghost.get('owed', 0), size))
            ck(c, 'C03', 'the content is written from its start', d is not None and d[2] == 'start')
            st.ghost['owed'] = 0
            st.ev('content', desc=d)
            sg = st.ghost.get(('tmp', 'contentsig'))
            if sg is not None and d is not None:
                ck(c, 'C08', 'the signature is of the content which is written', sg.v[1] == (d[1], d[2]))
        elif tn == 'internal/ioext.CounterWriter':
            s = eng.load1(st, dv)
            i = eng.p.fidx(s.t, 'BytesRead')
            st.ghost[('tmp', 'measured', dv.root)] = True
            eng.store(st, PtrV(False, dv.root, dv.path + (i,)), Add(eng.field(s, i), size))
    e = err(c)
    return e


def h_seek(c):
    off, wh = c.args
    e = err(c)
    lab = ident(c.eng, c.recv)
    n = z3.Int(f'seek#{c.uid}')
    c.st.pc.append(z3.Implies(e.term == 0, n >= 0))
    # A successful seek to the start or to an absolute position ends there
    if wh == 0:
        c.st.pc.append(z3.Implies(e.term == 0, n == lit(off)))
        c.st.ghost[('tmp', 'pos', lab)] = 'start' if off == 0 and not isz(off) else f'at {c.eng.key(off)}'
        c.st.ev('Seek', to=off, recv=lab, e=e, n=n)
    else:
        c.st.ev('Seek', to=None, wh=wh, off=off, recv=lab, e=e, n=n)
    return (n, e)


def h_getfile(c):
    e = err(c)
    lab = f'source#{c.uid}'
    c.st.ev('GetFile', lab=lab)
    return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'source'), e)


def h_getsrc(c):
    r = list(c.fresh())
    if r and isinstance(r[0], StructV):
        c.st.ev('getSrc', file=r[0], e=r[-1])
        c.st.ghost[('tmp', 'source')] = Box(r[0])
        eng = c.eng
        fi = eng.fget(r[0], 'Info')
        gf = eng.fget(r[0], 'GetFile')
        # A source has file info, and one for regular content can be opened
        if isz(fi.nil):
            c.st.pc.append(z3.Implies(r[-1].term == 0, z3.Not(fi.nil)))
    c.st.pc.append(r[-1].term >= 0)
    return tuple(r)


def h_addsuffix(c):
    name, comp, enc = c.args
    e = err(c)
    if ops_root(c.eng):
        ck(c, 'C03', 'AddSuffix with the configured formats', And(Eq(comp, pipes(c.eng, c.st, 'Compression')), Eq(enc, pipes(c.eng, c.st, 'Encryption'))))
    return (ustr('suffixed', name, comp, enc), e)


def h_zerofill(c):
    """io.Copy from zeros to the archive, which ends with an error when the member is complete."""
    c.st.ghost['owed'] = 0
    return (z3.Int(f'copied#{c.uid}'), err(c))


# ---------------------------------------------------------------- recovery
INDEX_ARGS = ('reader', 'mt', 'metadata', 'pipes', 'crypto', 'record', 'block', 'overwrite', 'initializing', 'offset', 'decryptHeader', 'verifyHeader', 'onHeader')
FETCH_ARGS = ('reader', 'mt', 'pipes', 'crypto', 'getDst', 'mkdirAll', 'record', 'block', 'to', 'preview', 'onHeader')


def h_index(c):
    eng, st = c.eng, c.st
    a = dict(zip(INDEX_ARGS, c.args))
    fn = c.eng.job.fn
    ck(c, 'C10', 'the drive is open for reading at Index', Eq(drive(st), 2))
    for k in ('decryptHeader', 'verifyHeader'):
        if eng.job.prop == 'C10':
            ck(c, 'C10', f'Index gets {k}', Not(nilof(a[k])))
    if fn.startswith(OPS):
        ck(c, 'C11', 'diskOperationLock held at Index', held(eng, st, '.diskOperationLock'))
        o = eng.root(st, ops_root(eng))
        pos_args(c, a, o)
        ck(c, 'C01', 'Index gets the configured index', struct_same(eng, a['metadata'], eng.fget(o, 'metadata')))
        ck(c, 'C01', 'Index gets the configured pipeline', struct_same(eng, a['pipes'], eng.fget(o, 'pipes')))
        replay_headers(c, a)
    else:
        ck(c, 'C11', 'ioLock held at Index', held(eng, st, 'ioLock'))
    h = eng.job.handlers.get('index!')
    if h:
        h(c, a)
    st.ev('Index', **a)
    st.ghost['epoch'] = Add(st.ghost.get('epoch', 0), 1)
    st.ghost['nindexed'] = Add(st.ghost.get('nindexed', 0), 1)
    return err(c)


def struct_same(eng, a, b):
    if eng.same(a, b):
        return True
    return struct_eq(eng, a, b) is True


def pos_args(c, a, o):
    """The indexer starts at the last member which had been indexed before, and skips it, or at the start of the tape."""
    eng, st = c.eng, c.st
    ow = a['overwrite']
    li = [d for d in st.events('GetLastIndexed')]
    ok = False
    for d in li:
        ok = Or(ok, And(Eq(d['written'], 0), Eq(d['rs'], eng.fget(eng.fget(o, 'pipes'), 'RecordSize')),
                        Eq(a['record'], uint('last record', st.ghost.get('epoch', 0))), Eq(a['block'], uint('last block', st.ghost.get('epoch', 0)))))
    j = eng.job.handlers.get('pos!')
    if j:
        ok = Or(ok, j(c, a))
    ck(c, 'C04', 'Index starts at the last indexed position', Or(ow, ok))
    ck(c, 'C04', 'Index of a new tape starts at its start', Or(Not(ow), And(Eq(a['record'], 0), Eq(a['block'], 0))))
    ck(c, 'C04', 'Index skips exactly what has been indexed', Eq(a['offset'], ite(ow, 0, 1)))


def hdrs_cell(eng, st, fv):
    """The captured slice of headers which the closure hands out"""
    for b in fv.binds:
        if isinstance(b, PtrV):
            v = eng.load1(st, b)
            if isinstance(v, SliceV):
                return v
        elif isinstance(b, SliceV):
            return b
    return None


def replay_headers(c, a):
    """decryptHeader hands out the i-th header which has been written."""
    eng, st = c.eng, c.st
    if eng.job.prop not in ('C01', 'C07', 'C02'):
        return
    fv = a['decryptHeader']
    if fv.name is None:
        return
    hs = hdrs_cell(eng, st, fv)
    prop = eng.job.prop
    if hs is None:
        ck(c, prop, 'Index gets the written headers', None)
        return
    ck(c, prop, 'Index gets a header for every record which has been written', Cmp('>=', hs.len, st.ghost.get('nwritten', 0)))
    i = z3.Int(f'i#{c.uid}')
    s2 = st.fork()
    s2.pc.append(i >= 0)
    dst = newptr(eng, s2, HDR, 'target')
    for s3, rs in eng.exec_fn(fv.name, [dst, i], fv.binds, s2, c.depth + 1):
        inside = Cmp('<', i, hs.len)
        eng.check(s3, f'{prop}:{where(c)}:the i-th member is indexed with the i-th written header', Or(And(inside, Eq(rs[0].term, 0)), And(Not(inside), Not(Eq(rs[0].term, 0)))), assume=False)
        if eng.feasible(s3, lit(inside)):
            s3 = s3.fork()
            eng.assume(s3, inside)
            arr = eng.arr_of(s3, hs)
            for s4, el in eng.arr_read(s3, arr, simp(Add(hs.off, i))):
                want = eng.load1(s4, el) if isinstance(el, PtrV) else el
                got = eng.load1(s4, dst)
                q = struct_eq(eng, got, want)
                eng.check(s4, f'{prop}:{where(c)}:the header of the i-th member is the written one', q, assume=False)


def h_fetch(c):
    a = dict(zip(FETCH_ARGS, c.args))
    ck(c, 'C10', 'the drive is open for reading at Fetch', Eq(drive(c.st), 2))
    h = c.eng.job.handlers.get('fetch!')
    if h:
        h(c, a)
    c.st.ev('Fetch', **a)
    return err(c)


def h_unit_event(name):
    def h(c):
        c.st.ev(name, args=c.args)
        return []if False else [(c.st, [])]
    return h


def h_onheader(c):
    c.st.ev('onHeader')
    return [(c.st, [])]


def h_closeerr(c):
    return err(c)


def h_atoi_user(c):
    return c.fresh()


PIPE = {
    'archive/tar.FileInfoHeader': h_fileinfoheader,
    'internal/tarext.NewTapeWriter': h_newtapewriter,
    'cleanup': h_cleanup,
    '(*archive/tar.Writer).WriteHeader': h_writeheader,
    'pkg/signature.SignHeader': h_signheader,
    'pkg/encryption.EncryptHeader': h_encryptheader,
    'pkg/encryption.Encrypt': h_encrypt,
    'pkg/compression.Compress': h_compress,
    'pkg/signature.Sign': h_sign,
    'sign': h_signdone,
    'pkg/operations.copyContent': h_copycontent,
    'compressor.Flush': h_flush,
    'compressor.Close': h_compclose,
    'encryptor.Close': h_encclose,
    'source.Seek': h_seek,
    'source.Close': h_closeerr,
    'pkg/config.FileConfig.GetFile': h_getfile,
    'internal/suffix.AddSuffix': h_addsuffix,
    'pkg/recovery.Index': h_index,
    'pkg/recovery.Fetch': h_fetch,
    'pkg/operations.Operations.onHeader': h_onheader,
}


def world(prop, **more):
    h = {}
    for d in (BACKEND, INDEX, JSON, PIPE):
        h.update(d)
    for p in ('archive', 'Archive', 'Update'):
        h[f'param {OPS}{p}.getSrc'] = h_getsrc
    h.update(more)
    return h
