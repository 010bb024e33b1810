"""Sealing and signing (pkg/encryption, pkg/signature, pkg/keys, pkg/utility): what is written for a recipient can only be
read by it, and what is accepted has been signed. The cryptography itself is assumed, as terms: `age sealed(key, content)`
is opened by that key only, a signature verifies for the key and the content which it has been made from only."""
from common import *
from rec import obl, hdr_pre, has, val, K

ENC, SIG, KEYS = 'pkg/encryption.', 'pkg/signature.', 'pkg/keys.'
UTIL = 'pkg/utility.'


def sterm(x):
    return lit(x) if isinstance(x, (str,)) or isz(x) else K(str(x))


def base(eng, v):
    if isinstance(v, IfaceV) and v.dyn is not None:
        return base(eng, v.val)
    return v


def keyid(eng, st, v):
    """What a key is, as a term"""
    v = base(eng, v)
    if isinstance(v, PtrV):
        g = st.ghost.get(('key', v.root)) if not v.path else None
        return g if g is not None else K('key ' + ident(eng, v))
    if isinstance(v, SliceV):
        g = st.ghost.get(('key', v.root))
        return g if g is not None else K(f'key {v.root}')
    if isinstance(v, StructV):
        g = st.ghost.get(('key', v.label))
        return g if g is not None else K('key ' + ident(eng, v))
    return K('key ' + ident(eng, v))


def content(eng, st, r):
    """What can be read from a reader, or None"""
    v = base(eng, r)
    if isinstance(v, PtrV):
        g = st.ghost.get(('buf', v.root))
        if g is None and eng.p.tname(eng.roottype.get(v.root, 0)) == 'bytes.Buffer':
            return ''
        return g
    if isinstance(v, IfaceV):
        return st.ghost.get(('opened', v.label), ustr('content of', K(str(v.label))))
    return None


def setbuf(eng, st, w, s):
    v = base(eng, w)
    if isinstance(v, PtrV):
        old = st.ghost.get(('buf', v.root), '')
        st.ghost[('buf', v.root)] = s if isinstance(old, str) and old == '' else z3.Concat(lit(old), lit(s))
    elif isinstance(v, IfaceV):
        k = ('into', v.label)
        old = st.ghost.get(k, '')
        st.ghost[k] = s if isinstance(old, str) and old == '' else z3.Concat(lit(old), lit(s))


def b_new(c):
    s = c.args[0]
    if isinstance(s, SliceV):
        s = c.eng.bytes_str(c.st, s)
    p = newptr(c.eng, c.st, 'bytes.Buffer', 'buffer')
    c.st.ghost[('buf', p.root)] = s
    return p


def b_bytes(c):
    return c.eng.mkbytes(c.st, c.st.ghost.get(('buf', c.args[0].root), ''))


def b_string(c):
    return c.st.ghost.get(('buf', c.args[0].root), '')


def s_writestring(c):
    e = err(c)
    n = z3.Int(f'wrote#{c.uid}')
    st2 = c.st.fork()
    st2.pc.append(e.term != 0)
    st = c.st
    st.pc.append(e.term == 0)
    setbuf(c.eng, st, c.args[0], c.args[1])
    return [(st, [n, e]), (st2, [n, e])]


def s_copy(c):
    eng = c.eng
    dst, src = c.args
    e = err(c)
    n = z3.Int(f'copied#{c.uid}')
    st2 = c.st.fork()
    st2.pc.append(e.term != 0)
    st = c.st
    st.pc.append(e.term == 0)
    x = content(eng, st, src)
    setbuf(eng, st, dst, x if x is not None else z3.String(f'read#{c.uid}'))
    return [(st, [n, e]), (st2, [n, e])]


def sealer(kind, arg):
    def h(c):
        eng, st = c.eng, c.st
        dst = c.args[0]
        if kind == 'age':
            es = elems(c, c.args[1])
            k = keyid(eng, st, es[0]) if es and len(es) == 1 else K('several keys')
        else:
            k = keyid(eng, st, c.args[1])
        e = err(c)
        lab = f'{kind}w#{c.uid}'
        st.ghost[('sealer', lab)] = Box((dst, k, kind))
        st.ev('sealer', lab=lab, dst=dst, key=k, e=e, kind=kind)
        return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'sealer'), e)
    return h


def sealed(kind, k, s):
    return ustr(kind + ' sealed', k, lit(s))


def h_sealclose(c):
    eng, st = c.eng, c.st
    e = err(c)
    b = st.ghost.get(('sealer', c.recv.label))
    if b is None:
        return e
    dst, k, kind = b.v
    st2 = st.fork()
    st2.pc.append(e.term != 0)
    st.pc.append(e.term == 0)
    setbuf(eng, st, dst, sealed(kind, k, st.ghost.get(('into', c.recv.label), '')))
    return [(st, [e]), (st2, [e])]


PLAIN = ('age priv', 'age pub', 'pgp raw', 'pgp pub')


def unseal(eng, st, kind, k, s, uid):
    """(error, content): sealed content is opened by its key only; what has not been sealed cannot be opened"""
    s = lit(s)
    e = eng.fresh_err(f'ret unseal#{uid}')
    if z3.is_app(s) and s.decl().name() == kind + ' sealed':
        st.pc.append((e.term == 0) == (s.arg(0) == k))
        return e, s.arg(1)
    if z3.is_app(s) and (s.decl().name() in PLAIN or s.decl().name().endswith(' sealed')):
        st.pc.append(e.term != 0)
    return e, ustr(kind + ' opened', k, s)


def h_agedecrypt(c):
    eng, st = c.eng, c.st
    es = elems(c, c.args[1])
    k = keyid(eng, st, es[0]) if es and len(es) == 1 else K('several keys')
    s = content(eng, st, c.args[0])
    e, x = unseal(eng, st, 'age', k, s, c.uid)
    lab = f'opened#{c.uid}'
    st.ghost[('opened', lab)] = x
    st.ev('open', key=k, src=c.args[0], e=e, kind='age', lab=lab)
    return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'opened'), e)


def h_pgpread(c):
    eng, st = c.eng, c.st
    k = keyid(eng, st, c.args[1])
    s = content(eng, st, c.args[0])
    e, x = unseal(eng, st, 'pgp', k, s, c.uid)
    lab = f'opened#{c.uid}'
    st.ghost[('opened', lab)] = x
    st.ev('open', key=k, src=c.args[0], e=e, kind='pgp', lab=lab)
    p = newptr(eng, st, 'github.com/ProtonMail/go-crypto/openpgp.MessageDetails', 'message', {'UnverifiedBody': IfaceV(False, None, None, lab, 'opened')})
    return (PtrV(z3.Not(e.term == 0), p.root), e)


# ---------------------------------------------------------------- signatures
def h_msign(c):
    k, m = c.args
    s = ustr('minisign signature', keyid(c.eng, c.st, k), lit(c.eng.bytes_str(c.st, m)))
    return c.eng.mkbytes(c.st, s)


def mverifies(eng, st, k, m, s):
    k, m, s = keyid(eng, st, k), lit(m), lit(s)
    return ubool('minisign verifies', k, m, s)


def h_mverify(c):
    eng, st = c.eng, c.st
    k, m, s = c.args
    ms, ss = eng.bytes_str(st, m), eng.bytes_str(st, s)
    r = mverifies(eng, st, k, ms, ss)
    x = lit(ss)
    if z3.is_app(x) and x.decl().name() == 'minisign signature':
        # It verifies for the content and the other half of the key which it has been made with only
        st.pc.append(r == z3.And(x.arg(0) == keyid(eng, st, k), x.arg(1) == lit(ms)))
    st.ev('verify', key=keyid(eng, st, k), msg=ms, sig=ss, ok=r)
    return r


def h_mreader(c):
    p = newptr(c.eng, c.st, 'aead.dev/minisign.Reader', 'mreader')
    c.st.ghost[('reads', p.root)] = Box(c.args[0])
    c.st.ghost[('buf', p.root)] = content(c.eng, c.st, c.args[0])
    return p


def h_mrsign(c):
    p, k = c.args
    s = ustr('minisign signature', keyid(c.eng, c.st, k), lit(c.st.ghost.get(('buf', p.root), '?')))
    return c.eng.mkbytes(c.st, s)


def h_mrverify(c):
    eng, st = c.eng, c.st
    p, k, s = c.args
    ss = eng.bytes_str(st, s)
    m = st.ghost.get(('buf', p.root), '?')
    r = mverifies(eng, st, k, m, ss)
    x = lit(ss)
    if z3.is_app(x) and x.decl().name() == 'minisign signature':
        st.pc.append(r == z3.And(x.arg(0) == keyid(eng, st, k), x.arg(1) == lit(m)))
    st.ev('verify', key=keyid(eng, st, k), msg=m, sig=ss, ok=r)
    return r


def h_detach(c):
    eng = c.eng
    out, ent, msg, cfg = c.args
    e = err(c)
    st2 = c.st.fork()
    st2.pc.append(e.term != 0)
    st = c.st
    st.pc.append(e.term == 0)
    setbuf(eng, st, out, ustr('pgp signature', keyid(eng, st, ent), lit(content(eng, st, msg))))
    return [(st, [e]), (st2, [e])]


def h_preader(c):
    p = newptr(c.eng, c.st, 'github.com/ProtonMail/go-crypto/openpgp/packet.Reader', 'packets')
    c.st.ghost[('packets', p.root)] = content(c.eng, c.st, c.args[0])
    return p


def h_pnext(c):
    e = err(c)
    lab = f'packet~{c.uid}'
    c.st.ghost[('packet', lab)] = c.st.ghost.get(('packets', c.args[0].root), '?')
    return (IfaceV(z3.Not(e.term == 0), None, None, lab, 'packet'), e)


def sigsource(st, p):
    """The bytes which a signature packet has been read from"""
    for k, v in st.ghost.items():
        if isinstance(k, tuple) and k[0] == 'packet' and k[1] in str(p.root):
            return v
    return None


def h_available(c):
    c.st.ev('available', h=c.eng.key(c.args[0]))
    r = ubool('hash available', c.args[0])
    return r


def h_hashnew(c):
    h = c.args[0]
    if c.eng.job.fn.startswith(SIG + 'Verify'):
        ck(c, 'C08', 'a hash which might not be there is not used', ubool('hash available', h))
        ck(c, 'C10', 'a hash which might not be there is not used', ubool('hash available', h))
    lab = f'hash~{c.uid}'
    c.st.ghost[('into', lab)] = ''
    return IfaceV(False, None, None, lab, 'hash')


def h_tee(c):
    src, w = c.args
    lab = f'tee~{c.uid}'
    c.st.ghost[('reads', lab)] = Box(src)
    wl = base(c.eng, w)
    if isinstance(wl, IfaceV):
        # Whoever reads all of it has hashed all of it
        c.st.ghost[('into', wl.label)] = content(c.eng, c.st, src)
    return IfaceV(False, None, None, lab, 'tee')


def h_verifysig(c):
    eng, st = c.eng, c.st
    key, h, sig = c.args
    hl = base(eng, h)
    m = st.ghost.get(('into', hl.label), '?')
    src = sigsource(st, base(eng, sig))
    e = err(c)
    k = keyid(eng, st, key)
    x = lit(src) if src is not None else None
    if x is not None and z3.is_app(x) and x.decl().name() == 'pgp signature':
        st.pc.append((e.term == 0) == z3.And(x.arg(0) == owner(eng, st, key), x.arg(1) == lit(m)))
    st.ev('verify', key=k, msg=m, sig=src, ok=Eq(e.term, 0), ptr=base(eng, key))
    return e


def owner(eng, st, key):
    g = st.ghost.get(('owner', base(eng, key).root))
    return g if g is not None else keyid(eng, st, key)


def nopcloser(c):
    r = c.args[0]
    lab = f'nop~{c.uid}'
    c.st.ghost[('reads', lab)] = Box(r)
    x = content(c.eng, c.st, r)
    if x is not None:
        c.st.ghost[('opened', lab)] = x
    return IfaceV(False, None, None, lab, 'io.NopCloser')


def sec_world():
    A = 'filippo.io/age.'
    O = 'github.com/ProtonMail/go-crypto/openpgp'
    M = 'aead.dev/minisign.'
    h = dict(JSON)
    h.update({
        'bytes.NewBuffer': b_new, 'bytes.NewBufferString': b_new, '(*bytes.Buffer).Bytes': b_bytes, '(*bytes.Buffer).String': b_string,
        'io.WriteString': s_writestring, 'io.Copy': s_copy, 'io.NopCloser': nopcloser, 'io.TeeReader': h_tee,
        A + 'Encrypt': sealer('age', 1), A + 'Decrypt': h_agedecrypt, O + '.Encrypt': sealer('pgp', 1), O + '.ReadMessage': h_pgpread,
        'sealer.Close': h_sealclose, O + '.DetachSign': h_detach,
        M + 'Sign': h_msign, M + 'Verify': h_mverify, M + 'NewReader': h_mreader, '(*aead.dev/minisign.Reader).Sign': h_mrsign,
        '(*aead.dev/minisign.Reader).Verify': h_mrverify,
        O + '/packet.NewReader': h_preader, f'(*{O}/packet.Reader).Next': h_pnext, f'(*{O}/packet.PublicKey).VerifySignature': h_verifysig,
        '(crypto.Hash).Available': h_available, '(crypto.Hash).New': h_hashnew,
    })
    return h


FMT = ('age', 'pgp', 'minisign')


def readsfrom(eng, st, r, src):
    """Does a reader read what `src` reads?"""
    v = base(eng, r)
    s = base(eng, src)
    for _ in range(5):
        if eng.same(v, s) or isinstance(v, IfaceV) and isinstance(s, IfaceV) and v.label == s.label:
            return True
        k = v.root if isinstance(v, PtrV) else v.label if isinstance(v, IfaceV) else None
        b = st.ghost.get(('reads', k))
        if b is None:
            return False
        v = base(eng, b.v)
    return False


# ---------------------------------------------------------------- the contracts
def asserted(eng, A, k, t):
    """The key of a parameter, as the type which the format wants"""
    return f'{A[k].label}.({t})'


RECIP = {'age': '*filippo.io/age.X25519Recipient', 'pgp': 'github.com/ProtonMail/go-crypto/openpgp.EntityList'}


def iskey(eng, A, k, term):
    """Is a key the given parameter, under one of its types?"""
    return A[k].label in str(term)


def p_encryptstring(eng, st, A, rs):
    r, e = rs
    fmt = A['encryptionFormat']
    ok = Eq(e.term, 0)
    none = Eq(fmt, '')
    P = ('C09', 'C18')
    obl(eng, st, ('C09', 'C18', 'C01'), 'without encryption nothing is changed', Imp(And(ok, none), Eq(r, A['src'])))
    known = Or(none, Eq(fmt, 'age'), Eq(fmt, 'pgp'))
    obl(eng, st, P, 'an unknown format is refused', Imp(ok, known))
    sl = st.events('sealer')
    good = False
    for x in sl:
        if iskey(eng, A, 'recipient', x['key']):
            good = Or(good, And(Eq(fmt, x['kind']), Eq(r, ustr('base64', sealed(x['kind'], x['key'], A['src'])))))
    obl(eng, st, P, 'with encryption everything is sealed for the recipient', Imp(And(ok, Not(none)), good))


def p_encrypt(eng, st, A, rs):
    w, e = rs
    fmt = A['encryptionFormat']
    ok = Eq(e.term, 0)
    none = Eq(fmt, '')
    P = ('C09', 'C18')
    sl = st.events('sealer')
    good = False
    for x in sl:
        if iskey(eng, A, 'recipient', x['key']) and isinstance(w, IfaceV) and w.label == x['lab'] and eng.same(base(eng, x['dst']), base(eng, A['dst'])):
            good = Or(good, Eq(fmt, x['kind']))
    obl(eng, st, P, 'with encryption everything is sealed for the recipient', Imp(And(ok, Not(none)), good))
    obl(eng, st, P, 'a writer comes with success', Imp(ok, Not(nilof(w))))


def p_decryptstring(eng, st, A, rs):
    r, e = rs
    fmt = A['encryptionFormat']
    ok = Eq(e.term, 0)
    none = Eq(fmt, '')
    P = ('C09', 'C18', 'C01')
    obl(eng, st, P, 'without encryption nothing is changed', Imp(And(ok, none), Eq(r, A['src'])))
    good = False
    src = lit(A['src'])
    for x in st.events('open'):
        if iskey(eng, A, 'identity', x['key']):
            good = Or(good, And(Eq(fmt, x['kind']), Eq(x['e'].term, 0), Eq(r, ustr(x['kind'] + ' opened', x['key'], ustr('unbase64', src)))))
    obl(eng, st, P, 'with encryption it is what the identity opens', Imp(And(ok, Not(none)), good))


def p_decrypt(eng, st, A, rs):
    r, e = rs
    fmt = A['encryptionFormat']
    ok = Eq(e.term, 0)
    none = Eq(fmt, '')
    P = ('C09', 'C18', 'C03')
    obl(eng, st, P, 'without encryption nothing is changed', Imp(And(ok, none), readsfrom(eng, st, r, A['src'])))
    good = False
    for x in st.events('open'):
        if iskey(eng, A, 'identity', x['key']) and eng.same(base(eng, x['src']), base(eng, A['src'])):
            good = Or(good, And(Eq(fmt, x['kind']), Eq(x['e'].term, 0), readsfrom(eng, st, r, IfaceV(False, None, None, x['lab']))))
    obl(eng, st, P, 'with encryption it is what the identity opens', Imp(And(ok, Not(none)), good))


# headers
def hpre(eng, st, A):
    h, d, a = hdr_pre(eng, st, A['hdr'])
    eng.h0 = (h, d, a)
    nilp = z3.Bool('no records')
    m = eng.fget(h, 'PAXRecords')
    # The records might be nil
    h2 = eng.setf(h, eng.p.fidx(h.t, 'PAXRecords'), MapV(nilp, m.root, m.t))
    k = z3.String('any record')
    st.pc.append(z3.Implies(nilp, d == z3.K(z3.StringSort(), z3.BoolVal(False))))
    st.heap[A['hdr'].root] = h2
    eng.h0 = (h2, d, a)
    return {'hdr': PtrV(False, A['hdr'].root)}


def wrapped(eng, st, A, keys):
    """The header is replaced by one which has only its size in clear, and these records"""
    h0, d0, a0 = eng.h0
    h = eng.load1(st, A['hdr'])
    cs = []
    for i, f in enumerate(eng.p.fields(h.t)):
        v = eng.field(h, i)
        if f['n'] == 'PAXRecords':
            continue
        if f['n'] == 'Size':
            cs.append(Eq(v, eng.fget(h0, 'Size')))
        elif f['n'] == 'Format':
            cs.append(Eq(v, 4))
        else:
            z = eng.zero(f['t'])
            q = val_eq(eng, v, z)
            cs.append(q if q is not None else eng.same(v, z))
    d, a = pax(eng, st, h)
    want = z3.K(z3.StringSort(), z3.BoolVal(False))
    for k in keys:
        want = z3.Store(want, K('STFS.' + k), z3.BoolVal(True))
    cs.append(d == want)
    return And(*cs), d, a


def hdr_same(eng, st, A):
    h0 = eng.h0[0]
    return eng.same(eng.load1(st, A['hdr']), h0) or (struct_eq(eng, eng.load1(st, A['hdr']), h0) or False)


def strcall(name, prop):
    def h(c):
        e = err(c)
        s = ustr(name, *[a for a in c.args if isz(a) or isinstance(a, (str, bool))])
        c.st.ev(name, args=c.args, e=e, r=s)
        if name == 'VerifyString':
            return e
        return (s, e)
    return h


def jsonof(st, s):
    """The header which a text is the JSON of"""
    b = st.ghost.get(('tmp', 'json', s.decl().name())) if isz(s) and z3.is_app(s) and s.num_args() == 0 else None
    return b.v if b else None


def isjson(eng, st, A, s):
    x = jsonof(st, lit(s))
    if x is None:
        return False
    h, d, a = x
    h0, d0, a0 = eng.h0
    return eng.same(h, h0) and (z3.eq(d, d0) or d is None)


def p_signheader(eng, st, A, rs):
    e = rs[0]
    ok = Eq(e.term, 0)
    none = Eq(A['signatureFormat'], '')
    P = ('C08', 'C01')
    obl(eng, st, P, 'without signatures nothing is changed', Imp(none, And(ok, hdr_same(eng, st, A))))
    w, d, a = wrapped(eng, st, A, ('EmbeddedHeader', 'Signature'))
    ev = st.events('SignString')
    good = False
    for x in ev:
        good = And(Eq(x['e'].term, 0), isjson(eng, st, A, x['args'][0]), Eq(val(a, 'EmbeddedHeader'), x['args'][0]), Eq(val(a, 'Signature'), x['r']),
                   Eq(x['args'][2], A['signatureFormat']), iff(x['args'][1], A['isRegular']), ident(eng, x['args'][3]) == ident(eng, A['identity']))
    obl(eng, st, P, 'the header is replaced by itself and its signature', Imp(And(ok, Not(none)), And(w, good)))


def p_encryptheader(eng, st, A, rs):
    e = rs[0]
    ok = Eq(e.term, 0)
    none = Eq(A['encryptionFormat'], '')
    obl(eng, st, ('C09', 'C01'), 'without encryption nothing is changed', Imp(none, And(ok, hdr_same(eng, st, A))))
    w, d, a = wrapped(eng, st, A, ('EmbeddedHeader',))
    good = False
    for x in st.events('EncryptString'):
        good = And(Eq(x['e'].term, 0), isjson(eng, st, A, x['args'][0]), Eq(val(a, 'EmbeddedHeader'), x['r']),
                   Eq(x['args'][1], A['encryptionFormat']), ident(eng, x['args'][2]) == ident(eng, A['recipient']))
    obl(eng, st, ('C09', 'C01'), 'the header is replaced by itself, sealed', Imp(And(ok, Not(none)), And(w, good)))


def unjson_is(eng, st, A, s):
    h = eng.load1(st, A['hdr'])
    return isinstance(h, StructV) and h.label == f'unjson({eng.key(lit(s))})' and not h.over


def p_decryptheader(eng, st, A, rs):
    e = rs[0]
    ok = Eq(e.term, 0)
    none = Eq(A['encryptionFormat'], '')
    h0, d0, a0 = eng.h0
    P = ('C09', 'C01')
    obl(eng, st, P, 'without encryption nothing is changed', Imp(none, And(ok, hdr_same(eng, st, A))))
    obl(eng, st, P, 'what has not been sealed is refused', Imp(And(Not(none), Not(has(d0, 'EmbeddedHeader'))), Not(ok)))
    good = False
    for x in st.events('DecryptString'):
        good = And(Eq(x['e'].term, 0), Eq(x['args'][0], val(a0, 'EmbeddedHeader')), unjson_is(eng, st, A, x['r']),
                   Eq(x['args'][1], A['encryptionFormat']), ident(eng, x['args'][2]) == ident(eng, A['identity']))
    obl(eng, st, P, 'the header is what had been sealed', Imp(And(ok, Not(none)), good))


def p_verifyheader(eng, st, A, rs):
    e = rs[0]
    ok = Eq(e.term, 0)
    none = Eq(A['signatureFormat'], '')
    h0, d0, a0 = eng.h0
    obl(eng, st, ('C08', 'C01'), 'without signatures nothing is changed', Imp(none, And(ok, hdr_same(eng, st, A))))
    obl(eng, st, ('C08',), 'a header without a signature is refused', Imp(And(Not(none), Or(Not(has(d0, 'EmbeddedHeader')), Not(has(d0, 'Signature')))), Not(ok)))
    good = False
    for x in st.events('VerifyString'):
        s, reg, fmt, key, sig = x['args']
        good = Or(good, And(Eq(x['e'].term, 0), Eq(s, val(a0, 'EmbeddedHeader')), Eq(sig, val(a0, 'Signature')), Eq(fmt, A['signatureFormat']),
                            iff(reg, A['isRegular']), ident(eng, key) == ident(eng, A['recipient']), unjson_is(eng, st, A, s)))
    obl(eng, st, ('C08', 'C01'), 'the header is what has been signed', Imp(And(ok, Not(none)), good))


# signatures
def primary(eng, st, A, x):
    """Is the key which has verified the first one of the given ones?"""
    p = x.get('ptr')
    return p is None or A['recipient'].label in str(p.root)


def verifies(eng, st, A, msg, sig):
    g = False
    for x in st.events('verify'):
        if x['sig'] is None:
            continue
        if iskey(eng, A, 'recipient', x['key']):
            g = Or(g, And(x['ok'], Eq(x['msg'], msg), Eq(x['sig'], ustr('unbase64', lit(sig)))))
    return g


def p_verifystring(eng, st, A, rs):
    ok = Eq(rs[0].term, 0)
    fmt = A['signatureFormat']
    none = Eq(fmt, '')
    obl(eng, st, ('C08', 'C18'), 'an unknown format is refused', Imp(ok, Or(none, Eq(fmt, 'minisign'), Eq(fmt, 'pgp'))))
    obl(eng, st, ('C08', 'C18'), 'what is accepted has been signed', Imp(And(ok, Not(none)), verifies(eng, st, A, A['src'], A['signature'])))
    # Nothing that has been signed is refused
    vs = [x for x in st.events('verify')]
    if vs:
        obl(eng, st, ('C08', 'C18'), 'what has been signed is accepted', Imp(vs[-1]['ok'], ok))


def p_verify(eng, st, A, rs):
    r, fn, e = rs
    ok = Eq(e.term, 0)
    fmt = A['signatureFormat']
    none = Eq(fmt, '')
    obl(eng, st, ('C08', 'C18'), 'an unknown format is refused', Imp(ok, Or(none, Eq(fmt, 'minisign'), Eq(fmt, 'pgp'))))
    obl(eng, st, ('C08', 'C03'), 'the content is what is read', Imp(ok, readsfrom(eng, st, r, A['src'])))
    if fn.name is None:
        obl(eng, st, ('C08',), 'success comes with a verifier', Not(ok))
        return
    s2 = st.fork()
    eng.assume(s2, ok)
    msg = content(eng, s2, A['src'])
    for s3, (e3,) in eng.exec_fn(fn.name, [], fn.binds, s2, 1):
        good = verifies(eng, s3, A, msg, A['signature'])
        obl(eng, s3, ('C08', 'C18'), 'content which is accepted has been signed', Imp(And(Eq(e3.term, 0), Not(none)), good))
        vs = s3.events('verify')
        if vs:
            obl(eng, s3, ('C08', 'C18', 'C03'), 'content which has been signed is accepted', Imp(vs[-1]['ok'], Eq(e3.term, 0)))


def p_signstring(eng, st, A, rs):
    r, e = rs
    ok = Eq(e.term, 0)
    fmt = A['signatureFormat']
    kid = [K('key ' + x) for x in ()]
    good = False
    x = lit(r)
    x = simp(x)
    if z3.is_app(x) and x.decl().name() == 'base64':
        y = x.arg(0)
        if z3.is_app(y) and y.decl().name() in ('minisign signature', 'pgp signature') and A['identity'].label in str(y.arg(0)):
            good = And(Eq(fmt, y.decl().name().split()[0]), Eq(y.arg(1), A['src']))
    obl(eng, st, ('C08', 'C18'), 'the signature is of the text', Imp(And(ok, Not(Eq(fmt, ''))), good))


def h_signingkey(c):
    """The key of an entity which signs for it"""
    r = c.fresh()
    k = StructV(r[0].t, f'signing key of {ident(c.eng, c.args[0])}~{c.uid}')
    return (k, r[1])


def h_pgpsign(c):
    eng, st = c.eng, c.st
    sig, h, key, cfg = c.args
    e = err(c)
    hl = base(eng, h)
    st.ghost[('signed', sig.root)] = Box((keyid(eng, st, key), st.ghost.get(('into', hl.label), '?')))
    st.ev('sign', key=keyid(eng, st, key), e=e)
    return e


def h_serialize(c):
    eng, st = c.eng, c.st
    e = err(c)
    b = st.ghost.get(('signed', c.args[0].root))
    x = ustr('pgp signature', b.v[0], lit(b.v[1])) if b is not None else K('not signed')
    st2 = st.fork()
    st2.pc.append(e.term != 0)
    st.pc.append(e.term == 0)
    setbuf(eng, st, c.args[1], x)
    st.ev('serialize', e=e)
    st2.ev('serialize', e=e)
    return [(st, [e]), (st2, [e])]


def p_sign(eng, st, A, rs):
    r, fn, e = rs
    ok = Eq(e.term, 0)
    fmt = A['signatureFormat']
    none = Eq(fmt, '')
    P = ('C08', 'C18')
    obl(eng, st, P, 'an unknown format is refused', Imp(ok, Or(none, Eq(fmt, 'minisign'), Eq(fmt, 'pgp'))))
    if fn.name is None:
        obl(eng, st, P, 'success comes with a signer', Not(ok))
        return
    obl(eng, st, ('C08', 'C03', 'C18'), 'the content is what is read', Imp(ok, readsfrom(eng, st, r, A['src'])))
    s2 = st.fork()
    eng.assume(s2, ok)
    msg = content(eng, s2, A['src'])
    for s3, (g, e3) in eng.exec_fn(fn.name, [], fn.binds, s2, 1):
        ok3 = Eq(e3.term, 0)
        x = simp(lit(g))
        good = False
        if z3.is_app(x) and x.decl().name() == 'base64':
            y = x.arg(0)
            if z3.is_app(y) and y.decl().name() in ('minisign signature', 'pgp signature') and iskey(eng, A, 'identity', y.arg(0)):
                good = And(Eq(fmt, y.decl().name().split()[0]), Eq(y.arg(1), msg))
        obl(eng, s3, P, 'the signature is of the content', Imp(And(ok3, Not(none)), good))
        fails = [Not(Eq(v['e'].term, 0)) for k, v in s3.trace if k in ('sign', 'serialize')]
        obl(eng, s3, P, 'a failure to sign is reported', iff(ok3, Not(Or(*fails)) if fails else True))


def job(fn, prop, post, pre=None, extra=None):
    h = sec_world()
    h.update(extra or {})
    return Job(fn, pre=pre, post=post, handlers=h, prop=prop, checks=({'nil', 'bounds', 'typeassert', 'panic', 'div'} if prop in ('C10', 'C08') else ()))


def enc_jobs(prop):
    return [job(ENC + 'EncryptString', prop, p_encryptstring), job(ENC + 'Encrypt', prop, p_encrypt),
            job(ENC + 'DecryptString', prop, p_decryptstring), job(ENC + 'Decrypt', prop, p_decrypt),
            job(ENC + 'EncryptHeader', prop, p_encryptheader, hpre, {ENC + 'EncryptString': strcall('EncryptString', prop)}),
            job(ENC + 'DecryptHeader', prop, p_decryptheader, hpre, {ENC + 'DecryptString': strcall('DecryptString', prop)})]


def sig_jobs(prop):
    O = 'github.com/ProtonMail/go-crypto/openpgp'
    return [job(SIG + 'Sign', prop, p_sign, None, {f'(*{O}.Entity).SigningKeyById': h_signingkey, f'(*{O}/packet.Signature).Sign': h_pgpsign, f'(*{O}/packet.Signature).Serialize': h_serialize}),
            job(SIG + 'SignHeader', prop, p_signheader, hpre, {SIG + 'SignString': strcall('SignString', prop)}),
            job(SIG + 'VerifyHeader', prop, p_verifyheader, hpre, {SIG + 'VerifyString': strcall('VerifyString', prop)}),
            job(SIG + 'VerifyString', prop, p_verifystring), job(SIG + 'Verify', prop, p_verify), job(SIG + 'SignString', prop, p_signstring)]
