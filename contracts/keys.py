"""Keys (pkg/utility, pkg/keys): what Keygen makes is what is parsed with the same password, and with no other one, and
what one half seals or signs the other one opens or accepts.

Keygen, the parsers and pkg/encryption, pkg/signature are run one after another on the terms which the one before has
made: `locked(key, password)` is what a private half is kept as, and only its password gets the key back. The
cryptography itself (age, OpenPGP, minisign) is assumed, and buffers in memory do not fail.
"""
from common import *
from rec import obl
from sec import *
import sec

PGP = 'github.com/ProtonMail/go-crypto/openpgp'
RING = PGP + '.EntityList'


def newkey(c, kind):
    k = z3.String(f'{kind} key#{c.uid}')
    for o in c.st.ghost.get('keys', Box(())).v:
        c.st.pc.append(o != k)
    c.st.ghost['keys'] = Box(c.st.ghost.get('keys', Box(())).v + (k,))
    return k


def fails(c):
    """An error of what is not reading or writing memory"""
    s2 = c.st.fork()
    e = err(c)
    s2.pc.append(e.term != 0)
    s2.ghost['failed'] = True
    return s2, e


def inject(eng, st, name, *xs):
    """A constructor of terms"""
    t = ustr(name, *[lit(x) for x in xs])
    for i, x in enumerate(xs):
        st.pc.append(ustr(f'part {i} of {name}', t) == lit(x))
    return t


def nil_of(c, i=0):
    r = c.fresh()
    v = r[i]
    return PtrV(True, v.root) if isinstance(v, PtrV) else v


# age
def a_generate(c):
    s2, e = fails(c)
    p = newptr(c.eng, c.st, 'filippo.io/age.X25519Identity', 'identity')
    c.st.ghost[('key', p.root)] = newkey(c, 'age')
    return [(c.st, [p, ErrV(0)]), (s2, [PtrV(True, p.root), e])]


def a_recipient(c):
    p = newptr(c.eng, c.st, 'filippo.io/age.X25519Recipient', 'recipient')
    c.st.ghost[('key', p.root)] = keyid(c.eng, c.st, c.args[0])
    return p


def a_string(kind):
    return lambda c: inject(c.eng, c.st, kind, keyid(c.eng, c.st, c.args[0]))


def a_scrypt(tname):
    def h(c):
        pw = c.args[0]
        s2 = c.st.fork()
        e = err(c)
        c.st.pc.append(lit(Not(Eq(pw, ''))))
        s2.pc += [lit(Eq(pw, '')), e.term != 0]
        p = newptr(c.eng, c.st, tname, 'scrypt')
        c.st.ghost[('key', p.root)] = inject(c.eng, c.st, 'scrypt', pw)
        return [(c.st, [p, ErrV(0)]), (s2, [PtrV(True, p.root), e])]
    return h


def a_parse(tname, kind):
    def h(c):
        s = simp(lit(c.args[0]))
        e = err(c)
        p = newptr(c.eng, c.st, tname, 'parsed')
        if z3.is_app(s) and s.decl().name() == kind:
            c.st.ghost[('key', p.root)] = s.arg(0)
            return [(c.st, [p, ErrV(0)])]
        c.st.ghost[('key', p.root)] = ustr('parsed', s)
        if z3.is_app(s) and s.num_args():
            # Something else
            c.st.pc.append(e.term != 0)
        return [(c.st, [PtrV(z3.Not(e.term == 0), p.root), e])]
    return h


def k_copy(c):
    dst, src = c.args
    x = content(c.eng, c.st, src)
    setbuf(c.eng, c.st, dst, x if x is not None else z3.String(f'read#{c.uid}'))
    return (z3.Int(f'copied#{c.uid}'), ErrV(0))


def k_writestring(c):
    setbuf(c.eng, c.st, c.args[0], c.args[1])
    return (z3.Int(f'wrote#{c.uid}'), ErrV(0))


def k_sealclose(c):
    b = c.st.ghost.get(('sealer', c.recv.label))
    if b is not None:
        dst, k, kind = b.v
        setbuf(c.eng, c.st, dst, inject(c.eng, c.st, kind + ' sealed', k, c.st.ghost.get(('into', c.recv.label), '')))
    return ErrV(0)


def k_sealer(kind):
    def h(c):
        eng, st = c.eng, c.st
        if kind == 'age':
            es = elems(c, c.args[1])
            k = keyid(eng, st, es[0]) if es and len(es) == 1 else K('several keys')
        else:
            k = keyid(eng, st, c.args[1])
        lab = f'{kind}w#{c.uid}'
        st.ghost[('sealer', lab)] = Box((c.args[0], k, kind))
        st.ev('sealer', lab=lab, dst=c.args[0], key=k, e=ErrV(0), kind=kind)
        return (IfaceV(False, None, None, lab, 'sealer'), ErrV(0))
    return h


# PGP
def p_generate(c):
    """An armored key, locked with the password, even if it is empty"""
    s2, e = fails(c)
    pw = c.eng.bytes_str(c.st, c.args[2])
    k = newkey(c, 'pgp')
    return [(c.st, [inject(c.eng, c.st, 'pgp armored', inject(c.eng, c.st, 'pgp locked', k, pw)), ErrV(0)]), (s2, ['', e])]


def p_unarmor(c):
    s = simp(lit(c.args[0]))
    if z3.is_app(s) and s.decl().name() == 'pgp armored':
        return (c.eng.mkbytes(c.st, s.arg(0)), ErrV(0))
    e = err(c)
    return (c.eng.mkbytes(c.st, ustr('unarmored', s)), e)


def p_newkey(c):
    s = simp(lit(c.eng.bytes_str(c.st, c.args[0])))
    p = newptr(c.eng, c.st, 'github.com/ProtonMail/gopenpgp/v2/crypto.Key', 'gokey')
    c.st.ghost[('pgpkey', p.root)] = s
    s2, e = fails(c)
    if z3.is_app(s) and s.decl().name() in ('pgp locked', 'pgp pub'):
        return [(c.st, [p, ErrV(0)])]
    return [(c.st, [p, ErrV(0)]), (s2, [PtrV(True, p.root), e])]


def p_public(c):
    s = c.st.ghost[('pgpkey', c.args[0].root)]
    x = s.arg(0) if z3.is_app(s) and s.num_args() else s
    s2, e = fails(c)
    return [(c.st, [c.eng.mkbytes(c.st, inject(c.eng, c.st, 'pgp pub', x)), ErrV(0)]), (s2, [nil_of(c), e])]


def p_serialize(c):
    s = c.st.ghost[('pgpkey', c.args[0].root)]
    s2, e = fails(c)
    return [(c.st, [c.eng.mkbytes(c.st, s), ErrV(0)]), (s2, [nil_of(c), e])]


def p_readring(c):
    eng, st = c.eng, c.st
    s = simp(lit(content(eng, st, c.args[0])))
    r = c.fresh()
    ring = r[0]
    st.ghost[('ring', ring.root)] = s
    # Every key ring which has been made for a key holds one at least, the one it has been made for first
    st.pc.append(lit(ring.len) >= 1)
    ring = SliceV(False, ring.root, ring.off, ring.len, ring.et, ring.path)
    if z3.is_app(s) and s.decl().name() in ('pgp locked', 'pgp pub'):
        st.ghost[('key', ring.root)] = s.arg(0)
        st.ev('ring', ring=ring, s=s)
        return (ring, ErrV(0))
    st.ghost[('key', ring.root)] = ustr('parsed', s)
    if z3.is_app(s) and s.num_args():
        st.pc.append(r[1].term != 0)
    st.ev('ring', ring=ring, s=s)
    return (ring, r[1])


def ringof(st, root):
    """The key ring which something belongs to"""
    best = None
    for k, v in st.ghost.items():
        if isinstance(k, tuple) and k[0] == 'ring' and str(k[1]) in str(root):
            if best is None or len(str(k[1])) > len(str(best)):
                best = k[1]
    return best


def p_unlock(c):
    """Only its password unlocks a private key"""
    eng, st = c.eng, c.st
    k = c.args[0]
    pw = eng.bytes_str(st, c.args[1])
    r = ringof(st, k.root)
    e = err(c)
    s = st.ghost.get(('ring', r)) if r is not None else None
    if s is not None and z3.is_app(s) and s.decl().name() == 'pgp locked':
        st.pc.append((e.term == 0) == (lit(pw) == s.arg(1)))
    sub = '.Subkeys' in str(k.root) or 'Subkeys' in str(k)
    n = 'nsub' if sub else 'nprim'
    # What has been unlocked is counted
    st.ghost[n] = Add(st.ghost.get(n, 0), ite(Eq(e.term, 0), 1, 0))
    if not sub:
        # How many of them there are, which have to be unlocked as well
        subs = subkeys(eng, st, k)
        if subs is None:
            st.ghost['lost'] = True
        else:
            st.ghost['subs'] = Add(st.ghost.get('subs', 0), ite(Eq(e.term, 0), subs, 0))
    st.ev('Unlock', key=k, e=e, sub=sub)
    return e


def subkeys(eng, st, k):
    r = str(k.root)
    if '.PrivateKey' not in r:
        return None
    ent = r[1:].rsplit('.PrivateKey', 1)[0]
    if ent not in eng.roottype:
        return None
    v = eng.root(st, ent)
    if not isinstance(v, StructV) or 'Subkeys' not in fields(eng, v):
        return None
    return eng.fget(v, 'Subkeys').len


def k_templates(eng, f, P, quant, errs):
    out = [('all subkeys', lambda Q: Eq(Q.st.ghost.get('nsub', 0), Q.st.ghost.get('subs', 0))),
           ('no more subkeys', lambda Q: Cmp('<=', Q.st.ghost.get('nsub', 0), Q.st.ghost.get('subs', 0))),
           ('no more keys', lambda Q: Cmp('<=', Q.st.ghost.get('nprim', 0), Q.st.events('ring')[-1]['ring'].len) if Q.st.events('ring') else None),
           ('the password is right', lambda Q: Or(Eq(Q.st.ghost.get('nprim', 0), 0), z3.String('password') == z3.String('another password')))]
    for nx, gx, x0 in quant:
        if nx.startswith('ghost'):
            continue
        for g in ('nprim', 'nsub'):
            out.append((f'{nx} = {g}', lambda Q, gx=gx, g=g: Eq(Sub(gx(Q), gx(P)), Sub(Q.st.ghost.get(g, 0), P.st.ghost.get(g, 0)))))
    return out


def ringkey(eng, st, v):
    b = base(eng, v)
    root = b.root if isinstance(b, (PtrV, SliceV)) else None
    r = ringof(st, root) if root is not None else None
    if r is not None:
        return st.ghost[('key', r)]
    return keyid(eng, st, v)


def p_detach(c):
    out, ent, msg, cfg = c.args
    setbuf(c.eng, c.st, out, inject(c.eng, c.st, 'pgp signature', ringkey(c.eng, c.st, ent), lit(content(c.eng, c.st, msg))))
    return ErrV(0)


def p_verifysig(c):
    eng, st = c.eng, c.st
    key, h, sig = c.args
    m = st.ghost.get(('into', base(eng, h).label), '?')
    src = sigsource(st, base(eng, sig))
    e = err(c)
    x = lit(src) if src is not None else None
    k = ringkey(eng, st, key)
    if x is not None and z3.is_app(x) and x.decl().name() == 'pgp signature':
        st.pc.append((e.term == 0) == z3.And(x.arg(0) == k, x.arg(1) == lit(m)))
    st.ev('verify', key=k, msg=m, sig=src, ok=Eq(e.term, 0), ptr=base(eng, key))
    return e


def p_pnext(c):
    lab = f'packet~{c.uid}'
    c.st.ghost[('packet', lab)] = c.st.ghost.get(('packets', c.args[0].root), '?')
    t = [i for k, i in c.eng.p.by_s.items() if short(k) == '*' + PGP + '/packet.Signature']
    if not t:
        raise Unsupported('no type of signatures')
    p = newptr(c.eng, c.st, PGP + '/packet.Signature', lab)
    return (IfaceV(False, t[0], p, lab, 'packet'), ErrV(0))


# minisign
def m_generate(c):
    s2, e = fails(c)
    k = newkey(c, 'minisign')
    r = c.fresh()
    pub = StructV(r[0].t, f'minisign pub~{c.uid}')
    priv = StructV(r[1].t, f'minisign priv~{c.uid}')
    c.st.ghost[('key', pub.label)] = k
    c.st.ghost[('key', priv.label)] = k
    return [(c.st, [pub, priv, ErrV(0)]), (s2, [r[0], r[1], e])]


def m_encryptkey(c):
    pw, k = c.args
    s2, e = fails(c)
    return [(c.st, [c.eng.mkbytes(c.st, inject(c.eng, c.st, 'minisign locked', keyid(c.eng, c.st, k), pw)), ErrV(0)]), (s2, [nil_of(c), e])]


def m_decryptkey(c):
    pw, b = c.args
    s = simp(lit(c.eng.bytes_str(c.st, b)))
    r = c.fresh()
    k = StructV(r[0].t, f'minisign priv~{c.uid}')
    if z3.is_app(s) and s.decl().name() == 'minisign locked':
        c.st.ghost[('key', k.label)] = s.arg(0)
        c.st.pc.append((r[1].term == 0) == (lit(pw) == s.arg(1)))
    elif z3.is_app(s) and s.num_args():
        c.st.pc.append(r[1].term != 0)
    return (k, r[1])


def m_pubstring(c):
    return inject(c.eng, c.st, 'minisign pub', keyid(c.eng, c.st, c.args[0]))


def m_marshal(c):
    return (c.eng.mkbytes(c.st, inject(c.eng, c.st, 'minisign pub', keyid(c.eng, c.st, c.args[0]))), ErrV(0))


def m_unmarshal(c):
    eng, st = c.eng, c.st
    p, b = c.args
    s = simp(lit(eng.bytes_str(st, b)))
    old = eng.load1(st, p)
    k = StructV(old.t, f'minisign pub~{c.uid}')
    if z3.is_app(s) and s.decl().name() == 'minisign pub':
        st.ghost[('key', k.label)] = s.arg(0)
        eng.store(st, p, k)
        return ErrV(0)
    e = err(c)
    if z3.is_app(s) and s.num_args():
        st.pc.append(e.term != 0)
    eng.store(st, p, k)
    return e


def k_world():
    A, M = 'filippo.io/age.', 'aead.dev/minisign.'
    G = 'github.com/ProtonMail/gopenpgp/v2/'
    h = sec_world()
    h.update({
        'io.WriteString': k_writestring, 'io.Copy': k_copy, 'sealer.Close': k_sealclose, A + 'Encrypt': k_sealer('age'), PGP + '.Encrypt': k_sealer('pgp'),
        A + 'GenerateX25519Identity': a_generate, f'(*{A}X25519Identity).Recipient': a_recipient, f'(*{A}X25519Identity).String': a_string('age priv'),
        f'(*{A}X25519Recipient).String': a_string('age pub'), A + 'NewScryptRecipient': a_scrypt(A + 'ScryptRecipient'), A + 'NewScryptIdentity': a_scrypt(A + 'ScryptIdentity'),
        A + 'ParseX25519Identity': a_parse(A + 'X25519Identity', 'age priv'), A + 'ParseX25519Recipient': a_parse(A + 'X25519Recipient', 'age pub'),
        G + 'helper.GenerateKey': p_generate, G + 'armor.Unarmor': p_unarmor, G + 'crypto.NewKey': p_newkey, f'(*{G}crypto.Key).GetPublicKey': p_public,
        f'(*{G}crypto.Key).Serialize': p_serialize, PGP + '.ReadKeyRing': p_readring, f'(*{PGP}/packet.PrivateKey).Decrypt': p_unlock,
        '(crypto.Hash).Available': lambda c: True,
        PGP + '.DetachSign': p_detach, f'(*{PGP}/packet.PublicKey).VerifySignature': p_verifysig, f'(*{PGP}/packet.Reader).Next': p_pnext,
        M + 'GenerateKey': m_generate, M + 'EncryptKey': m_encryptkey, M + 'DecryptKey': m_decryptkey, f'({M}PublicKey).String': m_pubstring,
        f'({M}PublicKey).MarshalText': m_marshal, f'(*{M}PublicKey).UnmarshalText': m_unmarshal,
    })
    return h


def run(eng, s, fn, *args):
    return eng.exec_fn(fn, list(args), [], s, 1)


def full(eng, fn):
    for n in eng.p.funcs:
        if short(n) == fn:
            return n
    raise Unsupported('no function ' + fn)


def chain(kind, fmt):
    enc = kind == 'encryption'
    P1, P2 = ('ParseIdentity', 'ParseRecipient') if enc else ('ParseSignerIdentity', 'ParseSignerRecipient')

    def pre(eng, st, A):
        pi = A['pipes']
        t = pi.t
        ov = eng.setf(pi, eng.p.fidx(t, 'Encryption'), fmt if enc else '')
        ov = eng.setf(ov, eng.p.fidx(t, 'Signature'), '' if enc else fmt)
        pw = z3.String('password')
        ps = eng.setf(A['password'], eng.p.fidx(A['password'].t, 'Password'), pw)
        st.ghost.update(nprim=0, nsub=0, subs=0)
        eng.kargs = (ov, ps)
        return {'pipes': ov, 'password': ps}

    def post(eng, st, A, rs):
        C = 'C18'
        pw, pw2 = z3.String('password'), z3.String('another password')
        priv, pub, e = rs
        if not eng.feasible(st, Eq(e.term, 0)):
            obl(eng, st, (C,), 'keys are made unless the cryptography fails', bool(st.ghost.get('failed')))
            return
        obl(eng, st, (C,), 'keys are made', Eq(e.term, 0))
        ps = eng.fget
        st = st.fork()
        st.trace = ()
        same = Eq(pw2, pw)
        gen = full(eng, UTIL + 'Keygen')
        other = [(s, r) for s, r in eng.exec_fn(gen, list(eng.kargs), [], st.fork(), 1) if not s.ghost.get('failed')]
        n = 0
        for s1, r1 in run(eng, st.fork(), full(eng, KEYS + P1), fmt, priv, pw2):
            ok = Eq(r1[1].term, 0)
            # A private half which the key ring lacks cannot be unlocked; Keygen makes none of those
            missing = Eq(r1[1].term, eng.err('github.com/pojntfx/stfs/pkg/config.ErrIdentityUnparsable').term) if fmt == 'pgp' else False
            obl(eng, s1, (C,), 'the private half is not parsed with another password', Imp(Not(same), Not(ok)))
            obl(eng, s1, (C,), 'the private half is parsed with its password', Imp(same, Or(ok, missing)))
            if not eng.feasible(s1, ok):
                continue
            eng.assume(s1, ok)
            if fmt == 'pgp':
                rg = s1.events('ring')[-1]['ring'] if s1.events('ring') else None
                obl(eng, s1, (C,), 'every key is unlocked', rg is not None and Eq(s1.ghost['nprim'], rg.len))
                if not s1.ghost.get('lost'):
                    obl(eng, s1, (C,), 'every subkey is unlocked', Eq(s1.ghost['nsub'], s1.ghost['subs']))
            for s2, r2 in run(eng, s1, full(eng, KEYS + P2), fmt, pub):
                ok2 = Eq(r2[1].term, 0)
                obl(eng, s2, (C,), 'the public half is parsed', ok2)
                eng.assume(s2, ok2)
                n += 1
                uses(eng, s2, r1[0], r2[0], True)
        for s, r in other:
            # The halves of two pairs
            for s2, r2 in run(eng, s.fork(), full(eng, KEYS + P2), fmt, pub):
                eng.assume(s2, Eq(r2[1].term, 0))
                for s1, r1 in run(eng, s2, full(eng, KEYS + P1), fmt, r[0], pw):
                    if not eng.feasible(s1, Eq(r1[1].term, 0)):
                        continue
                    eng.assume(s1, Eq(r1[1].term, 0))
                    uses(eng, s1, r1[0], r2[0], False)
        obl(eng, st, (C,), 'keys can be used', n > 0)

    def uses(eng, st, ident_, recip, mine):
        C = 'C18'
        text = z3.String('text')
        if enc:
            for s1, r1 in run(eng, st.fork(), full(eng, ENC + 'EncryptString'), text, fmt, recip):
                if mine:
                    obl(eng, s1, (C,), 'what is to be sealed is', Eq(r1[1].term, 0))
                eng.assume(s1, Eq(r1[1].term, 0))
                for s2, r2 in run(eng, s1, full(eng, ENC + 'DecryptString'), r1[0], fmt, ident_):
                    ok = Eq(r2[1].term, 0)
                    if mine:
                        obl(eng, s2, (C,), 'what one half has sealed is opened by the other', And(ok, Eq(r2[0], text)))
                    else:
                        obl(eng, s2, (C,), 'what has been sealed for another pair is not opened', Not(ok))
            return
        text2 = z3.String('another text')
        for s1, r1 in run(eng, st.fork(), full(eng, SIG + 'SignString'), text, True, fmt, ident_):
            if mine:
                obl(eng, s1, (C,), 'what is to be signed is', Eq(r1[1].term, 0))
            eng.assume(s1, Eq(r1[1].term, 0))
            for s2, r2 in run(eng, s1.fork(), full(eng, SIG + 'VerifyString'), text, True, fmt, recip, r1[0]):
                ok = Eq(r2[0].term, 0)
                if mine:
                    obl(eng, s2, (C,), 'what one half has signed is accepted by the other', ok)
                else:
                    obl(eng, s2, (C,), 'what another pair has signed is not accepted', Not(ok))
            if mine:
                for s2, r2 in run(eng, s1.fork(), full(eng, SIG + 'VerifyString'), text2, True, fmt, recip, r1[0]):
                    obl(eng, s2, (C,), 'another text than the signed one is not accepted', Imp(Not(Eq(text, text2)), Not(Eq(r2[0].term, 0))))

    j = Job(UTIL + 'Keygen', pre=pre, post=post, handlers=k_world(), prop='C18')
    j.templates = k_templates
    return j


def key_jobs(prop='C18'):
    return [chain('encryption', 'age'), chain('encryption', 'pgp'), chain('signature', 'minisign'), chain('signature', 'pgp')]
