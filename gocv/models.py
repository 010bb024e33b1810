"""Contracts which are assumed for what is not part of /repo."""
import z3
from fractions import Fraction
from values import *

MODELS = {}
KNOWN = set()
PURE = set()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ufun(name, *args):
    """An uninterpreted, deterministic function of scalars."""
    args = [lit(a) for a in args]
    return args


def ustr(name, *args):
    args = [lit(a) for a in args]
    return z3.Function(name, *[a.sort() for a in args], z3.StringSort())(*args)


def uint(name, *args):
    args = [lit(a) for a in args]
    return z3.Function(name, *[a.sort() for a in args], z3.IntSort())(*args)


def ubool(name, *args):
    args = [lit(a) for a in args]
    return z3.Function(name, *[a.sort() for a in args], z3.BoolSort())(*args)


# ---------------------------------------------------------------- sync
def lockname(eng, p):
    """The name of the mutex a pointer refers to: the path of fields to it, by type."""
    if p.path and isinstance(p.path[-1], int):
        t = eng.roottype.get(p.root)
        nm = eng.p.tname(t) if isinstance(t, int) else str(t)
        for i in p.path:
            fs = eng.p.fields(t)
            nm = f'{eng.p.tname(t)}.{fs[i]["n"]}'
            t = fs[i]['t']
        return nm.replace('pkg/', '')
    return p.root


@model('(*sync.Mutex).Lock', '(*sync.RWMutex).Lock')
def m_lock(c):
    p = c.args[0]
    k = ('lock', p.root, p.path)
    held = c.st.ghost.get(k, False)
    n = lockname(c.eng, p)
    if c.eng.on('lock'):
        if not c.eng.check(c.st, f'{c.eng.job.fn}:no-self-deadlock:{n}', Not(held)):
            return []
    else:
        if held is True:
            return []
        c.eng.assume(c.st, Not(held))
    if c.eng.job and 'lock!' in c.eng.job.handlers:
        c.eng.job.handlers['lock!'](c, n)
    c.st.ghost[k] = True
    c.st.ev('lock', n=n)
    return [(c.st, [])]


@model('(*sync.Mutex).Unlock', '(*sync.RWMutex).Unlock')
def m_unlock(c):
    p = c.args[0]
    k = ('lock', p.root, p.path)
    held = c.st.ghost.get(k, False)
    n = lockname(c.eng, p)
    if c.eng.on('lock'):
        if not c.eng.check(c.st, f'{c.eng.job.fn}:unlock-of-locked:{n}', held):
            return []
    c.st.ghost[k] = False
    c.st.ev('unlock', n=n)
    return [(c.st, [])]


def locks_free(eng, st, name):
    for k, v in st.ghost.items():
        if k[0] == 'lock':
            n = lockname(eng, PtrV(False, k[1], k[2]))
            eng.check(st, f'{name}:released:{n}', Not(v), assume=False)


# ---------------------------------------------------------------- errors
@model('errors.New')
def m_errnew(c):
    return c.eng.fresh_err(f'errors.New#{c.uid}', True)


@model('errors.Is')
def m_errors_is(c):
    a, b = c.args
    e = Eq(a.term, b.term)
    if e is True:
        return True
    if not isz(a.term) and not isz(b.term):
        return e
    return Or(e, And(Not(Eq(a.term, 0)), ubool('wraps', a.term, b.term)))


@model('os.IsNotExist')
def m_notexist(c):
    a = c.args[0]
    ne = c.eng.err('os.ErrNotExist')
    return And(Not(Eq(a.term, 0)), Or(Eq(a.term, ne.term), ubool('wraps', a.term, ne.term)))


@model('(error).Error')
def m_errstr(c):
    return ustr('error text', c.recv.term)


@model('context.Background', 'context.TODO')
def m_ctx(c):
    return IfaceV(False, None, None, 'context.Background', 'context')


# ---------------------------------------------------------------- strings
@model('strings.HasPrefix')
def m_hasprefix(c):
    a, b = c.args
    if not isz(a) and not isz(b):
        return a.startswith(b)
    return z3.PrefixOf(lit(b), lit(a))


@model('strings.HasSuffix')
def m_hassuffix(c):
    a, b = c.args
    if not isz(a) and not isz(b):
        return a.endswith(b)
    return z3.SuffixOf(lit(b), lit(a))


@model('strings.Contains')
def m_contains(c):
    a, b = c.args
    if not isz(a) and not isz(b):
        return b in a
    return z3.Contains(lit(a), lit(b))


def suffixof(a, b):
    return z3.SuffixOf(lit(a), lit(b))


def trimprefix(a, b):
    if not isz(a) and not isz(b):
        return a[len(b):] if a.startswith(b) else a
    a, b = lit(a), lit(b)
    return z3.If(z3.PrefixOf(b, a), z3.SubString(a, z3.Length(b), z3.Length(a) - z3.Length(b)), a)


def trimsuffix(a, b):
    if not isz(a) and not isz(b):
        return a[:len(a) - len(b)] if b and a.endswith(b) else a
    a, b = lit(a), lit(b)
    return z3.If(z3.SuffixOf(b, a), z3.SubString(a, 0, z3.Length(a) - z3.Length(b)), a)


@model('strings.TrimPrefix')
def m_trimprefix(c):
    return trimprefix(*c.args)


@model('strings.TrimSuffix')
def m_trimsuffix(c):
    return trimsuffix(*c.args)


def pure_str(name, n):
    @model(name)
    def h(c):
        return ustr(name, *c.args[:n])
    PURE.add(name)


for nm in ('strings.TrimSpace', 'strings.ToLower', 'strings.ToUpper', 'path.Base', 'path.Dir', 'path.Clean', 'path.Ext'):
    pure_str(nm, 1)


@model('path/filepath.ToSlash', 'path/filepath.FromSlash')
def m_toslash(c):
    return c.args[0]


@model('path/filepath.Clean')
def m_fclean(c):
    return cleaned(c)


@model('path.Clean')
def m_pclean(c):
    return cleaned(c)


def cleaned(c):
    r = pclean(c.args[0])
    if isz(r):
        c.st.pc.append(r != z3.StringVal(''))
    return r


def pclean(a):
    import posixpath
    if not isz(a):
        return goclean(a)
    return ustr('path.Clean', a)


def goclean(p):
    import posixpath
    if p == '':
        return '.'
    r = posixpath.normpath(p)
    return r[1:] if r.startswith('//') else r


@model('path/filepath.Dir')
def m_fdir(c):
    return ustr('path.Dir', c.args[0])


@model('path/filepath.Base')
def m_fbase(c):
    return ustr('path.Base', c.args[0])


@model('path.IsAbs', 'path/filepath.IsAbs')
def m_isabs(c):
    a = c.args[0]
    return a.startswith('/') if not isz(a) else z3.PrefixOf(z3.StringVal('/'), a)


def elems(c, s):
    """The elements of a slice of known length."""
    if s.nil is True or s.root is None:
        return []
    if not isinstance(s.len, int):
        return None
    a = c.eng.arr_of(c.st, s)
    out = []
    for i in range(s.len):
        r = c.eng.arr_read(c.st, a, Add(s.off, i))
        if len(r) != 1:
            return None
        out.append(r[0][1])
    return out


def pjoin(parts):
    if all(not isz(p) for p in parts):
        ps = [p for p in parts if p != '']
        return goclean('/'.join(ps)) if ps else ''
    return ustr(f'path.Join{len(parts)}', *parts)


@model('path.Join', 'path/filepath.Join')
def m_join(c):
    es = elems(c, c.args[0])
    if es is None:
        return c.fresh()
    return pjoin(es)


# ---------------------------------------------------------------- numbers
ITOA = z3.Function('itoa', z3.IntSort(), z3.StringSort())
ATOI = z3.Function('atoi', z3.StringSort(), z3.IntSort())
ISNUM = z3.Function('isnum', z3.StringSort(), z3.BoolSort())


@model('strconv.Itoa')
def m_itoa(c):
    a = c.args[0]
    if not isz(a):
        return str(a)
    t = ITOA(a)
    c.st.pc.append(z3.And(ATOI(t) == a, ISNUM(t), z3.Length(t) > 0))
    return t


@model('strconv.Atoi')
def m_atoi(c):
    s = c.args[0]
    e = c.eng.fresh_err(f'ret Atoi#{c.uid}')
    if not isz(s):
        try:
            return (int(s), ErrV(0))
        except ValueError:
            return (0, c.eng.fresh_err(f'ret Atoi#{c.uid}', True))
    c.st.pc.append((e.term == 0) == ISNUM(s))
    return (z3.If(ISNUM(s), ATOI(s), z3.IntVal(0)), e)


@model('math.Ceil')
def m_ceil(c):
    x = c.args[0]
    if not isz(x):
        return Fraction(-((-x.numerator) // x.denominator)) if isinstance(x, Fraction) else x
    k = z3.Int(f'ceil {c.eng.key(x)}')
    c.st.pc.append(z3.And(z3.ToReal(k) >= x, z3.ToReal(k) < x + 1))
    return z3.ToReal(k)


@model('math.Floor')
def m_floor(c):
    x = c.args[0]
    if not isz(x):
        return Fraction(x.numerator // x.denominator) if isinstance(x, Fraction) else x
    k = z3.Int(f'floor {c.eng.key(x)}')
    c.st.pc.append(z3.And(z3.ToReal(k) <= x, z3.ToReal(k) > x - 1))
    return z3.ToReal(k)


def formatted(fmt, vals):
    """Strings put into a text as they are"""
    import re
    out, k = [], 0
    for part in re.findall(r'%.|[^%]+', fmt, re.S):
        if part == '%%':
            out.append('%')
        elif part[0] == '%':
            if part not in ('%v', '%s') or k >= len(vals):
                return None
            v = vals[k]
            k += 1
            if isz(v):
                if v.sort() != z3.StringSort():
                    return None
            elif isinstance(v, int) and not isinstance(v, bool):
                v = str(v)
            elif not isinstance(v, str):
                return None
            out.append(v)
        else:
            out.append(part)
    if k != len(vals):
        return None
    r = []
    for o in out:
        if r and isinstance(o, str) and isinstance(r[-1], str):
            r[-1] += o
        else:
            r.append(o)
    if not r:
        return ''
    return r[0] if len(r) == 1 else z3.Concat(*[lit(o) for o in r])


@model('fmt.Sprintf')
def m_sprintf(c):
    fmt = c.args[0]
    es = elems(c, c.args[1])
    if isinstance(fmt, str) and es is not None:
        vals = [e.val if isinstance(e, IfaceV) and e.dyn is not None else e for e in es]
        if all(scalar(v) for v in vals):
            r = formatted(fmt, vals)
            if r is not None:
                return r
            return ustr('sprintf ' + fmt, *vals)
    return c.fresh()


@model('fmt.Errorf')
def m_errorf(c):
    e = c.eng.fresh_err(f'fmt.Errorf#{c.uid}', True)
    es = elems(c, c.args[1])
    if isinstance(c.args[0], str) and '%w' in c.args[0] and es:
        for x in es:
            if isinstance(x, ErrV):
                c.st.pc.append(ubool('wraps', e.term, x.term))
    return e


# ---------------------------------------------------------------- bytes
@model('(*encoding/base64.Encoding).EncodeToString')
def m_b64enc(c):
    return ustr('base64', c.eng.bytes_str(c.st, c.args[1]))


@model('(*encoding/base64.Encoding).DecodeString')
def m_b64dec(c):
    s = lit(c.args[1])
    e = c.eng.fresh_err(f'ret DecodeString#{c.uid}')
    if z3.is_app(s) and s.decl().name() == 'base64':
        return (c.eng.mkbytes(c.st, s.arg(0)), ErrV(0))
    return (c.eng.mkbytes(c.st, ustr('unbase64', s)), e)


@model('io.NopCloser')
def m_nopcloser(c):
    r = c.args[0]
    return IfaceV(False, None, None, f'nopcloser({r.label or r.val})', 'io.NopCloser')


@model('(io.NopCloser).Close', 'io.NopCloser.Close')
def m_nopclose(c):
    return ErrV(0)


# (*archive/tar.Header).FileInfo().Mode() etc. are functions of the header
@model('(io/fs.FileMode).IsRegular')
def m_isregular(c):
    return ubool('mode.IsRegular', c.args[0])


@model('(io/fs.FileMode).IsDir')
def m_isdir(c):
    return ubool('mode.IsDir', c.args[0])


@model('(io/fs.FileMode).Perm')
def m_perm(c):
    return c.eng.bitand(c.st, c.args[0], 0o777)


def recvmeth(name, mk):
    @model(name)
    def h(c):
        return mk(c, c.recv)


def label_int(c, what):
    v = z3.Int(f'{c.recv.label}.{what}')
    return v


@model('(io/fs.FileInfo).Mode')
def m_fimode(c):
    v = z3.Int(f'{c.recv.label}.Mode()')
    c.eng.axioms[f'{c.recv.label}.Mode()'] = v >= 0
    return v


@model('(io/fs.FileInfo).Size')
def m_fisize(c):
    v = z3.Int(f'{c.recv.label}.Size()')
    c.eng.axioms[f'{c.recv.label}.Size()'] = v >= 0
    return v


@model('(io/fs.FileInfo).Name')
def m_finame(c):
    return z3.String(f'{c.recv.label}.Name()')


@model('(io/fs.FileInfo).ModTime')
def m_fimodtime(c):
    h = c.st.ghost.get(('fileinfo', c.recv.label))
    if h is None:
        return list(c.fresh())[0]
    return c.eng.fget(h.v, 'ModTime')


@model('(io/fs.FileInfo).IsDir')
def m_fiisdir(c):
    return ubool('mode.IsDir', m_fimode(c))


def hdrinfo(eng, st, hdr):
    """The label of the FileInfo of a header: by mode and type."""
    t = eng.fget(hdr, 'Typeflag')
    m = eng.fget(hdr, 'Mode')
    return uint('header mode', t, m)


@model('(*archive/tar.Header).FileInfo')
def m_hdrfi(c):
    c.eng.uid += 1
    lab = f'fileinfo#{c.uid}'
    h = c.eng.load1(c.st, c.args[0])
    c.st.pc.append(z3.Int(lab + '.Mode()') == hdrinfo(c.eng, c.st, h))
    c.st.pc.append(z3.Int(lab + '.Size()') == lit(c.eng.fget(h, 'Size')))
    c.st.pc.append(z3.String(lab + '.Name()') == ustr('header base name', c.eng.fget(h, 'Name'), c.eng.fget(h, "Typeflag"), c.eng.fget(h, "Mode")))
    c.st.ghost[('fileinfo', lab)] = Box(h)
    return IfaceV(False, None, None, lab, 'fileinfo')


KNOWN |= {
    'time.Now', '(time.Time).Unix', '(time.Time).UnixNano', '(time.Time).Format', 'os.Stat', 'os.Open', 'os.OpenFile', 'io.Copy', 'io.CopyN',
    'io.ReadFull', '(io.Closer).Close', '(io.Reader).Read', '(io.Writer).Write', '(io.Seeker).Seek', '(*os.File).Close', '(*os.File).Seek',
    '(*os.File).Write', '(*os.File).ReadAt', '(*os.File).Stat', '(*os.File).Truncate', '(*os.File).Name', '(*os.File).Fd',
}
