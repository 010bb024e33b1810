"""The tree: what removing, moving and creating does to which entries (C02, C12, C13)."""
from common import *
from rec import obl
from ops import ops_jobs
from fsw import fs_jobs, ep, tarmode, HEADERMODE
from meta import looprows
import models

NOROWS = 'database/sql.ErrNoRows'
DIR = ord('5')
SL = z3.StringVal('/')


# ---------------------------------------------------------------- pkg/operations: Delete and Move
def g_get(c):
    """A row which the index finds for a name"""
    e = err(c)
    p = newptr(c.eng, c.st, 'pkg/config.Header', 'row')
    c.st.ev('GetHeader', name=c.args[-1], e=e, p=p.root, how=short(c.name).split('.')[-1])
    return (PtrV(z3.Not(e.term == 0), p.root), e)


def g_children(c):
    r = list(c.fresh())
    c.st.ev('GetHeaderChildren', name=c.args[-1], r=r[0], e=r[-1])
    # A row is found for every child
    return tuple(r)


def trim(s):
    return models.trimsuffix(lit(s), SL)


def cleanpath(x):
    """path.Clean(x) == x, and x is not a root: as far as the facts about path.Join below need it"""
    x = lit(x)
    return z3.And(x != '', x != '/', x != '.', z3.Not(z3.SuffixOf(SL, x)))


def h_join(c):
    """path.Join of a clean path and the (clean) rest of another one"""
    es = elems(c, c.args[0])
    if es is None:
        raise Unsupported('path.Join')
    r = models.pjoin(es)
    k = getattr(c.eng, 'joins', None)
    if isz(r) and k is not None and len(es) == 2:
        a, b = lit(es[0]), lit(es[1])
        rest = k
        fs = [z3.Implies(z3.And(cleanpath(a), z3.Or(b == '', b == '/')), r == a),
              z3.Implies(z3.And(cleanpath(a), rest != '', z3.Not(z3.PrefixOf(SL, rest)), z3.Or(b == rest, b == z3.Concat(SL, rest))), r == z3.Concat(a, SL, rest))]
        c.st.pc += fs
        c.st.ghost[('tmp', 'joinfacts')] = c.st.ghost.get(('tmp', 'joinfacts'), ()) + tuple(fs)
    return r


def h_clean(c):
    r = models.pclean(c.args[0])
    k = getattr(c.eng, 'joins', None)
    if isz(r) and k is not None:
        a = lit(c.args[0])
        c.st.pc.append(z3.Implies(cleanpath(a), r == a))
    return r


PROVED = {}


def proved(facts, goal, subs):
    """Is goal a consequence of the facts alone, with what is substituted? What is proved without the rest of a path is proved with it."""
    f = z3.simplify(z3.substitute(z3.And(*facts, z3.Not(goal)) if facts else z3.Not(goal), *subs))
    k = f.sexpr()
    if k not in PROVED:
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(f)
        PROVED[k] = s.check() == z3.unsat
    return PROVED[k]


def consts(e, acc=None):
    acc = set() if acc is None else acc
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            acc.add('?')
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        todo += x.children()
    return acc


def about(st, *terms):
    """What is known of some constants alone"""
    names = set().union(*[consts(lit(t)) for t in terms])
    return [lit(p) for p in st.pc if isz(p) and consts(p) <= names]


def opsextra(prop):
    P = ('C12', 'C02', 'C01')

    def extra(fn):
        if fn not in ('Delete', 'Move'):
            return {}

        def it(eng, name, start, B, ws):
            x = looprows(eng, name, start, B)
            if x is None:
                return
            st = B.st
            rows, i = x
            A = eng.treeA
            obl(eng, st, P, 'every entry which is meant gets one record', len(ws) == 1)
            gets = [d for d in start.st.events('GetHeader')]
            kids = start.st.events('GetHeaderChildren')
            src = eng.load1(start.st, PtrV(False, gets[-1]['p'])) if gets else None
            if src is None:
                obl(eng, st, P, 'the entry is looked up', False)
                return
            given = A.get('name', A.get('from'))
            for g in gets + kids:
                obl(eng, st, P, 'it is the named entry which is looked up', Eq(g['name'], given))
            # What is meant is the entry and what is beneath it
            isdir = And(Eq(eng.fget(src, 'Typeflag'), DIR), Eq(eng.fget(src, 'Linkname'), ''))
            obl(eng, st, P, 'a directory goes with what is in it', Imp(isdir, len(kids) == 1))
            obl(eng, st, P, 'an entry which is no directory goes alone', Imp(Not(Eq(eng.fget(src, 'Typeflag'), DIR)), Eq(rows.len, 1)))
            obl(eng, st, P, 'the entry and all of what is in it are meant', Eq(rows.len, Add(1, kids[-1]['r'].len if kids else 0)))
            for s2, el in eng.arr_read(start.st.fork(), eng.arr_of(start.st, rows), rows.off):
                obl(eng, s2, P, 'the entry itself is meant', isinstance(el, PtrV) and el.root == gets[-1]['p'])
            if not ws or ws[-1]['presign'] is None:
                return
            h, d, a = ws[-1]['presign'].v
            act = a[z3.StringVal('STFS.Action')]
            for s2, el in eng.arr_read(st.fork(), eng.arr_of(st, rows), Add(rows.off, i)):
                row = eng.load1(s2, el)
                n = eng.fget(row, 'Name')
                if fn == 'Delete':
                    obl(eng, s2, P, 'a record deletes exactly the entry it is about', And(Eq(eng.fget(h, 'Name'), n), Eq(act, 'DELETE'), d[z3.StringVal('STFS.Action')]))
                else:
                    obl(eng, s2, P, 'a record moves exactly the entry it is about', And(Eq(a[z3.StringVal('STFS.ReplacesName')], n), d[z3.StringVal('STFS.ReplacesName')], Eq(act, 'UPDATE'), d[z3.StringVal('STFS.Action')]))
                    to = lit(A['to'])
                    sn = lit(eng.fget(src, 'Name'))
                    to2 = z3.If(z3.And(z3.PrefixOf(SL, to), z3.Not(z3.PrefixOf(SL, sn))), models.trimprefix(to, SL), to)
                    rest = eng.joins
                    hyp = z3.And(cleanpath(to2), rest != '', z3.Not(z3.PrefixOf(SL, rest)))
                    new = eng.fget(h, 'Name')
                    facts = list(st.ghost.get(('tmp', 'joinfacts'), ())) + about(s2, to, sn)
                    base = z3.String('base')
                    hyp = z3.And(hyp, cleanpath(sn))
                    for what, nm, want in (('the entry gets the new name', sn, to2), ('what is in it moves along', z3.Concat(trim(sn), SL, rest), z3.Concat(to2, SL, rest))):
                        goal = z3.Implies(hyp, lit(new) == want)
                        if isz(n) and isz(sn) and z3.eq(n, sn) and what.startswith('what'):
                            continue
                        if isz(n) and isz(sn) and z3.is_const(sn):
                            ok = proved(facts, goal, [(lit(n), z3.substitute(nm, (trim(sn), sn))), (trim(sn), sn)])
                        else:
                            ok = False
                        obl(eng, s2, P, what, True if ok else Imp(lit(n) == nm, goal))
                obl(eng, s2, P, 'a record without content has none', Eq(eng.fget(h, 'Size'), 0))

        def opre(c):
            pass
        return {MP + 'GetHeader': g_get, MP + 'GetHeaderByLinkname': g_get, MP + 'GetHeaderChildren': g_children, 'iteration!': it, 'path.Join': h_join, 'path.Clean': h_clean,
                'path/filepath.Join': h_join}
    return extra


def opstree(prop, J=None):
    """Adds the contracts of Delete and Move to jobs for the operations"""
    J = J if J is not None else ops_jobs(prop, ('Delete', 'Move'), (), opsextra(prop))
    for j in J:
        if j.fn.split('.')[-1] not in ('Delete', 'Move'):
            continue
        p0 = j.pre

        def pre(eng, st, A, p0=p0):
            eng.treeA = A
            eng.joins = z3.String('rest')
            return p0(eng, st, A)
        j.pre = pre
    return J


# ---------------------------------------------------------------- pkg/fs: what is allowed, and what is then asked for
def S(e, n, sym):
    return uint('stat error', e, n, sym)


def T(e, n, sym):
    return uint('stat.Typeflag', e, n, sym)


def N(e, n, sym):
    return ustr('stat.Name', e, n, sym)


def L(e, n, sym):
    return ustr('stat.Linkname', e, n, sym)


def first(eng, e, n):
    """(found, not found, type, name, link) of what a name refers to: an entry, or else a link"""
    none = eng.err(NOROWS).term
    a, b = S(e, n, False) == 0, z3.And(S(e, n, False) == none, S(e, n, True) == 0)
    pick = lambda f: z3.If(a, f(e, n, False), f(e, n, True))
    return z3.Or(a, b), z3.And(S(e, n, False) == none, S(e, n, True) == none), pick(T), pick(N), pick(L)


def parent_dir(e, n):
    d = ustr('path.Dir', n)
    return z3.And(S(e, d, False) == 0, T(e, d, False) == DIR)


def source_of(c, fv):
    """What a source gives on its first call: list of (state, config)"""
    r = []
    for s2, rs in c.eng.exec_fn(fv.name, [], fv.binds, c.st.fork(), c.depth + 1):
        r.append((s2, rs[0], rs[-1]))
    return r


def fsextra(prop):
    P = ('C02', 'C12', 'C13')

    def extra(full):
        fn = full.split('.')[-1]
        if not full.startswith(FS):
            return {}
        none = lambda eng: eng.err(NOROWS).term

        def clean(eng, k):
            return ustr('path.Clean', eng.fsA[k])

        def mut(c, name):
            eng, st = c.eng, c.st
            e = st.events(name)[-1]['ep']
            if isz(e):
                return
            if name == 'Archive' and fn in ('Mkdir', 'OpenFile', 'Create', 'SymlinkIfPossible'):
                for s2, cfg, er in source_of(c, c.args[1]):
                    p, l = eng.fget(cfg, 'Path'), eng.fget(cfg, 'Link')
                    at = ite(Eq(l, ''), p, l)
                    obl(eng, s2, P, 'an entry is only created in a directory', parent_dir(e, at))
                    if fn != 'SymlinkIfPossible':
                        # (A link may have the name of the root, as an alias)
                        obl(eng, s2, P, 'what exists is not created again', Not(S(e, at, False) == 0))
                    if fn == 'Mkdir':
                        obl(eng, s2, P, 'what exists is not created again', Not(S(e, at, True) == 0))
                    if fn in ('Mkdir', 'OpenFile'):
                        obl(eng, s2, P, 'the entry which is created is the named one', And(Eq(p, clean(eng, 'name')), Eq(l, '')))
                    h = s2.ghost.get(('fileinfo', getattr(eng.fget(cfg, 'Info'), 'label', None)))
                    if h is not None and fn in ('Mkdir', 'OpenFile'):
                        obl(eng, s2, ('C02',), 'it is of the kind and has the permissions which have been asked for', And(Eq(eng.fget(h.v, 'Typeflag'), DIR if fn == 'Mkdir' else ord('0')), Eq(eng.fget(h.v, 'Mode'), tarmode(eng, s2, eng.fsA['perm'])), Eq(eng.fget(h.v, 'Size'), 0)))
                    if h is not None and fn == 'SymlinkIfPossible':
                        obl(eng, s2, ('C02',), 'it is a link', And(Eq(eng.fget(h.v, 'Typeflag'), ord('2')), Not(Eq(l, ''))))
                obl(eng, st, P, 'nothing else is overwritten', And(Not(c.args[3]), Not(c.args[4])))
            if name == 'Delete' and fn == 'Remove':
                n = clean(eng, 'name')
                there, nope, t, nm, l = first(eng, e, n)
                obl(eng, st, P, 'what is removed is the named entry', And(there, Eq(c.args[1], nm)))
                empty = z3.Or(*[z3.And(uint('list error', e, x) == 0, uint('list length', e, x, -1) == 0) for x in (n, nm)])
                obl(eng, st, P, 'a directory is only removed if it is empty', Imp(And(t == DIR, Eq(l, '')), empty))
            if name == 'Delete' and fn == 'RemoveAll':
                n = clean(eng, 'path')
                want = z3.If(S(e, n, False) == 0, N(e, n, False), n)
                obl(eng, st, P, 'what is removed is the named entry', Eq(c.args[1], want))
                obl(eng, st, P, 'the root itself is kept', Not(Eq(c.args[1], ustr('root', e))))
            if name == 'Move' and fn == 'Rename':
                # What is known of the target is what has been found before it has been made room for
                cleared = [x for x in st.events('Delete')]
                e = 0
                o, n = clean(eng, 'oldname'), clean(eng, 'newname')
                there, nope, t, nm, l = first(eng, e, o)
                obl(eng, st, P, 'what is moved is the named entry', And(there, Eq(c.args[1], nm)))
                obl(eng, st, P, 'the root is not moved', Not(Eq(ustr('root', e), o)))
                obl(eng, st, P, 'an entry is only moved to a directory', parent_dir(e, n))
                tgt = S(e, n, False) == 0
                obl(eng, st, P, 'what is replaced is of the same kind', Imp(tgt, T(e, n, False) == t))
                tn = N(e, n, False)
                empty = z3.Or(*[z3.And(uint('list error', e, x) == 0, uint('list length', e, x, -1) == 0) for x in (n, tn)])
                obl(eng, st, P, 'a directory which is replaced is empty', Imp(And(tgt, T(e, n, False) == DIR), empty))
                obl(eng, st, P, 'an entry is not replaced by itself', Imp(tgt, Not(Eq(tn, nm))))
                obl(eng, st, P, 'it is moved to the named place', Or(Eq(c.args[2], z3.If(tgt, tn, n)), And(bool(cleared), Eq(c.args[2], n))))
                for x in cleared:
                    obl(eng, st, P, 'only the target makes room', And(tgt, Eq(x['args'][0], tn)))
                obl(eng, st, P, 'whether there is a target is known', z3.Or(tgt, S(e, n, False) == none(eng)))
                j = lambda x: ustr('path.Join2', '/', x)
                inside = z3.And(z3.PrefixOf(z3.Concat(j(nm), SL), z3.Concat(j(n), SL)), j(nm) != j(n))
                obl(eng, st, ('C02', 'C12'), 'a directory is not moved into itself', Imp(t == DIR, Not(inside)))
            if name == 'Update' and fn in ('Chmod', 'Chown', 'Chtimes'):
                n = clean(eng, 'name')
                a = S(e, n, False) == 0
                tgt = L(e, n, True)
                for s2, cfg, er in source_of(c, c.args[1]):
                    nm = z3.If(a, N(e, n, False), N(e, tgt, False))
                    obl(eng, s2, ('C02',), 'it is the named entry which is changed', And(Eq(eng.fget(cfg, 'Path'), nm), z3.Or(a, z3.And(S(e, n, False) == none(eng), S(e, n, True) == 0, S(e, tgt, False) == 0))))
                    h = s2.ghost.get(('fileinfo', getattr(eng.fget(cfg, 'Info'), 'label', None)))
                    if h is None:
                        continue
                    h = h.v
                    w = lambda f: z3.If(a, uint('stat.' + f, e, n, False), uint('stat.' + f, e, tgt, False))
                    ch = {'Chmod': {'Mode': tarmode(eng, s2, eng.fsA.get('mode'))} if fn == 'Chmod' else {}, 'Chown': {'Uid': eng.fsA.get('uid'), 'Gid': eng.fsA.get('gid')}, 'Chtimes': {}}[fn]
                    for f in ('Mode', 'Uid', 'Gid', 'Typeflag'):
                        obl(eng, s2, ('C02',), 'the attributes which have been asked for are changed, and no others', Eq(eng.fget(h, f), ch[f] if f in ch else w(f)))
                    if fn == 'Chtimes':
                        obl(eng, s2, ('C02',), 'the times which have been asked for are set', And(val_eq(eng, eng.fget(h, 'AccessTime'), eng.fsA['atime']), val_eq(eng, eng.fget(h, 'ModTime'), eng.fsA['mtime'])))
                obl(eng, st, ('C02',), 'the content is kept', Not(c.args[3]))

        def post(eng, st, A, rs):
            ro = st.ghost.get('readonly', False)
            e = rs[-1].term
            A = eng.fsA
            done = [x for k in ('Archive', 'Update', 'Delete', 'Move') for x in st.events(k)]
            E = lambda n: eng.err(n).term
            CFG = 'github.com/pojntfx/stfs/pkg/config.'
            rw = Not(ro)
            if fn in ('Remove', 'RemoveAll', 'Rename', 'Mkdir', 'Chmod', 'Chown', 'Chtimes', 'SymlinkIfPossible') and not (fn in ('RemoveAll', 'Rename')):
                obl(eng, st, ('C02',), 'a success has changed something', Imp(Eq(e, 0), len(done) == 1))
            if fn in ('Remove', 'Chmod', 'Chown', 'Chtimes'):
                n = clean(eng, 'name')
                there, nope, t, nm, l = first(eng, 0, n)
                bad = Eq(A['name'], '') if fn != 'Remove' else False
                obl(eng, st, ('C02',), 'what does not exist is reported as such', Imp(And(rw, Not(bad), nope), Eq(e, E('os.ErrNotExist'))))
            if fn == 'Remove':
                full = And(uint('list error', 0, n) == 0, uint('list length', 0, n, -1) > 0, uint('list error', 0, nm) == 0, uint('list length', 0, nm, -1) > 0)
                obl(eng, st, ('C02', 'C12'), 'a directory which is not empty is reported as such', Imp(And(rw, there, t == DIR, Eq(l, ''), full), Eq(e, E(CFG + 'ErrDirectoryNotEmpty'))))
                obl(eng, st, ('C02',), 'what can be removed is removed', Imp(And(rw, there, Or(Not(t == DIR), And(*[z3.And(uint('list error', 0, x) == 0, uint('list length', 0, x, -1) == 0) for x in (n, nm)]))), len(done) == 1))
            if fn == 'Mkdir':
                n = clean(eng, 'name')
                d = ustr('path.Dir', n)
                obl(eng, st, ('C02', 'C13'), 'a parent which does not exist is reported as such', Imp(And(rw, S(0, d, False) == none(eng)), Eq(e, E('os.ErrNotExist'))))
                obl(eng, st, ('C02', 'C13'), 'a parent which is no directory is reported as such', Imp(And(rw, S(0, d, False) == 0, Not(T(0, d, False) == DIR)), Eq(e, E(CFG + 'ErrIsFile'))))
                obl(eng, st, ('C02',), 'what exists is reported as such', Imp(And(rw, parent_dir(0, n), z3.Or(S(0, n, False) == 0, S(0, n, True) == 0)), Eq(e, E('os.ErrExist'))))
            if fn == 'Rename':
                o, n = clean(eng, 'oldname'), clean(eng, 'newname')
                there, nope, t, nm, l = first(eng, 0, o)
                j = lambda x: ustr('path.Join2', '/', x)
                inside = z3.And(z3.PrefixOf(z3.Concat(j(nm), SL), z3.Concat(j(n), SL)), j(nm) != j(n))
                named = And(Not(Eq(A['oldname'], '')), Not(Eq(A['newname'], '')), uint('root error', 0) == 0, Not(Eq(ustr('root', 0), o)), z3.Not(z3.Or(*[o == x for x in ('', '.', '/', './')])))
                obl(eng, st, ('C02',), 'what does not exist is reported as such', Imp(And(rw, named, nope), Eq(e, E('os.ErrNotExist'))))
                obl(eng, st, ('C02', 'C12'), 'a success has moved the entry, unless it is there', Imp(Eq(e, 0), Or(len(st.events('Move')) == 1, And(S(0, n, False) == 0, Eq(N(0, n, False), nm)))))
                obl(eng, st, ('C02', 'C12'), 'what can be moved is moved', Imp(And(rw, named, there, parent_dir(0, n), Or(Not(t == DIR), Not(inside)), S(0, n, False) == none(eng)), len(st.events('Move')) == 1))
            if fn == 'Stat':
                n = clean(eng, 'name')
                there, nope, t, nm, l = first(eng, 0, n)
                obl(eng, st, ('C02', 'C13'), 'what exists is found, what does not is reported as such', And(Imp(there, Eq(e, 0)), Imp(nope, Eq(e, E('os.ErrNotExist')))))
            if fn == 'RemoveAll':
                obl(eng, st, ('C02', 'C12'), 'nothing is reported for what does not exist', Imp(And(rw, bool(done)), Or(Eq(e, 0), *[True for x in done])))

        return {'mutation!': mut, 'post!': post}
    return extra


def fstree(prog, prop, fs=('Mkdir', 'OpenFile', 'Remove', 'RemoveAll', 'Rename', 'Stat', 'Chmod', 'Chown', 'Chtimes', 'SymlinkIfPossible')):
    J = fs_jobs(prog, prop, (), fs, (), fsextra(prop))
    for j in J:
        p0 = j.pre

        def pre(eng, st, A, p0=p0):
            eng.fsA = dict(A)
            return p0(eng, st, A)
        j.pre = pre
    if prop == 'C02':
        J.append(Job(HEADERMODE, post=hm_post, prop=prop))
    return J


def hm_post(eng, st, A, rs):
    obl(eng, st, ('C02',), 'every permission bit is kept', Eq(rs[0], tarmode(eng, st, A['mode'])))


# ---------------------------------------------------------------- which of them bear on which property
def meta_jobs(prop):
    import meta as m
    W = (m.upsert, m.updatemeta, m.deleteheader, m.moveheader)
    which = {
        'C01': W + (m.getheader, m.getheaderbylinkname, m.getheaders, m.lastindexed, m.purge),
        'C02': W + (m.getheader, m.getheaderbylinkname, m.getheaderchildren, m.directchildren),
        'C04': W + (m.getheader, m.lastindexed),
        'C07': W + (m.getheader, m.lastindexed, m.purge),
        'C10': W + (m.directchildren, m.getheaders, m.getheaderchildren),
        'C12': (m.getheader, m.getheaderchildren, m.deleteheader, m.moveheader),
        'C13': (m.getheader, m.getheaderbylinkname, m.getheaders, m.directchildren),
        'C16': (m.lastindexed, m.purge),
        'C17': (m.getheader, m.getheaders, m.purge, m.directchildren),
    }[prop]
    J = [f(prop) for f in which]
    if prop in ('C01', 'C02', 'C12', 'C13', 'C17'):
        J += m.spellings(prop)
    return J
