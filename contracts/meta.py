"""The index (pkg/persisters): what each statement selects and changes, as a formula over an arbitrary row of the table,
and what is made from it. The text of the statements is read from the code (constants, fmt.Sprintf) on every run."""
from common import *
from rec import obl
import sql

ROW = 'internal/db/sqlite/models/metadata.Header'
HQ = '(internal/db/sqlite/models/metadata.headerQuery).'
QM = 'github.com/volatiletech/sqlboiler/v4/queries/qm.'
RAW = 'github.com/volatiletech/sqlboiler/v4/queries.Raw'
Q = '(*github.com/volatiletech/sqlboiler/v4/queries.Query).'
CONV = 'internal/converters.'
COLS = ('record lastknownrecord block lastknownblock deleted typeflag name linkname size mode uid gid uname gname modtime accesstime changetime devmajor devminor paxrecords format').split()
STRS = ('name', 'linkname', 'uname', 'gname', 'paxrecords')


def stored(name):
    """The name under which the index keeps what a caller calls `name`: the contract of getSanitizedPath"""
    return ustr('stored name', lit(name))


def anyrow(tag='row'):
    return {k: (z3.String if k in STRS else z3.Int)(f'{tag}.{k}') for k in COLS}


def rowof(eng, st, p):
    """The columns of a row which has been loaded"""
    s = eng.load1(st, p) if isinstance(p, PtrV) else p
    t = s.t
    return {f['n'].lower(): eng.field(s, i) for i, f in enumerate(eng.p.fields(t)) if f['n'].lower() in COLS and not f['n'].lower().endswith('time')}


def plain(v):
    while isinstance(v, IfaceV) and v.dyn is not None:
        v = v.val
    return v


def q_where(c):
    es = elems(c, c.args[1])
    if not isinstance(c.args[0], str) or es is None:
        raise Unsupported('a condition which is not constant')
    lab = f'mod#{c.uid}'
    c.st.ghost[('mod', lab)] = Box((c.args[0], [plain(e) for e in es]))
    return IfaceV(False, None, None, lab, 'mod')


def q_headers(c):
    es = elems(c, c.args[0]) if c.args else []
    if es is None:
        raise Unsupported('conditions')
    mods = []
    for e in es:
        b = c.st.ghost.get(('mod', plain(e).label))
        if b is None:
            raise Unsupported('a query modifier which has no contract')
        mods.append(b.v)
    r = c.fresh()[0]
    p = c.eng.field(r, 0)
    c.st.ghost[('query', p.root)] = Box(('mods', mods))
    return r


def q_raw(c):
    if not isinstance(c.args[0], str):
        raise Unsupported('a statement which is not constant')
    es = elems(c, c.args[1])
    p = newptr(c.eng, c.st, 'github.com/volatiletech/sqlboiler/v4/queries.Query', 'raw')
    c.st.ghost[('query', p.root)] = Box(('raw', c.args[0], [plain(e) for e in es]))
    return p


def query(c):
    a = c.args[0]
    p = c.eng.field(a, 0) if isinstance(a, StructV) else a
    b = c.st.ghost.get(('query', p.root))
    if b is None:
        raise Unsupported('a query which has no contract')
    return b.v


def condition(q, row):
    """What a query selects: (context, condition over row, the select's parts)"""
    cx = sql.Ctx()
    if q[0] == 'mods':
        r = True
        for text, args in q[1]:
            p = sql.Parser(text, args, row, cx, COLS)
            r = And(r, p.where())
        return cx, r, {}
    p = sql.Parser(q[1], q[2], row, cx, COLS)
    if q[1].strip().lower().startswith('select'):
        d = p.select()
        return cx, d['cond'], d
    if q[1].strip().lower().startswith('update'):
        d = p.update()
        return cx, d['cond'], d
    raise Unsupported('SQL: ' + q[1][:40])


def given(cx):
    return And(*cx.facts) if cx.facts else True


def selects(c, props, what, q, spec, row=None, given_=True):
    """The query selects exactly what is specified"""
    row = row or anyrow()
    cx, cond, d = condition(q, row)
    st = c.st
    if cx.vague:
        st = st.fork()
        st.approx = st.approx + ('like',)
    obl(c.eng, st, props, what, Imp(And(given(cx), given_, *cx.needs), iff(cond, spec(row))))
    return cx, cond, d


def live(r):
    return Not(Eq(r['deleted'], 1))


NOROWS = 'database/sql.ErrNoRows'


def found(c, mk, kind, q):
    """Found, not found, or a failure of the database"""
    eng = c.eng
    none = eng.err(NOROWS)
    e = err(c)
    s1, s2, s3 = c.st, c.st.fork(), c.st.fork()
    s3.pc += [e.term != 0, e.term != none.term]
    out = []
    v = mk(s1)
    s1.ev(kind, q=q, r=v, e=ErrV(0))
    s2.ev(kind, q=q, r=None, e=none)
    s3.ev(kind, q=q, r=None, e=e)
    return [(s1, [v, ErrV(0)]), (s2, [PtrV(True, newptr(eng, s2, ROW, 'none').root), none]), (s3, [PtrV(True, newptr(eng, s3, ROW, 'none').root), e])]


def q_one(c):
    q = query(c)
    h = c.eng.job.handlers.get('select!')
    if h:
        h(c, q, 'One')

    def mk(st):
        p = newptr(c.eng, st, ROW, 'row')
        cx, cond, d = condition(q, rowof(c.eng, st, p))
        st.pc += [lit(x) for x in cx.facts] + [lit(cond)]
        return p
    return found(c, mk, 'One', q)


def q_exists(c):
    q = query(c)
    h = c.eng.job.handlers.get('select!')
    if h:
        h(c, q, 'Exists')
    e = err(c)
    b = z3.Bool(f'exists#{c.uid}')
    c.st.ev('Exists', q=q, b=b, e=e)
    return (b, e)


def q_all(c):
    q = query(c)
    h = c.eng.job.handlers.get('select!')
    if h:
        h(c, q, 'All')
    e = err(c)
    r = c.fresh()[0]
    c.st.pc.append(lit(r.len) >= 0)
    c.st.ev('All', q=q, r=r, e=e)
    return (r, e)


def q_deleteall(c):
    q = query(c)
    h = c.eng.job.handlers.get('select!')
    if h:
        h(c, q, 'DeleteAll')
    e = err(c)
    c.st.ev('DeleteAll', q=q, e=e, db=dbof(c))
    return (z3.Int(f'deleted rows#{c.uid}'), e)


def dbof(c):
    """The label of the database or transaction a statement is run in"""
    v = plain(c.args[2])
    return v.root if isinstance(v, PtrV) else None


def r_write(kind):
    def h(c):
        eng = c.eng
        e = err(c)
        p = c.args[0]
        cols = c.args[3]
        lab = getattr(cols, 'label', None)
        full = lab is not None and c.st.ghost.get(('infer', lab), False)
        if not full:
            raise Unsupported('columns')
        c.st.ev(kind, row=eng.load1(c.st, p), p=p.root, e=e, db=dbof(c))
        return e if kind == 'Insert' else (z3.Int(f'rows#{c.uid}'), e)
    return h


def h_infer(c):
    r = c.fresh()[0]
    c.st.ghost[('infer', getattr(r, 'label', None))] = True
    return r


def q_bind(c):
    q = query(c)
    h = c.eng.job.handlers.get('select!')
    if h:
        h(c, q, 'Bind')
    e = err(c)
    o = plain(c.args[3])
    st2 = c.st.fork()
    st2.pc.append(e.term != 0)
    st = c.st
    st.pc.append(e.term == 0)
    c.eng.havoc(st, o, f'bound#{c.uid}')
    st.ev('Bind', q=q, o=o, e=ErrV(0))
    h = c.eng.job.handlers.get('bound!')
    if h:
        h(c, q, st, o)
    st2.ev('Bind', q=q, o=o, e=e)
    return [(st, [ErrV(0)]), (st2, [e])]


def q_exec(c):
    q = query(c)
    h = c.eng.job.handlers.get('select!')
    if h:
        h(c, q, 'Exec')
    e = err(c)
    c.st.ev('Exec', q=q, e=e, db=dbof(c))
    r = c.fresh()
    return (r[0], e)


def h_begin(c):
    e = err(c)
    p = newptr(c.eng, c.st, 'database/sql.Tx', 'tx')
    c.st.ev('Begin', tx=p.root, e=e)
    return (PtrV(z3.Not(e.term == 0), p.root), e)


def h_commit(c):
    e = err(c)
    c.st.ev('Commit', tx=c.args[0].root, e=e)
    return e


def h_rollback(c):
    e = err(c)
    c.st.ev('Rollback', tx=c.args[0].root)
    return e


def h_stored(c):
    return stored(c.args[-1])


def same_fields(eng, a, b, skip=()):
    """Two headers agree in all columns, whatever their types"""
    fa = {f['n']: eng.field(a, i) for i, f in enumerate(eng.p.fields(a.t))}
    fb = {f['n']: eng.field(b, i) for i, f in enumerate(eng.p.fields(b.t))}
    r = True
    for k, v in fa.items():
        if k.lower() in COLS and k in fb and k not in skip:
            r = And(r, val_eq(eng, v, fb[k]))
    return r


def h_convert(tname):
    """A conversion keeps every column"""
    def h(c):
        eng = c.eng
        src = eng.load1(c.st, c.args[0])
        p = newptr(eng, c.st, tname, 'converted')
        d = eng.root(c.st, p.root)
        for i, f in enumerate(eng.p.fields(d.t)):
            for j, g in enumerate(eng.p.fields(src.t)):
                if f['n'] == g['n'] and f['n'].lower() in COLS:
                    d = eng.setf(d, i, eng.field(src, j))
        c.st.heap[p.root] = d
        return p
    return h


def meta_world():
    h = {
        QM + 'Where': q_where, 'internal/db/sqlite/models/metadata.Headers': q_headers, RAW: q_raw,
        HQ + 'One': q_one, HQ + 'All': q_all, HQ + 'Exists': q_exists, HQ + 'DeleteAll': q_deleteall,
        Q + 'Bind': q_bind, Q + 'ExecContext': q_exec,
        '(*' + ROW + ').Insert': r_write('Insert'), '(*' + ROW + ').Update': r_write('Update'),
        'github.com/volatiletech/sqlboiler/v4/boil.Infer': h_infer,
        '(*database/sql.DB).BeginTx': h_begin, '(*database/sql.Tx).Commit': h_commit, '(*database/sql.Tx).Rollback': h_rollback,
        PERS + 'getSanitizedPath': h_stored,
        CONV + 'DBHeaderToConfigHeader': h_convert('pkg/config.Header'),
        CONV + 'ConfigHeaderToDBHeader': h_convert(ROW),
        '(*pkg/persisters.MetadataPersister).GetHeader': p_getheader,
    }
    return h


def p_getheader(c):
    """The contract of GetHeader as the other methods see it"""
    eng = c.eng
    none = eng.err(NOROWS)
    e = err(c)
    p = newptr(eng, c.st, 'pkg/config.Header', 'target')
    c.st.ev('GetHeader', name=c.args[-1], e=e, r=p)
    return (PtrV(z3.Not(e.term == 0), p.root), e)


# ---------------------------------------------------------------- rows by name
BASIC = ('C01', 'C02', 'C04', 'C07', 'C12', 'C13', 'C17')


def bykey(name, key='name', alive=True):
    def spec(A):
        n = stored(A[name])
        return lambda r: And(Eq(r[key], n), live(r) if alive else True)
    return spec


def job(fn, prop, sel, post=None, lb=None, extra=None, panics=False):
    h = meta_world()
    h.pop(PERS + fn, None)
    h.update(extra or {})
    A0 = {}

    def pre(eng, st, A):
        A0.update(A)
        eng.metaA = A
    if sel:
        h['select!'] = lambda c, q, kind: sel(c, A0, q, kind)
    j = Job(PERS + fn, pre=pre, post=post, handlers=h, prop=prop, loop_back=lb, checks=PANICS if panics else ())
    j.loop_start = keep_start
    return j


def one_post(props, what):
    def post(eng, st, A, rs):
        ev = st.events('One')
        e = rs[-1]
        if not ev:
            obl(eng, st, props, what, Not(Eq(e.term, 0)))
            return
        x = ev[0]
        obl(eng, st, props, 'what is not found or cannot be read is reported as such', iff(Eq(e.term, x['e'].term), True) if x['r'] is None else True)
        if x['r'] is not None:
            obl(eng, st, props, what, Imp(Eq(e.term, 0), same_fields(eng, eng.load1(st, rs[0]), eng.load1(st, x['r']))))
            obl(eng, st, props, 'what has been found is returned', Eq(e.term, 0))
    return post


def getheader(prop):
    return job('GetHeader', prop, lambda c, A, q, k: selects(c, BASIC, 'the live row of the name is looked up', q, bykey('name')(A)), one_post(BASIC, 'the row is returned as it is'))


def getheaderbylinkname(prop):
    return job('GetHeaderByLinkname', prop, lambda c, A, q, k: selects(c, ('C01', 'C02', 'C13'), 'the live row of the link is looked up', q, bykey('linkname', 'linkname')(A)),
               one_post(('C01', 'C02', 'C13'), 'the row is returned as it is'))


# ---------------------------------------------------------------- all rows, children
def looprows(eng, name, start, B):
    """What a loop iterates over: (slice, index in this iteration), or None"""
    fn, o = name.rsplit(':loop', 1)
    f = next((g for n, g in eng.p.funcs.items() if short(n) == fn), None)
    if f is None:
        return None
    h = next(k for k, v in f['ord'].items() if v == int(o))
    r = []
    for b in f['loops'][h]:
        for i in f['blocks'][b]['ins']:
            if i['op'] == 'indexaddr' and i['y']['k'] == 'reg' and i['x']['k'] == 'reg' and i['x']['n'] in start.env and (B is None or i['y']['n'] in B.env):
                x = start.env[i['x']['n']]
                if B is None and isinstance(x, SliceV):
                    return x.root
                if isinstance(x, SliceV) and ('config.Header' in eng.p.tname(x.et) or 'metadata.Header' in eng.p.tname(x.et)):
                    r.append((x, B.env[i['y']['n']]))
    return r[0] if len(r) == 1 else None


def kept(eng, phis):
    outs = [v for v in phis.values() if isinstance(v[0], SliceV) and 'Header' in eng.p.tname(v[0].et)]
    return outs[0] if len(outs) == 1 else None


def keep_start(eng, name, start, Q):
    """How many have been kept when the loop ends"""
    fn, o = name.rsplit(':loop', 1)
    f = next((g for n, g in eng.p.funcs.items() if short(n) == fn), None)
    h = next(k for k, v in f['ord'].items() if v == int(o))
    ph = [i['r'] for i in f['blocks'][h]['ins'] if i['op'] == 'phi' and isinstance(Q.env.get(i['r']), SliceV)]
    if len(ph) == 1:
        Q.st.ghost['nkept'] = Q.env[ph[0]].len
    else:
        Q.st.ghost.pop('nkept', None)


def lastkept(eng, st, o0, o1):
    """The header which has been appended in this iteration: list of (state, header)"""
    n = Sub(o1.len, o0.len)
    if o1.root is None or isinstance(n, int) and n == 0:
        return []
    r = []
    for s3, e in eng.arr_read(st.fork(), eng.arr_of(st, o1), simp(lit(Add(o1.off, Sub(o1.len, 1))))):
        if isinstance(e, PtrV):
            s3.pc.append(lit(Eq(n, 1)))
            r.append((s3, eng.load1(s3, e)))
    return r


def filtered(props, spec, selected=True):
    """Every iteration keeps the row it is about if it is specified, and nothing else"""
    def lb(eng, name, start, B, phis):
        st = B.st
        x, o = looprows(eng, name, start, B), kept(eng, phis)
        if x is None or o is None:
            return
        rows, i = x
        o0, o1 = o
        for s2, el in eng.arr_read(st.fork(), eng.arr_of(st, rows), Add(rows.off, i)):
            h = eng.load1(s2, el)
            r = rowof(eng, s2, h)
            if selected:
                ev = st.events('All')
                cx, cond, d = condition(ev[-1]['q'], r)
                s2.pc += [lit(x) for x in cx.facts] + [lit(cond)]
                if cx.vague:
                    s2.approx = s2.approx + ('like',)
            want = spec(eng, r)
            want, unwanted = want if isinstance(want, tuple) else (want, Not(want))
            n = Sub(o1.len, o0.len)
            obl(eng, s2, props, 'every row which is asked for is kept once', Imp(want, Eq(n, 1)))
            obl(eng, s2, props, 'no other row is kept', Imp(unwanted, Eq(n, 0)))
            for s3, e in lastkept(eng, s2, o0, o1):
                obl(eng, s3, props, 'a row is kept as it is', same_fields(eng, e, h))
    return lb


def all_post(props):
    def post(eng, st, A, rs):
        ev = st.events('All')
        ok = Eq(rs[-1].term, 0)
        obl(eng, st, props, 'a failure of the database is reported', Imp(ok, bool(ev) and Eq(ev[-1]['e'].term, 0)))
        obl(eng, st, props, 'all of what has been kept is returned', Imp(ok, 'nkept' in st.ghost and Eq(rs[0].len, st.ghost['nkept'])))
    return post


def getheaders(prop):
    P = ('C01', 'C13', 'C17')
    return job('GetHeaders', prop, lambda c, A, q, k: selects(c, P, 'all live rows are selected', q, live), all_post(P), filtered(P, lambda eng, r: True))


def spelled(n):
    return z3.Or(*[lit(n) == z3.StringVal(x) for x in ('', '.', '/', './')])


def beneath(name, n):
    """A row's name is beneath the directory `name`"""
    name, n = lit(name), lit(n)
    sl = z3.StringVal('/')
    root = z3.Or(*[name == z3.StringVal(x) for x in ('', '.', '/', './')])
    d = z3.Concat(models.trimsuffix(name, sl), sl)
    # The directory itself may be stored with and without a slash at its end
    self_ = z3.Or(n == name, n == z3.Concat(name, sl))
    inside = z3.And(z3.PrefixOf(d, n), z3.Not(self_))
    return root, inside, self_


def getheaderchildren(prop):
    P = ('C12', 'C02')

    def want(eng, r):
        name = stored(eng.metaA['name'])
        root, inside, self_ = beneath(name, r['name'])
        # An index has one root; what a second one would be is not specified
        yes = z3.If(root, z3.Not(spelled(r['name'])), inside)
        return And(live(r), yes, Not(models.suffixof('//', r['name']))), Or(Not(live(r)), z3.And(z3.Not(yes), z3.Or(z3.Not(root), lit(r['name']) == lit(name))))

    def sel(c, A, q, kind):
        name = stored(A['name'])
        row = anyrow()
        root, inside, self_ = beneath(name, row['name'])
        cx, cond, d = condition(q, row)
        st = c.st
        if cx.vague:
            st = st.fork()
            st.approx = st.approx + ('like',)
        obl(c.eng, st, P, 'every entry beneath the directory is selected', Imp(And(given(cx), live(row), z3.If(root, z3.Not(spelled(row['name'])), inside), *cx.needs), cond))
    return job('GetHeaderChildren', prop, sel, all_post(P), filtered(P, want))


# ---------------------------------------------------------------- changes
def events_ok(st, *names):
    return And(*[Eq(x['e'].term, 0) for x in st.events(*names)])


def renamed(eng, A, key):
    s = eng.load1(eng.metaS, A[key])
    return s


def upsert(prop):
    P = ('C01', 'C02', 'C04', 'C07')

    def names(eng, st, A):
        s = eng.load1(st, A['dbhdr'])
        n, l = eng.fget(s, 'Name'), eng.fget(s, 'Linkname')
        ini = A.get('initializing', False)
        return s, ite(ini, n, stored(n)), ite(Or(ini, Eq(l, '')), l, stored(l))

    def sel(c, A, q, kind):
        s, n, l = names(c.eng, c.st, A)
        selects(c, P, 'the row which is replaced is looked up, deleted or not', q, lambda r: And(Eq(r['name'], n), Eq(r['linkname'], l)))

    def post(eng, st, A, rs):
        ok = Eq(rs[0].term, 0)
        s, n, l = names(eng, st, A)
        one = st.events('One')
        ins, upd = st.events('Insert'), st.events('Update')
        missing = bool(one) and one[0]['r'] is None
        w = (ins + upd)[-1:]
        obl(eng, st, P, 'the row holds what it has been given', Imp(ok, bool(w) and And(same_fields(eng, w[0]['row'], s, ('Name', 'Linkname')),
            Eq(eng.fget(w[0]['row'], 'Name'), n), Eq(eng.fget(w[0]['row'], 'Linkname'), l))))
        obl(eng, st, P, 'a new row is inserted, another one is replaced', Imp(ok, And(iff(missing, len(ins) == 1), Or(missing, len(upd) >= 1))))
        obl(eng, st, P + ('C10',), 'a failure of the database is reported', Imp(ok, events_ok(st, 'Insert', 'Update')))
    return job('UpsertHeader', prop, sel, post)


def updatemeta(prop):
    P = ('C01', 'C02', 'C04', 'C07')

    def post(eng, st, A, rs):
        ok = Eq(rs[0].term, 0)
        s = eng.load1(st, A['dbhdr'])
        n, l = eng.fget(s, 'Name'), eng.fget(s, 'Linkname')
        upd = st.events('Update')
        obl(eng, st, P, 'the row holds what it has been given', Imp(ok, len(upd) == 1 and And(same_fields(eng, upd[0]['row'], s, ('Name', 'Linkname')),
            Eq(eng.fget(upd[0]['row'], 'Name'), stored(n)), Eq(eng.fget(upd[0]['row'], 'Linkname'), ite(Eq(l, ''), l, stored(l))))))
        obl(eng, st, P + ('C10',), 'a failure of the database is reported', Imp(ok, events_ok(st, 'Update')))
    return job('UpdateHeaderMetadata', prop, None, post)


def deleteheader(prop):
    P = ('C01', 'C02', 'C04', 'C07', 'C12')

    def post(eng, st, A, rs):
        ok = Eq(rs[-1].term, 0)
        one, upd = st.events('One'), st.events('Update')
        if one and one[0]['r'] is not None and upd:
            w = upd[-1]['row']
            old = eng.load1(st, one[0]['r'])
            obl(eng, st, P, 'the row is marked as deleted by the record at the position', And(Eq(eng.fget(w, 'Deleted'), 1), Eq(eng.fget(w, 'Lastknownrecord'), A['lastknownrecord']),
                Eq(eng.fget(w, 'Lastknownblock'), A['lastknownblock'])))
            obl(eng, st, P, 'it is the row which has been looked up', And(upd[-1]['p'] == one[0]['r'].root, same_fields(eng, w, old, ('Deleted', 'Lastknownrecord', 'Lastknownblock'))))
        obl(eng, st, P, 'a success deletes', Imp(ok, len(upd) == 1 and Eq(upd[0]['e'].term, 0)))
        if one and one[0]['r'] is None:
            obl(eng, st, P, 'a row which does not exist is reported', Eq(rs[-1].term, one[0]['e'].term))
    return job('DeleteHeader', prop, lambda c, A, q, k: selects(c, P, 'the live row of the name is looked up', q, bykey('name')(A)), post)


def moveheader(prop):
    P = ('C01', 'C02', 'C04', 'C07', 'C12')

    def sel(c, A, q, kind):
        old, new = stored(A['oldName']), stored(A['newName'])
        if kind == 'Exists':
            selects(c, P, 'only what exists is moved', q, lambda r: And(Eq(r['name'], old), live(r)))
        if kind == 'DeleteAll':
            row = anyrow()
            cx, cond, d = condition(q, row)
            obl(c.eng, c.st, P, 'nothing but what has the new name is replaced', Imp(And(given(cx), cond), Eq(row['name'], new)))
            obl(c.eng, c.st, P, 'what is moved is not deleted', Imp(And(given(cx), cond), Not(Eq(row['name'], old))))
        if kind == 'Exec':
            row = anyrow()
            cx, cond, d = condition(q, row)
            if 'sets' not in d:
                raise Unsupported('a statement')
            obl(c.eng, c.st, P, 'exactly the rows of the old name are moved', iff(cond, Eq(row['name'], old)))
            want = {'name': new, 'lastknownrecord': A['lastknownrecord'], 'lastknownblock': A['lastknownblock']}
            obl(c.eng, c.st, P, 'they get the new name and the position of the record, and keep the rest', And(set(d['sets']) == set(want), *[Eq(d['sets'].get(k, -1), v) for k, v in want.items() if k in d['sets']]))

    def post(eng, st, A, rs):
        ok = Eq(rs[0].term, 0)
        ex, up, co, be = st.events('Exists'), st.events('Exec'), st.events('Commit'), st.events('Begin')
        there = ex[0]['b'] if ex else False
        dl = st.events('DeleteAll')
        obl(eng, st, P, 'a success moves what exists', Imp(And(ok, there), len(up) == 1 and len(co) == 1 and And(Eq(up[0]['e'].term, 0), Eq(co[0]['e'].term, 0))))
        obl(eng, st, P, 'what does not exist is left alone', Imp(And(bool(ex), Not(there)), not up and not dl))
        obl(eng, st, P, 'what exists and can be moved is no failure', Imp(events_ok(st, 'Exists', 'Exec', 'Commit', 'Begin', 'DeleteAll'), ok))
        obl(eng, st, P + ('C10',), 'a failure of the database is reported', Imp(ok, And(events_ok(st, 'Exists', 'Exec', 'Commit', 'Begin', 'DeleteAll'))))
        if co:
            obl(eng, st, P, 'the replaced rows and the move are one transaction', And(*[x['db'] == be[0]['tx'] for x in up + dl]))
            obl(eng, st, P, 'what is in the way is removed first', Imp(Not(Eq(stored(A['oldName']), stored(A['newName']))), len(dl) == 1))
        for x in st.events('Rollback'):
            pass
        if be and not isinstance(be[0]['e'].term, int):
            obl(eng, st, ('C10',), 'a transaction is ended', Imp(Eq(be[0]['e'].term, 0), bool(co) or bool(st.events('Rollback'))))
    return job('MoveHeader', prop, sel, post)


# ---------------------------------------------------------------- position, purge, direct children
def lastindexed(prop):
    P = ('C01', 'C04', 'C07', 'C16')

    def sel(c, A, q, kind):
        row = anyrow()
        cx, cond, d = condition(q, row)
        obl(c.eng, c.st, P, 'all records count, also those of deleted entries', iff(cond, True))
        loc = Add(Mul(row['lastknownrecord'], A['recordSize']), row['lastknownblock'])
        it = dict((k, v) for k, v in d.get('items', []) if k)
        if d.get('order') is not None and d.get('limit') == 1:
            obl(c.eng, c.st, P, 'the last position is looked up', And(Eq(d['order'], loc), bool(d['desc'])))
            obl(c.eng, c.st, P, 'its record and block are looked up', And(Eq(it.get('lastknownrecord', -1), row['lastknownrecord']), Eq(it.get('lastknownblock', -1), row['lastknownblock'])))
        else:
            raise Unsupported('SQL: no last row')

    def post(eng, st, A, rs):
        ok = Eq(rs[-1].term, 0)
        b = st.events('Bind')
        if not b:
            return
        x = b[-1]
        none = eng.err(NOROWS)
        obl(eng, st, P, 'an index which cannot be read is reported', Imp(ok, Or(Eq(x['e'].term, 0), Eq(x['e'].term, none.term))))
        obl(eng, st, P, 'an empty index begins at the start', Imp(Eq(x['e'].term, none.term), And(ok, Eq(rs[0], 0), Eq(rs[1], 0))))
        h = eng.load1(st, x['o'])
        obl(eng, st, P, 'the position is returned', Imp(Eq(x['e'].term, 0), And(ok, Eq(rs[0], eng.fget(h, 'Lastknownrecord')), Eq(rs[1], eng.fget(h, 'Lastknownblock')))))
    return job('GetLastIndexedRecordAndBlock', prop, sel, post)


def purge(prop):
    P = ('C01', 'C07', 'C16')

    def sel(c, A, q, kind):
        selects(c, P, 'all rows are deleted', q, lambda r: True)

    def post(eng, st, A, rs):
        ok = Eq(rs[0].term, 0)
        d = st.events('DeleteAll')
        obl(eng, st, P, 'a success deletes', Imp(ok, len(d) == 1 and Eq(d[0]['e'].term, 0)))
        p = eng.root(st, A['p'].root)
        obl(eng, st, P + ('C17',), 'the root of what was there is forgotten', Imp(ok, And(Eq(eng.fget(p, 'root'), ''), Not(eng.fget(p, 'rootIsEmptyString')))))
    return job('PurgeAllHeaders', prop, sel, post)


# ---------------------------------------------------------------- the listing of a directory
def child(A, name, D):
    """(a row of this name is directly beneath the directory, it is the directory itself): by the depth of the root's rows for the root"""
    d = lit(stored(A['name']))
    n = lit(name)
    sl = z3.StringVal('/')
    root = z3.Or(*[d == z3.StringVal(x) for x in ('', '.', '/', './')])
    pre = z3.Concat(models.trimsuffix(d, sl), sl)
    rest = z3.SubString(n, z3.Length(pre), z3.Length(n) - z3.Length(pre))
    flat = z3.Or(z3.Not(z3.Contains(rest, sl)), z3.And(z3.SuffixOf(sl, rest), z3.Not(z3.Contains(z3.SubString(rest, 0, z3.Length(rest) - 1), sl))))
    self_ = z3.Or(n == d, n == z3.Concat(d, sl), z3.And(root, spelled(n)))
    return root, z3.And(z3.PrefixOf(pre, n), flat, z3.Not(self_), rest != sl), self_


def directchildren(prop):
    P = ('C13', 'C02', 'C17')

    def sel(c, A, q, kind):
        if kind != 'Bind':
            raise Unsupported('a query')
        if q[0] != 'raw':
            raise Unsupported('a query')
        row = anyrow()
        cx, cond, d = condition(q, row)
        eng, st = c.eng, c.st
        it = d['items']
        if len(it) == 1 and isinstance(it[0][1], sql.Agg):
            x = it[0][1]
            n = z3.Function('without /', z3.StringSort(), z3.StringSort())
            obl(eng, st, P, 'the depth of the root is that of the live row with the fewest slashes', And(iff(cond, live(row)), x.f == 'min' and Eq(x.x, z3.Length(row['name']) - z3.Length(n(row['name'])))))
            return
        if cx.vague:
            st = st.fork()
            st.approx = st.approx + ('like',)
        s = z3.Solver()
        s.add(lit(cond), lit(row['linkname']) != '')
        s.set('timeout', 2000)
        names = s.check() == z3.unsat
        D = st.ghost.get('rootdepth')
        key = row['name'] if names else row['linkname']
        root, ch, self_ = child(A, key, D)
        mine = And(live(row), Eq(row['linkname'], '') if names else Not(Eq(row['linkname'], '')))
        pre = And(given(cx), Not(root), *cx.needs)
        what = 'entries' if names else 'links'
        obl(eng, st, P, f'all {what} in a directory are selected', Imp(And(pre, mine, ch), cond))
        obl(eng, st, P, f'nothing but {what} in a directory are selected', Imp(And(pre, cond, Not(models.suffixof('//', key))), And(live(row), Or(ch, self_), Eq(row['linkname'], '') if names else True)))
        if D is not None:
            # Everything of the root is as deep as the root itself
            k = lit(key)
            n = z3.Length(k) - z3.Length(z3.Function('without /', z3.StringSort(), z3.StringSort())(k))
            dd = lit(D)
            top = z3.And(z3.Not(spelled(k)), z3.Or(n == dd, z3.And(z3.SuffixOf(z3.StringVal('/'), k), n == dd + 1)))
            obl(eng, st, P, f'the {what} directly beneath the root are selected', Imp(And(given(cx), root, *cx.needs), iff(cond, And(live(row), mine if names else True, top))))
        got = {k: v for k, v in it if k}
        obl(eng, st, P, f'{what} are selected as they are', And(*[k in got and Eq(got[k], row[k]) for k in row]))
        if d.get('limit') is not None:
            obl(eng, st, P, 'a limited listing reads enough', And(Cmp('>', A['limit'], 0), Cmp('>=', d['limit'], Add(A['limit'], 1))))

    def bound(c, q, st, o):
        eng = c.eng
        v = eng.load1(st, o)
        if isinstance(v, StructV):
            st.ghost['rootdepth'] = eng.fget(v, 'Depth')
        elif isinstance(v, SliceV):
            st.ghost['loaded'] = st.ghost.get('loaded', ()) + (v,)

    def listed(eng, r):
        d, n = lit(stored(eng.metaA['name'])), lit(r['name'])
        self_ = z3.Or(n == d, n == z3.Concat(d, z3.StringVal('/')))
        # The query leaves out the root, however it is spelled
        within = z3.Or(spelled(d), z3.PrefixOf(z3.Concat(models.trimsuffix(d, z3.StringVal('/')), z3.StringVal('/')), n))
        return z3.And(within, z3.Not(self_), z3.Not(spelled(n)), z3.Not(lit(models.suffixof('//', n)))), self_
    selfonly = filtered(P, listed, selected=False)

    def lb(eng, name, start, B, phis):
        st = B.st
        at = max([k for k, (n, d) in enumerate(st.trace) if n == 'loop' and d.get('name') == name] or [0])
        gh = [d for n, d in st.trace[at:] if n == 'GetHeader']
        if not gh:
            x = looprows(eng, name, start, B)
            ld = start.st.ghost.get('loaded', ())
            if x is not None and 'nlinks' in start.st.ghost and ld:
                obl(eng, st, P, 'entries and links are listed', Eq(x[0].len, Add(ld[0].len, start.st.ghost['nlinks'])))
            return selfonly(eng, name, start, B, phis)
        x, o = looprows(eng, name, start, B), kept(eng, phis)
        if x is None or o is None:
            return
        rows, i = x
        o0, o1 = o
        for s2, el in eng.arr_read(start.st.fork(), eng.arr_of(start.st, rows), Add(rows.off, i)):
            h = eng.load1(s2, el)
            s4 = st.fork()
            s4.pc += s2.pc
            obl(eng, s4, P, 'every link is listed once', Eq(Sub(o1.len, o0.len), 1))
            for s3, e in lastkept(eng, s4, o0, o1):
                n, l = eng.fget(h, 'Name'), eng.fget(h, 'Linkname')
                obl(eng, s3, P, 'a link is listed under its own name', And(Eq(eng.fget(e, 'Name'), l), Eq(eng.fget(e, 'Linkname'), n)))
                g = gh[-1]
                obl(eng, s3, P, 'what the link refers to is looked up', Eq(g['name'], n))
                obl(eng, s3, P, 'a link is listed as what it refers to, a broken one as itself', And(Imp(Eq(g['e'].term, 0), same_fields(eng, e, orig(eng, g), ('Name', 'Linkname'))),
                    Imp(Not(Eq(g['e'].term, 0)), same_fields(eng, e, h, ('Name', 'Linkname')))))

    def orig(eng, g):
        return StructV(eng.roottype[g['r'].root], g['r'].root)

    def post(eng, st, A, rs):
        ok = Eq(rs[-1].term, 0)
        b = st.events('Bind')
        none = eng.err(NOROWS)
        for x in b:
            obl(eng, st, P + ('C10',), 'a failure of the database is reported', Imp(ok, Or(Eq(x['e'].term, 0), Eq(x['e'].term, none.term))))
        if 'nkept' in st.ghost:
            k = st.ghost['nkept']
            lim = A['limit']
            whole = Or(Cmp('<=', lim, 0), Cmp('<=', k, lim))
            obl(eng, st, P, 'all of what has been kept is returned, or as many as asked for', Imp(And(ok, len(b) > 0), Eq(rs[0].len, ite(whole, k, lim))))
    j = job('GetHeaderDirectChildren', prop, sel, post, lb, {'bound!': bound})

    def start(eng, name, start, Q):
        # The links' loop is the one which is over the second of the results
        b = looprows(eng, name, start, None)
        keep_start(eng, name, start, Q)
        if len(start.st.ghost.get('loaded', ())) == 2 and 'nlinks' not in start.st.ghost and 'nkept' in Q.st.ghost and b == start.st.ghost['loaded'][1].root:
            Q.st.ghost['nlinks'] = Q.st.ghost['nkept']
    j.loop_start = start
    return j


# ---------------------------------------------------------------- spellings
ROOTS = ('', '.', '/', './')


def h_joined(c):
    """path.Join of a root's prefix and a clean relative path, given as such or with a leading ./"""
    es = elems(c, c.args[0])
    if es is None:
        raise Unsupported('path.Join')
    r = models.pjoin(es)
    x = getattr(c.eng, 'cleanrel', None)
    if isz(r) and x is not None and len(es) == 2 and es[0] in ROOTS:
        want = z3.Concat(z3.StringVal('/'), x) if es[0] == '/' else x
        for a in (x, z3.Concat(z3.StringVal('./'), x), z3.Concat(z3.StringVal('/'), x)):
            c.st.pc.append(z3.Implies(lit(es[1]) == a, r == want))
    return r


def cleanrel(x):
    return z3.And(x != '', x != '.', x != '..', z3.Not(z3.PrefixOf(z3.StringVal('/'), x)), z3.Not(z3.PrefixOf(z3.StringVal('./'), x)), z3.Not(z3.PrefixOf(z3.StringVal('../'), x)))


def h_rowexists(c):
    """headerExistsExact: nil if there is a live row of exactly this name, sql.ErrNoRows if there is none"""
    e = err(c)
    c.st.ev('exact', name=c.args[-1], e=e)
    return e


def sanitized(prop, root, spelling):
    """The stored name of a clean path is the same however the path is spelled, and different paths have different ones"""
    P = ('C02', 'C12', 'C13', 'C01')
    x = z3.String('x')

    def pre(eng, st, A):
        eng.cleanrel = x
        st.pc.append(cleanrel(x))
        p = eng.root(st, A['p'].root)
        fs = {f['n']: i for i, f in enumerate(eng.p.fields(p.t))}
        p = eng.setf(p, fs['root'], root)
        if root == '':
            p = eng.setf(p, fs['rootIsEmptyString'], True)
        st.heap[A['p'].root] = p
        return {'name': z3.Concat(z3.StringVal(spelling), x) if spelling else x}

    def post(eng, st, A, rs):
        want = {'/': '/', '': '', '.': '', './': './'}[root]
        obl(eng, st, P, f'a path is stored below the root {root!r} whether it is given with {spelling!r} or not', Eq(rs[0], z3.Concat(z3.StringVal(want), x) if want else x))
        p = eng.root(st, A['p'].root)
        obl(eng, st, P, 'the root is kept', Eq(eng.fget(p, 'root'), root))
    h = {PERS + 'headerExistsExact': h_rowexists, 'path.Join': h_joined, 'path/filepath.Join': h_joined}
    return Job(PERS + 'getSanitizedPath', pre=pre, post=post, handlers=h, prop=prop, checks=())


def sanitizedroot(prop):
    """The root is the root however it is spelled; the first absolute path becomes it"""
    P = ('C02', 'C12', 'C13', 'C01', 'C17')

    def pre(eng, st, A):
        p = eng.root(st, A['p'].root)
        eng.root0 = eng.fget(p, 'root'), eng.fget(p, 'rootIsEmptyString')

    def post(eng, st, A, rs):
        n = lit(A['name'])
        r0, e0 = eng.root0
        p = eng.root(st, A['p'].root)
        r1 = eng.fget(p, 'root')
        obl(eng, st, P, 'every spelling of the root is the root', Imp(Or(spelled(n), Eq(n, r0)), And(Eq(rs[0], r0), Eq(r1, r0))))
        obl(eng, st, P, 'a root which is known is kept', Imp(Not(Eq(r0, '')), Eq(r1, r0)))
        ex = st.events('exact')
        for x in ex:
            obl(eng, st, P, 'the row of the empty name is looked for', Eq(x['name'], ''))
        first = And(Eq(r0, ''), Not(e0), z3.PrefixOf(z3.StringVal('/'), n), Not(spelled(n)))
        obl(eng, st, P, 'the first absolute path is the root unless there is one', Imp(first, And(len(ex) >= 1, And(*[ite(Eq(x['e'].term, 0), Eq(r1, ''), And(Eq(r1, n), Eq(rs[0], n))) for x in ex]))))
        obl(eng, st, P, 'a relative path is never made the root', Imp(Not(z3.PrefixOf(z3.StringVal('/'), n)), Eq(r1, r0)))
    h = {PERS + 'headerExistsExact': h_rowexists}
    return Job(PERS + 'getSanitizedPath', pre=pre, post=post, handlers=h, prop=prop, checks=())


def existsexact(prop):
    P = ('C02', 'C12', 'C13', 'C01', 'C17')

    def sel(c, A, q, kind):
        selects(c, P, 'the live row of exactly the name is looked for', q, lambda r: And(Eq(r['name'], A['name']), live(r)))

    def post(eng, st, A, rs):
        x = st.events('Exists')
        none = eng.err(NOROWS)
        if x:
            obl(eng, st, P, 'a row is found if there is one', Imp(Eq(x[0]['e'].term, 0), And(iff(Eq(rs[0].term, 0), x[0]['b']), Imp(Not(x[0]['b']), Eq(rs[0].term, none.term)))))
        obl(eng, st, P, 'a failure of the database is reported', Imp(Eq(rs[0].term, 0), bool(x) and Eq(x[0]['e'].term, 0)))
    return job('headerExistsExact', prop, sel, post)


def getrootpath(prop):
    P = ('C01', 'C02', 'C13', 'C17')

    def sel(c, A, q, kind):
        row = anyrow()
        cx, cond, d = condition(q, row)
        it = d.get('items', [])
        aggs = [v for k, v in it if isinstance(v, sql.Agg)]
        n = z3.Function('without /', z3.StringSort(), z3.StringSort())
        obl(c.eng, c.st, P, 'the root is the live row with the fewest slashes', And(iff(cond, live(row)), len(aggs) == 1 and aggs[0].f == 'min' and Eq(aggs[0].x, z3.Length(row['name']) - z3.Length(n(row['name'])))))
        got = {k: v for k, v in it if k and not isinstance(v, sql.Agg)}
        obl(c.eng, c.st, P, 'its name is looked up', 'name' in got and Eq(got['name'], row['name']))

    def pre(eng, st, A):
        eng.metaA = A
        eng.root0 = eng.fget(eng.root(st, A['p'].root), 'root')

    def post(eng, st, A, rs):
        ok = Eq(rs[-1].term, 0)
        b = st.events('Bind')
        p = eng.root(st, A['p'].root)
        none = eng.err('github.com/pojntfx/stfs/pkg/config.ErrNoRootDirectory')
        r0 = eng.root0
        obl(eng, st, P, 'a root which is known is returned', Imp(Not(Eq(r0, '')), And(ok, Eq(rs[0], r0))))
        if b:
            e = b[-1]['e']
            h = eng.load1(st, b[-1]['o'])
            obl(eng, st, P, 'the name of the row is returned and kept', Imp(Eq(e.term, 0), And(ok, Eq(rs[0], eng.fget(h, 'Name')), Eq(eng.fget(p, 'root'), eng.fget(h, 'Name')))))
            obl(eng, st, P + ('C10',), 'a failure is reported', Imp(Not(Eq(e.term, 0)), And(Not(ok), Or(Eq(rs[-1].term, e.term), Eq(rs[-1].term, none.term)))))
        else:
            obl(eng, st, P, 'the root is looked up', Not(Eq(r0, '')))
    j = job('GetRootPath', prop, sel, post)
    j.pre = pre
    return j


def spellings(prop):
    return [sanitized(prop, r, s) for r in ROOTS for s in ('/', '', './')] + [sanitizedroot(prop), existsexact(prop), getrootpath(prop)]
