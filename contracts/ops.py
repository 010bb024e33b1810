"""The write and restore operations (pkg/operations), under one contract per function; the obligations are named after
the property they decide, and a check discharges those of its property."""
from common import *

WRITERS = ('archive', 'Update', 'Delete', 'Move')


def param(A, *names):
    for n in names:
        if n in A:
            return A[n]
    raise Unsupported('no parameter ' + names[0])


def hdr_slices(eng, st, fn):
    """The local slices of written headers: variables of the function which hold headers."""
    r = []
    for root, v in st.heap.items():
        if isinstance(v, SliceV) and '!' in root:
            n = eng.p.tname(v.et)
            if n in ('*archive/tar.Header', 'archive/tar.Header'):
                r.append((root, v))
    return r


def h_abort(c):
    """abort completes the archive, closes the drive, indexes what has been written and leaves the drive free."""
    eng, st = c.eng, c.st
    o, tw, cl, rec, blk, ow, ini, hdrs = c.args
    ck(c, 'C10', 'abort has the drive', Eq(drive(st), 1))
    ck(c, 'C05', 'abort has an archive without a trailer', Not(st.ghost.get('trailed', False)))
    ck(c, 'C11', 'diskOperationLock held at abort', held(eng, st, '.diskOperationLock'))
    a = dict(record=rec, block=blk, overwrite=ow, offset=ite(ow, 0, 1))
    pos_args(c, a, eng.root(st, ops_root(eng)))
    for p in ('C01', 'C02', 'C07', 'C16'):
        ck(c, p, 'abort gets the written headers', Cmp('>=', hdrs.len, st.ghost.get('nwritten', 0)))
    st.ghost['drive'] = 0
    st.ghost['owed'] = 0
    st.ghost['trailed'] = False
    st.ghost['aborted'] = True
    st.ev('abort', ow=ow)
    return [(st, [])]


def h_missing(c):
    """getMissingTail opens the drive for reading and leaves it free."""
    ck(c, 'C10', 'the drive is free at getMissingTail', Not(Eq(drive(c.st), 1)))
    ck(c, 'C11', 'diskOperationLock held at getMissingTail', held(c.eng, c.st, '.diskOperationLock'))
    e = err(c)
    n = z3.Int(f'missing#{c.uid}')
    c.st.pc.append(n >= 0)
    c.st.ghost['drive'] = 0
    c.st.ev('getMissingTail', n=n)
    return (n, e)


def h_completing(c):
    return h_newtapewriter(c)


def completing(c):
    """What is appended starts where the content before it ends: the writer fills up what is missing first."""
    eng, st = c.eng, c.st
    f = c.args[0]
    v = f.val if isinstance(f, IfaceV) and f.dyn is not None else f
    miss = st.events('getMissingTail')
    ow = st.ghost.get('overwriting', False)
    ok = False
    drv = False
    if isinstance(v, PtrV):
        s = eng.load1(st, v)
        if isinstance(s, StructV):
            for i, fd in enumerate(eng.p.fields(s.t)):
                x = eng.field(s, i)
                if scalar(x) and not isinstance(x, bool):
                    ok = Eq(x, miss[-1]['n']) if miss else Eq(x, 0)
                if isinstance(x, IfaceV):
                    ws = st.events('GetWriter')
                    drv = bool(ws) and eng.same(x, eng.fget(ws[-1]['w'], 'Drive'))
    for p in ('C16', 'C06'):
        ck(c, p, 'what an interrupted write left is completed before appending', Or(And(ok, Or(bool(miss), ow)), False))
    ck(c, 'C05', 'the archive goes to the drive which has been opened', drv)
    return h_newtapewriter(c)


def h_archive(c):
    ck(c, 'C11', 'diskOperationLock held at archive', held(c.eng, c.st, '.diskOperationLock'))
    ck(c, 'C10', 'the drive is free at archive', Not(Eq(drive(c.st), 1)))
    c.st.ghost['drive'] = 0
    c.st.ev('archive', args=c.args)
    return c.fresh()


def loop_back(prop):
    def lb(eng, name, start, B, phis):
        """Every iteration writes at most one record; the record is one of what it has been given, and the header which
        the index will be made from is the one which has been written."""
        st = B.st
        at = max([k for k, (n, d) in enumerate(st.trace) if n == 'loop' and d.get('name') == name] or [0])
        ws = [d for n, d in st.trace[at:] if n == 'WriteHeader']
        base = f'{prop}:{name}'
        eng.check(st, f'{base}:at most one record per source', len(ws) <= 1, assume=False)
        if prop in ('C01', 'C02', 'C16'):
            kept = False
            before = {r: v for r, v in hdr_slices(eng, start.st, eng.job.fn)}
            for r, v in hdr_slices(eng, st, eng.job.fn):
                if r not in before:
                    continue
                if eng.same(before[r], v):
                    continue
                kept = True
                eng.check(st, f'{base}:one header is kept for each written record', Eq(Sub(v.len, before[r].len), len(ws)), assume=False)
                for w in ws:
                    b = w['presign']
                    if b is None:
                        continue
                    if v.root is None:
                        continue
                    arr = eng.arr_of(st, v)
                    for s2, el in eng.arr_read(st.fork(), arr, simp(Add(v.off, Sub(v.len, 1)))):
                        e = eng.load1(s2, el) if isinstance(el, PtrV) else el
                        eng.check(s2, f'{base}:the kept header is the one which has been written', struct_eq(eng, e, b.v[0]), assume=False)
            if ws:
                eng.check(st, f'{base}:the header of a written record is kept', kept, assume=False)
        h = eng.job.handlers.get('iteration!')
        if h:
            h(eng, name, start, B, ws)
    return lb


def pre(eng, st, A):
    st.ghost.update(drive=0, owed=0, wrote=False, nwritten=0, trailed=False, epoch=0)
    o = eng.root(st, ops_root(eng))
    if eng.job.fn.endswith(').archive'):
        lockit(eng, st, A)
    ow = [v for k, v in A.items() if k == 'overwrite']
    st.ghost['overwriting'] = ow[0] if ow else False


def lockit(eng, st, A):
    r = ops_root(eng)
    t = eng.roottype[r]
    st.ghost[('lock', r, (eng.p.fidx(t, 'diskOperationLock'),))] = True


def is_locked(eng, st):
    return held(eng, st, '.diskOperationLock')


def post(eng, st, A, rs):
    fn = eng.job.fn
    p = eng.job.prop
    eng.check(st, f'C10:{fn}:the drive is free at return', Eq(drive(st), 0), assume=False)
    if fn.endswith(').archive'):
        eng.check(st, f'C10:{fn}:the lock is as before at return', is_locked(eng, st), assume=False)
        eng.check(st, f'C11:{fn}:the lock is as before at return', is_locked(eng, st), assume=False)
    else:
        eng.check(st, f'C10:{fn}:the lock is free at return', Not(is_locked(eng, st)), assume=False)
        eng.check(st, f'C11:{fn}:the lock is free at return', Not(is_locked(eng, st)), assume=False)
    wrote = st.ghost.get('wrote', False)
    if fn.split('.')[-1] in WRITERS:
        ok = Eq(rs[-1].term, 0)
        ix = st.events('Index')
        ab = st.events('abort')
        # Whatever has been written has got its trailer before the drive was closed
        eng.check(st, f'C05:{fn}:what has been written ends with a trailer', Or(Not(wrote), bool(st.events('cleanup') or ab)), assume=False)
        # What has been written is indexed before success is reported
        eng.check(st, f'C01:{fn}:what has been written is indexed', Or(Not(And(ok, wrote)), len(ix) == 1), assume=False)
        eng.check(st, f'C16:{fn}:what has been written is indexed even if it fails', Or(Not(wrote), len(ix) == 1 or bool(ab) or closed_badly(st)), assume=False)
        eng.check(st, f'C02:{fn}:a failed call before the first record writes nothing', Or(ok, wrote, not ab), assume=False)
    h = eng.job.handlers.get('post!')
    if h:
        h(eng, st, A, rs)


def closed_badly(st):
    return bool(st.events('CloseWriter'))


def ops_jobs(prop, fns=WRITERS + ('Archive', 'Restore', 'Initialize', 'abort', 'getMissingTail'), checks=(), extra=None, panics=None):
    J = []
    for fn in fns:
        h = world(prop)
        h[OPS + 'abort'] = h_abort
        h[OPS + 'getMissingTail'] = h_missing
        h[OPS + 'archive'] = h_archive
        h['internal/tarext.NewTapeWriter'] = completing
        for n in ('archive', 'Update'):
            h[f'param {OPS}{n}.getSrc'] = h_getsrc
        p, po = pre, post
        lb = loop_back(prop)
        if fn == 'abort':
            h.pop(OPS + 'abort')
            p, po = abort_pre, abort_post
            h['io.Copy'] = h_zerofill
            h['pos!'] = lambda c, a: And(Eq(a['record'], c.eng.abortA['lastIndexedRecord']), Eq(a['block'], c.eng.abortA['lastIndexedBlock']))
            lb = None
        if fn in ('getMissingTail', 'archive'):
            h.pop(OPS + fn)
        if fn in ('getMissingTail',):
            p, po = tail_pre, tail_post
            lb = None
            h['(pkg/config.ReadSeekFder).Seek'] = h_seek
            h['pkg/config.DriveReaderConfig.Drive.Seek'] = h_seek
        if extra:
            h.update(extra(fn) or {})
        J.append(Job(OPS + fn, pre=p, post=po, handlers=h, checks=checks, loop_back=lb, prop=prop))
    return J


# ---------------------------------------------------------------- abort
def abort_pre(eng, st, A):
    st.ghost.update(drive=1, wrote=True, nwritten=z3.Int('nwritten'), trailed=False, epoch=0, owed=z3.Int('owed'))
    lockit(eng, st, A)
    eng.abortA = A
    st.pc.append(A['hdrs'].len >= st.ghost['nwritten'])
    st.pc.append(z3.Implies(A['overwrite'], z3.And(A['lastIndexedRecord'] == 0, A['lastIndexedBlock'] == 0)))
    # The archive and its trailer come from NewTapeWriter
    c = A['cleanup']
    tw = A['tw']
    return {'cleanup': FuncV(False, None, (), 'cleanup', 'cleanup'), 'tw': PtrV(False, tw.root)}


def abort_post(eng, st, A, rs):
    fn = eng.job.fn
    eng.check(st, f'C10:{fn}:the drive is free at return', Eq(drive(st), 0), assume=False)
    eng.check(st, f'C10:{fn}:the lock is as before at return', is_locked(eng, st), assume=False)
    eng.check(st, f'C05:{fn}:the archive gets its trailer', len(st.events('cleanup')) == 1, assume=False)
    eng.check(st, f'C05:{fn}:the interrupted member is filled up before its trailer', Eq(st.ghost['owed'], 0), assume=False)
    names = [n for n, _ in st.trace]
    if 'Index' in names:
        i = [d for d in st.events('Index')][0]
        for p in ('C01', 'C16'):
            eng.check(st, f'{p}:{fn}:the index is told how the tape has been written', And(iff(i['overwrite'], A['overwrite']), iff(i['initializing'], A['initializing'])), assume=False)


# ---------------------------------------------------------------- getMissingTail
def tail_pre(eng, st, A):
    st.ghost.update(drive=0, epoch=0)
    lockit(eng, st, A)


def tail_post(eng, st, A, rs):
    fn = eng.job.fn
    n, e = rs
    eng.check(st, f'C10:{fn}:the drive is free at return', Eq(drive(st), 0), assume=False)
    eng.check(st, f'C10:{fn}:the lock is as before at return', is_locked(eng, st), assume=False)
    for p in ('C05', 'C06', 'C16'):
        eng.check(st, f'{p}:{fn}:whole blocks are missing', Or(Not(Eq(e.term, 0)), And(Cmp('>=', n, 0), Eq(lit(n) % 512, 0))), assume=False)
