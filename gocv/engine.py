"""The verifier: symbolic execution of go/ssa, function by function, path by path, with contracts at calls,
invariants at loops (no unrolling) and obligations which are discharged by z3 and cvc5."""
import hashlib
import json
import os
import re
import subprocess
import time
import traceback
from fractions import Fraction

import z3

from values import *

MOD = 'github.com/pojntfx/stfs/'
z3.set_param('smt.random_seed', 1)
PROP = re.compile(r'C\d\d:')


def symbol(ctx, s):
    Z = z3.z3core
    if Z.Z3_get_symbol_kind(ctx, s) == z3.Z3_INT_SYMBOL:
        return 'k!%s' % Z.Z3_get_symbol_int(ctx, s)
    return Z.Z3_get_symbol_string(ctx, s)


class Unsupported(Exception):
    pass


class Undecided(Exception):
    pass


def short(n):
    return n.replace(MOD, '')


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.funcs = {f['name']: f for f in d['funcs']}
        self.methods = d['methods']
        self.globals = {g['n']: g['t'] for g in d['globals']}
        self.constglobals = {g['n']: g['fields'] for g in d['globals'] if g.get('fields')}
        self.by_s = {t['s']: i for i, t in enumerate(self.types)}
        for f in self.funcs.values():
            self.prepare(f)

    def u(self, t):
        while self.types[t]['k'] == 'named':
            t = self.types[t]['u']
        return self.types[t]

    def tname(self, t):
        return short(self.types[t]['s'])

    def fields(self, t):
        return self.u(t)['f']

    def fidx(self, t, name):
        for i, f in enumerate(self.fields(t)):
            if f['n'] == name:
                return i
        raise Undecided(f'{self.tname(t)} has no field {name}')

    def prepare(self, f):
        """Dominators and natural loops."""
        bs = f['blocks']
        n = len(bs)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        entries = {0}
        if 'recover' in f:
            entries.add(f['recover'])
        for e in entries:
            dom[e] = {e}
        ch = True
        while ch:
            ch = False
            for i in range(n):
                if i in entries:
                    continue
                ps = [dom[p] for p in bs[i]['preds']]
                d = set.intersection(*ps) | {i} if ps else {i}
                if d != dom[i]:
                    dom[i] = d
                    ch = True
        loops = {}
        for i in range(n):
            for s in bs[i]['succs']:
                if s in dom[i]:
                    body = loops.setdefault(s, {s})
                    w = [i]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w += bs[x]['preds']
        f['loops'] = loops
        f['ord'] = {h: k for k, h in enumerate(sorted(loops))}


class St:
    __slots__ = ('pc', 'heap', 'ghost', 'trace', 'n', 'approx', 'progress')

    def __init__(self):
        self.pc, self.heap, self.ghost, self.trace, self.n, self.approx = [], {}, {}, (), 0, ()

    def fork(self):
        s = St()
        s.pc, s.heap, s.ghost, s.trace, s.n, s.approx = list(self.pc), dict(self.heap), dict(self.ghost), self.trace, self.n, self.approx
        return s

    def ev(self, name, /, **d):
        self.trace = self.trace + ((name, d),)

    def events(self, *names):
        return [d for n, d in self.trace if n in names]


class Path:
    __slots__ = ('st', 'env', 'block', 'prev', 'defers', 'ready')

    def __init__(self, st, env, block, prev, defers, ready=False):
        self.st, self.env, self.block, self.prev, self.defers, self.ready = st, env, block, prev, defers, ready

    def fork(self):
        return Path(self.st.fork(), dict(self.env), self.block, self.prev, list(self.defers), self.ready)


class Call:
    __slots__ = ('eng', 'st', 'name', 'args', 'sig', 'recv', 'fv', 'fn', 'depth', 'ins', 'uid')

    def fresh(self, tag=''):
        """Fresh results by the signature, with the convention (ptr non-nil iff err nil)."""
        return self.eng.fresh_results(self.st, self.sig, f'ret {short(self.name)}{tag}#{self.uid}')


class Eng:
    def __init__(self, prog, job=None):
        self.p = prog
        self.job = job
        self.roottype = {}
        self.axioms = {}
        self.keep = []
        self.errs = {}
        self.obl = {}
        self.quiet = 0
        self.solver_s = 0.0
        self.backend = {'z3': 0, 'cvc5': 0, 'syntactic': 0}
        self.cache = {}
        self.memo = {}
        self.externals = {}
        self.inlined = set()
        self.contracted = set()
        self.assumed = set()
        self.undecided = []
        self.paths = 0
        self.uid = 0
        self.steps = 0
        self.deadline = None
        self.frames = []

    # ---------------------------------------------------------------- values
    def err(self, name):
        if name not in self.errs:
            self.errs[name] = len(self.errs) + 1
        return ErrV(self.errs[name])

    def fresh_err(self, label, nonnil=False):
        t = z3.Int(label)
        self.axioms[label] = t >= 0 if not nonnil else t >= 1
        return ErrV(t)

    def fresh(self, t, label, kind=None):
        zero = label.startswith('0:')
        ty = self.p.types[t]
        if ty['s'] == 'error':
            return ErrV(0) if zero else self.fresh_err(label)
        u = self.p.u(t)
        k = u['k']
        if k == 'basic':
            b = u['b']
            if b == 'bool':
                return False if zero else z3.Bool(label)
            if b == 'int':
                if zero:
                    return 0
                v = z3.Int(label)
                if u['n'] in ('uint8', 'byte'):
                    self.axioms[label] = z3.And(v >= 0, v <= 255)
                elif u.get('unsigned'):
                    self.axioms[label] = v >= 0
                return v
            if b == 'string':
                return '' if zero else z3.String(label)
            if b == 'float':
                return 0 if zero else z3.Real(label)
            if u['n'] == 'untyped nil':
                return IfaceV(True)
            return OpaqueV(t, label)
        if k == 'ptr':
            if zero:
                return PtrV(True)
            r = '*' + label
            self.roottype[r] = u['e']
            return PtrV(z3.Bool(label + '==nil'), r)
        if k == 'slice':
            if zero:
                return SliceV(True, None, 0, 0, u['e'])
            r = '[]' + label
            self.roottype.setdefault(r, ('arr', u['e']))
            n = z3.Int('len ' + label)
            nl = z3.Bool(label + '==nil')
            self.axioms['len ' + label] = z3.And(n >= 0, z3.Implies(nl, n == 0))
            return SliceV(nl, r, 0, n, u['e'])
        if k == 'map':
            if zero:
                return MapV(True, None, t)
            r = 'map ' + label
            self.roottype[r] = ('map', t)
            return MapV(z3.Bool(label + '==nil'), r, t)
        if k == 'iface':
            if zero:
                return IfaceV(True)
            return IfaceV(z3.Bool(label + '==nil'), None, None, label, kind)
        if k == 'func':
            if zero:
                return FuncV(True)
            return FuncV(z3.Bool(label + '==nil'), None, (), label, kind)
        if k == 'struct':
            return StructV(t, label)
        if k == 'array':
            return ArrV(u['e'], label)
        if k == 'tuple':
            return TupleV([self.fresh(x, f'{label}.{i}') for i, x in enumerate(u['f'])])
        return OpaqueV(t, label)

    def zero(self, t):
        return self.fresh(t, '0:' + self.p.tname(t))

    def field(self, s, i):
        if i in s.over:
            return s.over[i]
        f = self.p.fields(s.t)[i]
        kind = f'{self.p.tname(s.t)}.{f["n"]}'
        v = self.fresh(f['t'], f'{s.label}.{f["n"]}', kind)
        return v

    def fget(self, s, name):
        return self.field(s, self.p.fidx(s.t, name))

    def setf(self, s, i, v):
        o = dict(s.over)
        o[i] = v
        return StructV(s.t, s.label, o)

    def new(self, st, t, label, val):
        st.n += 1
        r = f'{label}!{st.n}'
        self.roottype[r] = t
        st.heap[r] = val
        return r

    def root(self, st, r):
        if r in st.heap:
            return st.heap[r]
        t = self.roottype[r]
        if isinstance(t, tuple):
            if t[0] == 'arr':
                return ArrV(t[1], r)
            u = self.p.u(t[1])
            if self.p.u(u['key']).get('b') == 'string' and self.p.u(u['e']).get('b') == 'string':
                return MapC(z3.Array('dom ' + r, z3.StringSort(), z3.BoolSort()), z3.Array('val ' + r, z3.StringSort(), z3.StringSort()))
            return OpaqueV(t[1], r)
        return self.fresh(t, r)

    # ---------------------------------------------------------------- arrays
    def arr_read(self, st, a, idx, depth=0):
        """The element at idx: list of (st, value); forks where the index cannot be compared with a write."""
        if depth > 12:
            raise Unsupported('deep array')
        res = []
        cur = st
        for start, ln, kind, src in reversed(a.over):
            off = Sub(idx, start)
            inside = And(Cmp('>=', off, 0), Cmp('<', off, ln)) if kind == 'arr' else Eq(idx, start)
            inside = simp(inside)
            if inside is False:
                continue
            if inside is True:
                yes, no = cur, None
            else:
                yes, no = self.split(cur, inside)
            if yes is not None:
                if kind == 'val':
                    res.append((yes, src))
                else:
                    sub, o = src
                    res += self.arr_read(yes, sub, simp(Add(off, o)), depth + 1)
            if no is None:
                return res
            cur = no
        if a.zero:
            res.append((cur, self.zero(a.et)))
        elif a.content is not None and self.p.u(a.et).get('b') == 'int':
            res.append((cur, self.fresh(a.et, f'{a.label}[{self.key(idx)}]')))
        else:
            res.append((cur, self.fresh(a.et, f'{a.label}[{self.key(idx)}]')))
        return res

    def key(self, x):
        s = z3.simplify(x).sexpr() if isz(x) else repr(x)
        return s if len(s) < 60 else hashlib.sha1(s.encode()).hexdigest()[:12]

    # ---------------------------------------------------------------- heap
    def load(self, st, ptr):
        """list of (st, value)"""
        v = self.root(st, ptr.root)
        return self.walk(st, v, ptr.path)

    def walk(self, st, v, path):
        if not path:
            return [(st, v)]
        p = path[0]
        if isinstance(p, tuple):
            r = []
            for s2, e in self.arr_read(st, v, p[1]):
                r += self.walk(s2, e, path[1:])
            return r
        if isinstance(v, StructV):
            return self.walk(st, self.field(v, p), path[1:])
        if isinstance(v, OpaqueV):
            raise Unsupported(f'field of {v}')
        raise Unsupported(f'walk {v} {path}')

    def load1(self, st, ptr):
        r = self.load(st, ptr)
        return r[0][1]

    def store(self, st, ptr, v):
        v0 = self.root(st, ptr.root)
        st.heap[ptr.root] = self.upd(st, v0, ptr.path, v)

    def upd(self, st, o, path, v):
        if not path:
            return v
        p = path[0]
        if isinstance(p, tuple):
            if len(path) > 1:
                e = self.arr_read(st, o, p[1])
                if len(e) != 1:
                    raise Unsupported('store into an element at an unknown index')
                v = self.upd(st, e[0][1], path[1:], v)
            over = [w for w in o.over if not (w[2] == 'val' and Eq(w[0], p[1]) is True)]
            return ArrV(o.et, o.label, over + [(p[1], 1, 'val', v)], None, o.zero)
        if isinstance(o, StructV):
            return self.setf(o, p, self.upd(st, self.field(o, p), path[1:], v))
        raise Unsupported(f'store into {o}')

    def havoc(self, st, v, label):
        """Forget what a pointer, slice or map refers to."""
        if isinstance(v, IfaceV) and v.dyn is not None:
            v = v.val
        if isinstance(v, PtrV) and v.nil is not True:
            try:
                old = self.load(st, v)
                if len(old) == 1:
                    self.store(st, v, self.havocked(old[0][1], label, v))
            except Unsupported:
                pass
        elif isinstance(v, SliceV) and v.root is not None:
            a = self.arr_of(st, v)
            if isinstance(a, ArrV):
                self.store(st, PtrV(False, v.root, v.path), ArrV(a.et, label))
        elif isinstance(v, MapV) and v.root is not None:
            st.heap[v.root] = MapC(z3.Array('dom ' + label, z3.StringSort(), z3.BoolSort()), z3.Array('val ' + label, z3.StringSort(), z3.StringSort()))

    def havocked(self, old, label, ptr=None):
        """A fresh value of the same shape."""
        if isinstance(old, bool) or isz(old) and z3.is_bool(old):
            return z3.Bool(label)
        if isinstance(old, int) or isz(old) and z3.is_int(old):
            return z3.Int(label)
        if isinstance(old, str) or isz(old) and z3.is_string(old):
            return z3.String(label)
        if isinstance(old, Fraction) or isz(old) and z3.is_real(old):
            return z3.Real(label)
        if isinstance(old, StructV):
            return StructV(old.t, label)
        if isinstance(old, ArrV):
            return ArrV(old.et, label)
        if isinstance(old, SliceV):
            r = '[]' + label
            self.roottype.setdefault(r, ('arr', old.et))
            n = z3.Int('len ' + label)
            nl = z3.Bool(label + '==nil')
            self.axioms['len ' + label] = z3.And(n >= 0, z3.Implies(nl, n == 0))
            return SliceV(nl, r, 0, n, old.et)
        if isinstance(old, ErrV):
            return self.fresh_err(label)
        if isinstance(old, IfaceV):
            return IfaceV(z3.Bool(label + '==nil'), None, None, label, old.kind)
        if isinstance(old, FuncV):
            return FuncV(z3.Bool(label + '==nil'), None, (), label, old.kind)
        if isinstance(old, MapC):
            return MapC(z3.Array('dom ' + label, z3.StringSort(), z3.BoolSort()), z3.Array('val ' + label, z3.StringSort(), z3.StringSort()))
        if isinstance(old, MapV):
            r = 'map ' + label
            self.roottype[r] = ('map', old.t)
            return MapV(z3.Bool(label + '==nil'), r, old.t)
        if isinstance(old, PtrV):
            et = None
            if old.root is not None and not old.path:
                et = self.roottype.get(old.root)
            if et is None:
                raise Unsupported(f'havoc of {old}')
            r = '*' + label
            self.roottype[r] = et
            return PtrV(z3.Bool(label + '==nil'), r)
        if isinstance(old, OpaqueV):
            return OpaqueV(old.t, label)
        raise Unsupported(f'havoc of {old}')

    def fresh_like(self, t, old, label):
        if t is not None and not isinstance(t, tuple):
            kind = getattr(old, 'kind', None)
            return self.fresh(t, label, kind)
        return self.havocked(old, label)

    def arr_of(self, st, s):
        return self.walk(st, self.root(st, s.root), s.path)[0][1]

    def map_of(self, st, m):
        return self.root(st, m.root)

    # ---------------------------------------------------------------- solving
    def consts(self, e, acc=None):
        """Uninterpreted constants and functions of a term."""
        try:
            return e.consts_
        except AttributeError:
            e.consts_ = c = self.consts0(e)
            return c

    def consts0(self, e):
        ctx, memo = e.ctx_ref(), self.memo
        Z = z3.z3core
        done = memo.get(e.get_id())
        if done is not None:
            return done
        self.keep.append(e)
        stack = [(e.as_ast(), False)]
        while stack:
            x, ready = stack.pop()
            i = Z.Z3_get_ast_id(ctx, x)
            if i in memo:
                continue
            k = Z.Z3_get_ast_kind(ctx, x)
            if k == z3.Z3_QUANTIFIER_AST:
                kids = [Z.Z3_get_quantifier_body(ctx, x)]
                own = ()
            elif k == z3.Z3_APP_AST:
                a = Z.Z3_to_app(ctx, x)
                n = Z.Z3_get_app_num_args(ctx, a)
                kids = [Z.Z3_get_app_arg(ctx, a, j) for j in range(n)]
                d = Z.Z3_get_app_decl(ctx, a)
                own = ()
                if Z.Z3_get_decl_kind(ctx, d) == z3.Z3_OP_UNINTERPRETED:
                    own = (symbol(ctx, Z.Z3_get_decl_name(ctx, d)),)
            else:
                memo[i] = frozenset()
                continue
            if not kids:
                memo[i] = frozenset(own)
                continue
            if not ready:
                stack.append((x, True))
                stack += [(y, False) for y in kids]
                continue
            sets = [memo[Z.Z3_get_ast_id(ctx, y)] for y in kids]
            big = max(sets, key=len)
            if all(t is big or t <= big for t in sets) and set(own) <= big:
                memo[i] = big
            else:
                memo[i] = big.union(own, *sets)
        return memo[e.get_id()]

    def gid(self, e):
        try:
            return e.gid_
        except AttributeError:
            e.gid_ = e.get_id()
            self.keep.append(e)
            return e.gid_

    def slice_pc(self, pc, goal):
        """The conditions which share constants with the goal, transitively."""
        want = set(goal)
        rest = [(c, self.consts(c)) for c in pc]
        out, ch = [], True
        while ch:
            ch = False
            nrest = []
            for c, cs in rest:
                if cs & want or not cs:
                    out.append(c)
                    if not cs <= want:
                        want |= cs
                        ch = True
                else:
                    nrest.append((c, cs))
            rest = nrest
        ax = [self.axioms[w] for w in want if w in self.axioms]
        return out, ax

    def sat(self, conds, timeout=4000):
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', timeout)
        s.add(*conds)
        r = s.check()
        self.solver_s += time.time() - t0
        return r, s

    def feasible(self, st, cond):
        """May the condition hold on this path? Unknown counts as yes."""
        if cond is True:
            return True
        if cond is False:
            return False
        pc, ax = self.slice_pc(st.pc, self.consts(cond))
        key = ('f', frozenset(self.gid(c) for c in pc), cond.get_id(), len(ax))
        if key in self.cache:
            return self.cache[key]
        self.keep.append(cond)
        r, _ = self.sat(pc + ax + [cond], 2000)
        res = r != z3.unsat
        self.cache[key] = res
        return res

    def assume(self, st, cond):
        """False if the path has become infeasible."""
        if cond is True or cond is None:
            return True
        if cond is False:
            return False
        if z3.is_and(cond):
            for c in cond.children():
                st.pc.append(c)
            return True
        st.pc.append(cond)
        return True

    def split(self, st, cond):
        """(state in which cond holds or None, state in which it does not or None)"""
        cond = simp(cond) if isz(cond) else cond
        if cond is True:
            return st, None
        if cond is False:
            return None, st
        ft = self.feasible(st, cond)
        ff = self.feasible(st, z3.Not(cond)) if ft else True
        if ft and ff:
            s2 = st.fork()
            self.assume(st, cond)
            self.assume(s2, z3.Not(cond))
            return st, s2
        if ft:
            self.assume(st, cond)
            return st, None
        self.assume(st, z3.Not(cond))
        return None, st

    def prove(self, st, cond):
        """'valid', 'invalid' (with a model) or 'unknown'"""
        if cond is True:
            self.backend['syntactic'] += 1
            return 'valid', None
        if cond is None:
            return 'unknown', None
        if cond is not False:
            i = cond.get_id()
            if any(self.gid(c) == i for c in st.pc):
                self.backend['syntactic'] += 1
                return 'valid', None
        if cond is False:
            neg = z3.BoolVal(True)
            pc, ax = list(st.pc), [self.axioms[w] for c in st.pc for w in self.consts(c) if w in self.axioms]
        else:
            neg = z3.Not(cond)
            pc, ax = self.slice_pc(st.pc, self.consts(cond))
        key = ('p', frozenset(self.gid(c) for c in pc), neg.get_id() if cond is not False else 0, len(ax))
        if key in self.cache:
            return self.cache[key]
        self.keep.append(neg)
        r, s = self.sat(pc + ax + [neg], 8000)
        be = 'z3'
        if r == z3.unknown:
            r2 = self.cvc5(s)
            if r2 is not None:
                r, be = r2, 'cvc5'
        if r == z3.unsat:
            self.backend[be] += 1
            res = ('valid', None)
        elif r == z3.sat:
            # The slice must be consistent with the rest of the path
            full = pc
            if len(pc) != len(st.pc):
                fax = {w: self.axioms[w] for c in st.pc for w in self.consts(c) if w in self.axioms}
                r3, s3 = self.sat(list(st.pc) + list(fax.values()) + ax + [neg], 8000)
                if r3 == z3.unsat:
                    self.backend['z3'] += 1
                    res = ('valid', None)
                    self.cache[key] = res
                    return res
                if r3 == z3.sat:
                    s = s3
            m = None
            try:
                m = s.model() if be == 'z3' else None
            except z3.Z3Exception:
                pass
            res = ('invalid', self.show_model(m) if m is not None else '')
        else:
            res = ('unknown', None)
        self.cache[key] = res
        return res

    def refuted(self, st, todo):
        """Which of the numbered conditions do not hold in this state (or could not be shown to)?"""
        bad = set()
        ids = {self.gid(c) for c in st.pc}
        todo = [(i, x) for i, x in todo if x.get_id() not in ids]
        while todo:
            neg = z3.Not(z3.And(*[x for _, x in todo])) if len(todo) > 1 else z3.Not(todo[0][1])
            want = frozenset().union(*[self.consts(x) for _, x in todo])
            pc, ax = self.slice_pc(st.pc, want)
            r, s = self.sat(pc + ax + [neg], 6000)
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = s.model()
                b = {i for i, x in todo if z3.is_false(m.eval(x, model_completion=True))}
                if b:
                    bad |= b
                    todo = [(i, x) for i, x in todo if i not in b]
                    continue
            for i, x in todo:
                if self.prove(st, x)[0] != 'valid':
                    bad.add(i)
            break
        return bad

    def cvc5(self, s):
        t0 = time.time()
        try:
            text = '(set-logic ALL)\n' + s.to_smt2()
            p = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=8000', '-'], input=text, capture_output=True, text=True, timeout=12)
            out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
        except (subprocess.TimeoutExpired, OSError):
            return None
        finally:
            self.solver_s += time.time() - t0
        return {'unsat': z3.unsat, 'sat': z3.sat}.get(out)

    def show_model(self, m):
        r = []
        for d in m.decls()[:60]:
            if d.arity() == 0:
                r.append(f'{d.name()} = {m[d]}')
        return '; '.join(sorted(r))[:3000]

    # ---------------------------------------------------------------- obligations
    def check(self, st, name, cond, assume=True):
        """An obligation: `cond` holds whenever this point is reached. Returns False if the path ends here.
        Obligations which are named after another property than the one which is being decided are left out."""
        if self.job is not None and self.job.prop and PROP.match(name) and not name.startswith(self.job.prop):
            return True
        if isz(cond):
            cond = simp(cond)
        if not self.quiet:
            if cond is False and not self.really(st):
                return False
            r, m = self.prove(st, cond)
            o = self.obl.setdefault(name, {'paths': 0, 'valid': 0, 'invalid': [], 'unknown': 0, 'approx': 0})
            o['paths'] += 1
            if r == 'valid':
                o['valid'] += 1
            elif r == 'invalid':
                if st.approx:
                    o['approx'] += 1
                    o.setdefault('why', st.approx[0])
                else:
                    if len(o['invalid']) < 3:
                        o['invalid'].append({'model': m, 'events': self.show_trace(st)})
                    o['ninv'] = o.get('ninv', 0) + 1
            else:
                o['unknown'] += 1
        if cond is False:
            return False
        if assume and cond is not None:
            self.assume(st, cond)
        return True

    def really(self, st):
        """Is the path feasible at all?"""
        ax = {w: self.axioms[w] for c in st.pc for w in self.consts(c) if w in self.axioms}
        r, _ = self.sat(list(st.pc) + list(ax.values()), 8000)
        return r != z3.unsat

    def show_trace(self, st):
        return ' -> '.join(n for n, _ in st.trace)[:1500]

    def on(self, kind):
        return self.job is not None and kind in self.job.checks

    # ---------------------------------------------------------------- execution
    def const(self, c):
        t = c['t']
        if c.get('nil'):
            return self.zero(t)
        v = c['v']
        if c.get('int'):
            if self.p.u(t).get('b') == 'float':
                return Fraction(int(v))
            return int(v)
        if c.get('float'):
            return Fraction(v) if self.p.u(t).get('b') == 'float' else int(Fraction(v))
        return v

    def val(self, P, v):
        k = v['k']
        if k == 'reg':
            return P.env[v['n']]
        if k == 'const':
            return self.const(v)
        if k == 'global':
            r = 'global ' + v['n']
            self.roottype[r] = self.p.types[v['t']]['e']
            return PtrV(False, r)
        if k == 'func':
            return FuncV(False, v['n'])
        if k == 'builtin':
            return FuncV(False, 'builtin:' + v['n'])
        raise Unsupported(k)

    def exec_fn(self, name, args, binds, st, depth=0):
        """list of (st, results list); paths which panic or block are dropped after their obligation"""
        if depth > 24:
            raise Unsupported('recursion: ' + short(name))
        f = self.p.funcs[name]
        env = {}
        for p, a in zip(f['params'], args):
            env[p['n']] = a
        for p, a in zip(f['freevars'], binds):
            env[p['n']] = a
        P = Path(st, env, 0, None, [])
        backs, exits, rets = self.region(f, [P], None, None, depth)
        return rets

    def tick(self):
        self.steps += 1
        if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
            raise Undecided('out of time')

    def region(self, f, start, body, header, depth):
        """Runs paths inside of `body` (all blocks if None). Returns (paths back at the header, paths which left, returns)."""
        work = list(start)
        backs, exits, rets = [], [], []
        while work:
            P = work.pop()
            self.tick()
            b = P.block
            if not P.ready:
                if header is not None and b == header:
                    backs.append(P)
                    continue
                if body is not None and b not in body:
                    exits.append(P)
                    continue
                if b in f['loops']:
                    be, ex, rt = self.loop(f, P, b, depth)
                    rets += rt
                    work += ex
                    continue
                self.phis(f, P)
            P.ready = False
            work += self.block(f, P, rets, depth)
        return backs, exits, rets

    def phis(self, f, P):
        blk = f['blocks'][P.block]
        new = {}
        for ins in blk['ins']:
            if ins['op'] != 'phi':
                break
            i = blk['preds'].index(P.prev)
            new[ins['r']] = self.val(P, ins['edges'][i])
        P.env.update(new)

    def block(self, f, P, rets, depth):
        """Executes one block; returns the successor paths."""
        blk = f['blocks'][P.block]
        paths = [P]
        out = []
        for k, ins in enumerate(blk['ins']):
            op = ins['op']
            if op == 'phi':
                continue
            nxt = []
            for Q in paths:
                self.tick()
                if op == 'jump':
                    Q.prev, Q.block = P.block, blk['succs'][0]
                    out.append(Q)
                elif op == 'if':
                    c = self.val(Q, ins['x'])
                    R = None
                    if isz(c):
                        c = simp(c)
                    if c is True or c is False:
                        Q.prev, Q.block = Q.block, blk['succs'][0 if c else 1]
                        out.append(Q)
                        continue
                    a, b = self.split(Q.st, c)
                    if a is not None and b is not None:
                        R = Path(b, dict(Q.env), blk['succs'][1], blk['i'], list(Q.defers))
                        Q.prev, Q.block = blk['i'], blk['succs'][0]
                        out += [Q, R]
                    elif a is not None:
                        Q.prev, Q.block = blk['i'], blk['succs'][0]
                        out.append(Q)
                    elif b is not None:
                        Q.prev, Q.block = blk['i'], blk['succs'][1]
                        out.append(Q)
                elif op == 'return':
                    rets.append((Q.st, [self.val(Q, r) for r in ins['rs']]))
                elif op == 'panic':
                    if self.on('panic'):
                        self.check(Q.st, f'{short(f["name"])}:no-panic', False)
                elif op == 'rundefers':
                    nxt += self.rundefers(f, Q, depth)
                else:
                    r = self.step(f, Q, ins, depth)
                    nxt += r
            paths = nxt
            if not paths:
                break
        return out

    def rundefers(self, f, P, depth):
        paths = [P]
        while True:
            nxt, again = [], False
            for Q in paths:
                if not Q.defers:
                    nxt.append(Q)
                    continue
                again = True
                fv, args, ins = Q.defers.pop()
                for st2, _ in self.do_call(f, Q.st, fv, args, ins, depth):
                    nxt.append(Path(st2, dict(Q.env), Q.block, Q.prev, list(Q.defers), Q.ready))
            paths = nxt
            if not again:
                return paths

    # ---------------------------------------------------------------- loops
    def loop(self, f, P, h, depth):
        body = f['loops'][h]
        blk = f['blocks'][h]
        self.phis(f, P)
        phis = [i for i in blk['ins'] if i['op'] == 'phi']
        init = {i['r']: P.env[i['r']] for i in phis}
        self.uid += 1
        tag = f'L{self.uid}'
        name = f'{short(f["name"])}:loop{f["ord"][h]}'
        writes = set()      # (root, path)
        ghosts = set()
        changed = set()     # phis
        groups = {}         # pointers which are the same: member -> group

        def member(m, X):
            v = X.env[m[1]] if m[0] == 'phi' else X.st.ghost.get(m[1])
            return v if isinstance(v, PtrV) and v.root is not None and not v.path else None

        def regroup(backs):
            ms = [('phi', r) for r in sorted(changed)] + [('ghost', g) for g in sorted(ghosts, key=repr)]
            new = {}
            for m in ms:
                k = []
                for X in [P] + [self.arrive(f, B, h) for B in backs]:
                    v = member(m, X)
                    if v is None:
                        k = None
                        break
                    k.append((v.root, v.nil if isinstance(v.nil, bool) else self.key(v.nil)))
                if k is not None:
                    new.setdefault((groups.get(m, 0),) + tuple(k), []).append(m)
            out = {}
            for n, (k, l) in enumerate(sorted(new.items(), key=repr)):
                if len(l) > 1:
                    for m in l:
                        out[m] = n
            return out

        def header(cands, record):
            """The state at the header at the start of an arbitrary iteration."""
            Q = P.fork()
            Q.ready = True
            st = Q.st
            shared = {}

            def alias(m, mk):
                """Pointers which are the same before every iteration are the same in an arbitrary one."""
                g = groups.get(m)
                if g is None:
                    return mk()
                if g not in shared:
                    shared[g] = mk()
                return shared[g]
            for i in phis:
                if i['r'] in changed:
                    Q.env[i['r']] = alias(('phi', i['r']), lambda: self.fresh_like(i['t'], init[i['r']], f'{tag} {i.get("c") or i["r"]}'))
            for r, path in sorted(writes, key=repr):
                try:
                    old = self.walk(P.st, self.root(P.st, r), path)[0][1]
                    t = self.typeat(r, path)
                    self.store(st, PtrV(False, r, path), self.fresh_like(t, old, f'{tag} {r}{list(path) or ""}'))
                except Unsupported:
                    raise
            for g in ghosts:
                st.ghost[g] = alias(('ghost', g), lambda: self.havocked(P.st.ghost[g], f'{tag} ghost {g}'))
            st.trace = P.st.trace + (('loop', {'name': name}),)
            for c in cands:
                x = c[1](Q)
                if x is not True and x is not None:
                    if x is False:
                        return None
                    self.assume(st, x)
            return Q

        # 1. What does an iteration change?
        self.quiet += 1
        try:
            for rnd in range(12):
                Q = header([], False)
                n0 = (len(writes), len(ghosts), len(changed))
                base = Q.fork()
                backs, exits, rets = self.region(f, [Q], body, h, depth)
                for B in backs:
                    self.diff(f, base, B, P, phis, h, writes, ghosts, changed)
                g0, groups = groups, regroup(backs)
                if (len(writes), len(ghosts), len(changed)) == n0 and g0 == groups:
                    break
            else:
                raise Unsupported('loop frame does not stabilise: ' + name)
            # 2. Candidate invariants which survive
            user = self.user_invs(f, h, P, init)
            cands = self.candidates(f, P, phis, init, writes, ghosts, changed)
            for rnd in range(8):
                Q = header(user + cands, False)
                if Q is None:
                    break
                backs, exits, rets = self.region(f, [Q], body, h, depth)
                bad = set()
                for B in backs:
                    B2 = self.arrive(f, B, h)
                    todo = []
                    for ci, c in enumerate(cands):
                        if ci in bad:
                            continue
                        x = c[1](B2)
                        x = simp(x) if isz(x) else x
                        if x is True:
                            continue
                        if x is None or x is False:
                            bad.add(ci)
                        else:
                            todo.append((ci, x))
                    bad |= self.refuted(B2.st, todo)
                if not bad:
                    break
                cands = [c for i, c in enumerate(cands) if i not in bad]
        finally:
            self.quiet -= 1
        # 3. The user's invariants hold initially
        for c in user:
            P2 = P
            if c[2]:
                self.check(P2.st, f'{name}:inv-init:{c[0]}', c[1](P2), assume=False)
        # 4. The iteration, with its obligations
        Q = header(user + cands, True)
        if Q is None:
            return [], [], []
        start = Q.fork()
        if self.job is not None and self.job.loop_start:
            self.job.loop_start(self, name, start, Q)
        backs, exits, rets = self.region(f, [Q], body, h, depth)
        for B in backs:
            B2 = self.arrive(f, B, h)
            for c in user:
                if c[2]:
                    self.check(B2.st, f'{name}:inv-kept:{c[0]}', c[1](B2), assume=False)
            if self.job is not None and self.job.loop_back:
                self.job.loop_back(self, name, start, B2, {i.get('c') or i['r']: (start.env[i['r']], B2.env[i['r']]) for i in phis})
        return [], exits, rets

    def arrive(self, f, B, h):
        B2 = B.fork()
        self.phis(f, B2)
        return B2

    def typeat(self, r, path):
        t = self.roottype.get(r)
        if isinstance(t, tuple):
            if t[0] == 'arr' and path:
                t = t[1]
                path = path[1:]
            else:
                return None
        for p in path:
            if t is None:
                return None
            u = self.p.u(t)
            if isinstance(p, tuple):
                t = u.get('e')
            elif u['k'] == 'struct':
                t = u['f'][p]['t']
            else:
                return None
        return t

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if scalar(a) and scalar(b):
            if isz(a) and isz(b):
                return z3.eq(a, b) or z3.eq(z3.simplify(a), z3.simplify(b))
            if isz(a) or isz(b):
                return False
            return a == b
        if type(a) != type(b):
            return False
        if isinstance(a, PtrV):
            return self.same(a.nil, b.nil) and a.root == b.root and len(a.path) == len(b.path) and all(
                x == y if not isinstance(x, tuple) else isinstance(y, tuple) and self.same(x[1], y[1]) for x, y in zip(a.path, b.path))
        if isinstance(a, StructV):
            ks = set(a.over) | set(b.over)
            if a.label != b.label:
                return False
            return all(self.same(self.field(a, k), self.field(b, k)) for k in ks)
        if isinstance(a, ArrV):
            return a.label == b.label and len(a.over) == len(b.over) and self.same(a.content, b.content) and all(
                self.same(x[0], y[0]) and self.same(x[1], y[1]) and x[2] == y[2] and (self.same(x[3], y[3]) if x[2] == 'val' else self.same(x[3][0], y[3][0])) for x, y in zip(a.over, b.over))
        if isinstance(a, SliceV):
            return self.same(a.nil, b.nil) and a.root == b.root and a.path == b.path and self.same(a.off, b.off) and self.same(a.len, b.len)
        if isinstance(a, ErrV):
            return self.same(a.term, b.term)
        if isinstance(a, IfaceV):
            return self.same(a.nil, b.nil) and a.dyn == b.dyn and a.label == b.label and self.same(a.val, b.val)
        if isinstance(a, MapV):
            return self.same(a.nil, b.nil) and a.root == b.root
        if isinstance(a, MapC):
            return z3.eq(a.dom, b.dom) and z3.eq(a.arr, b.arr)
        if isinstance(a, FuncV):
            return self.same(a.nil, b.nil) and a.name == b.name and a.label == b.label and len(a.binds) == len(b.binds) and all(self.same(x, y) for x, y in zip(a.binds, b.binds))
        if isinstance(a, TupleV):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, OpaqueV):
            return a.label == b.label
        return a == b

    def diff(self, f, base, B, P, phis, h, writes, ghosts, changed):
        B2 = self.arrive(f, B, h)
        for i in phis:
            if not self.same(base.env[i['r']], B2.env[i['r']]):
                changed.add(i['r'])
        for r, v in B.st.heap.items():
            if r not in P.st.heap and r not in base.st.heap and '!' in r and r not in self.roottype:
                continue
            if '!' in r and r not in P.st.heap:
                continue  # allocated by the iteration
            old = self.root(base.st, r)
            self.diffv(old, v, r, (), writes)
        for g, v in B.st.ghost.items():
            if g not in base.st.ghost:
                if isinstance(g, tuple) and g[0] == 'tmp':
                    continue  # of something the iteration created
                if isinstance(g, tuple) and g[0] == 'fileinfo':
                    continue  # of a value the iteration created
                # A ghost which first appears in the loop: give it its initial value before
                P.st.ghost[g] = self.ghost0(g, v)
                base.st.ghost[g] = P.st.ghost[g]
            if not self.same(base.st.ghost[g], v):
                ghosts.add(g)

    def ghost0(self, g, v):
        if isinstance(v, bool) or isz(v) and z3.is_bool(v):
            return False
        if isinstance(v, int) or isz(v) and z3.is_int(v):
            return 0
        raise Unsupported(f'ghost {g} of a loop has no initial value')

    def diffv(self, a, b, r, path, writes):
        if self.same(a, b):
            return
        if isinstance(a, StructV) and isinstance(b, StructV) and a.label == b.label and a.t == b.t:
            for k in set(a.over) | set(b.over):
                self.diffv(self.field(a, k), self.field(b, k), r, path + (k,), writes)
            return
        writes.add((r, path))

    def candidates(self, f, P, phis, init, writes, ghosts, changed):
        c = []

        def cand(nm, get, v0):
            def eq0(Q, get=get, v0=v0):
                return Eq(get(Q), v0)
            if isinstance(v0, int) and not isinstance(v0, bool) or isz(v0) and z3.is_int(v0):
                c.append((nm + '>=init', lambda Q: Cmp('>=', get(Q), v0), False))
                c.append((nm + '==init', eq0, False))
            elif scalar(v0):
                c.append((nm + '==init', eq0, False))
            elif isinstance(v0, ErrV):
                c.append((nm + '==init', lambda Q: Eq(get(Q).term, v0.term), False))
            elif isinstance(v0, (PtrV, IfaceV, FuncV, MapV)):
                c.append((nm + ' nil as before', lambda Q: self.iff(nilof(get(Q)), nilof(v0)), False))
            elif isinstance(v0, SliceV):
                c.append((nm + ' nil as before', lambda Q: self.iff(nilof(get(Q)), nilof(v0)), False))
                c.append((nm + ' len>=', lambda Q: Cmp('>=', get(Q).len, v0.len), False))
        quant = []

        def quantity(nm, get, v0):
            if isinstance(v0, SliceV):
                quant.append((f'len({nm})', lambda Q: get(Q).len, v0.len))
            elif isinstance(v0, int) and not isinstance(v0, bool) or isz(v0) and z3.is_int(v0):
                quant.append((nm, get, v0))
            elif isinstance(v0, bool) or isz(v0) and z3.is_bool(v0):
                bools.append((nm, get, v0))
            elif isinstance(v0, ErrV):
                errs.append((nm, lambda Q: get(Q).term, v0.term))
        errs = []
        bools = []
        for i in phis:
            if i['r'] in changed:
                cand(i.get('c') or i['r'], lambda Q, r=i['r']: Q.env[r], init[i['r']])
                quantity(i.get('c') or i['r'], lambda Q, r=i['r']: Q.env[r], init[i['r']])
        for r, path in sorted(writes, key=repr):
            v0 = self.walk(P.st, self.root(P.st, r), path)[0][1]
            cand(f'{r}{path}', lambda Q, r=r, path=path: self.walk(Q.st, self.root(Q.st, r), path)[0][1], v0)
            quantity(f'{r}{path}', lambda Q, r=r, path=path: self.walk(Q.st, self.root(Q.st, r), path)[0][1], v0)
        for g in sorted(ghosts, key=repr):
            cand(f'ghost {g}', lambda Q, g=g: Q.st.ghost[g], P.st.ghost[g])
            quantity(f'ghost {g}', lambda Q, g=g: Q.st.ghost[g], P.st.ghost[g])
        if len(bools) <= 8:
            for x in range(len(bools)):
                for y in range(x + 1, len(bools)):
                    (nx, gx, x0), (ny, gy, y0) = bools[x], bools[y]
                    c.append((f'{nx} => {ny}', lambda Q, gx=gx, gy=gy: Imp(gx(Q), gy(Q)), False))
                    c.append((f'{ny} => {nx}', lambda Q, gx=gx, gy=gy: Imp(gy(Q), gx(Q)), False))
                for ny, gy, y0 in quant[:4]:
                    nx, gx, x0 = bools[x]
                    if x0 is False:
                        c.append((f'{nx} => {ny} moved', lambda Q, gx=gx, gy=gy, y0=y0: Imp(gx(Q), Not(Eq(gy(Q), y0))), False))
                        c.append((f'{ny} moved => {nx}', lambda Q, gx=gx, gy=gy, y0=y0: Imp(Not(Eq(gy(Q), y0)), gx(Q)), False))
        if self.job is not None and self.job.templates:
            # Given candidates have to hold initially, as those below do by construction
            for n, g in self.job.templates(self, f, P, quant, errs):
                x = g(P)
                x = simp(x) if isz(x) else x
                if x is True or x is not None and x is not False and self.prove(P.st, x)[0] == 'valid':
                    c.append((n, g, False))
        if len(quant) <= 8:
            for x in range(len(quant)):
                for y in range(x + 1, len(quant)):
                    (nx, gx, x0), (ny, gy, y0) = quant[x], quant[y]
                    c.append((f'{nx} - {ny}', lambda Q, gx=gx, gy=gy, x0=x0, y0=y0: Eq(Sub(gx(Q), gy(Q)), Sub(x0, y0)), False))
        return c

    def iff(self, a, b):
        if a is b:
            return True
        if b is True:
            return a
        if b is False:
            return Not(a)
        if a is True:
            return b
        if a is False:
            return Not(b)
        return a == b

    def user_invs(self, f, h, P, init):
        r = []
        if self.job is None:
            return r
        for g in self.job.invs.get(short(f['name']), []):
            x = g(self, f, f['ord'][h], P, {i.get('c') or i['r']: i['r'] for i in f['blocks'][h]['ins'] if i['op'] == 'phi'})
            if x:
                r += [(nm, fn, True) for nm, fn in x]
        return r

    # ---------------------------------------------------------------- instructions
    def deref(self, f, P, ptr, what='dereference'):
        """False if the path ends"""
        if not isinstance(ptr, PtrV):
            raise Unsupported(f'dereference of {ptr}')
        if ptr.nil is False:
            return True
        if ptr.nil is True:
            if self.on('nil'):
                self.check(P.st, f'{short(f["name"])}:nil:{what}', False)
            return False
        if self.on('nil') and str(ptr.nil).startswith('ret '):
            return self.check(P.st, f'{short(f["name"])}:nil:{what}', Not(ptr.nil))
        self.assume(P.st, Not(ptr.nil))
        return self.alive(P.st)

    def alive(self, st):
        return True

    def step(self, f, P, ins, depth):
        op = ins['op']
        st = P.st
        env = P.env
        V = lambda v: self.val(P, v)
        if op == 'alloc':
            t = self.p.types[ins['t']]['e']
            r = self.new(st, t, f'{short(f["name"])}:{ins.get("c") or ins["r"]}', None)
            u = self.p.u(t)
            st.heap[r] = ArrV(u['e'], r, zero=True) if u['k'] == 'array' else self.zero(t)
            env[ins['r']] = PtrV(False, r)
            return [P]
        if op == 'store':
            a = V(ins['a'])
            if not self.deref(f, P, a, 'store'):
                return []
            if self.job is not None and self.job.access:
                self.job.access(self, f, st, a, True)
            self.store(st, a, V(ins['x']))
            return [P]
        if op == 'unop':
            return self.unop(f, P, ins)
        if op == 'binop':
            env[ins['r']] = self.binop(f, P, ins['o'], V(ins['x']), V(ins['y']), ins)
            return [P]
        if op == 'fieldaddr':
            x = V(ins['x'])
            if not self.deref(f, P, x, 'field'):
                return []
            env[ins['r']] = PtrV(False, x.root, x.path + (ins['i'],))
            return [P]
        if op == 'field':
            x = V(ins['x'])
            if not isinstance(x, StructV):
                raise Unsupported(f'field of {x}')
            env[ins['r']] = self.field(x, ins['i'])
            return [P]
        if op == 'extract':
            x = V(ins['x'])
            env[ins['r']] = x.items[ins['i']]
            return [P]
        if op in ('call', 'defer', 'go'):
            fv, args = self.callee(P, ins['call'])
            if op == 'defer':
                P.defers.append((fv, args, ins))
                return [P]
            if op == 'go':
                st.ev('go', fv=fv, args=args)
                return [P]
            out = []
            res = self.do_call(f, st, fv, args, ins, depth)
            for i, (st2, r) in enumerate(res):
                Q = P if i == len(res) - 1 else Path(st2, dict(env), P.block, P.prev, list(P.defers), P.ready)
                Q.st = st2
                if len(r) == 1 and self.p.types[ins['t']]['k'] != 'tuple':
                    Q.env[ins['r']] = r[0]
                else:
                    Q.env[ins['r']] = TupleV(r)
                out.append(Q)
            return out
        if op == 'makeiface':
            x = V(ins['x'])
            if isinstance(x, ErrV):
                env[ins['r']] = x
            elif self.p.types[ins['t']]['s'] == 'error':
                self.uid += 1
                env[ins['r']] = self.fresh_err(f'err {self.p.tname(ins["x"]["t"])}#{self.uid}', True)
            else:
                env[ins['r']] = IfaceV(False, ins['x']['t'], x)
            return [P]
        if op == 'changeiface':
            env[ins['r']] = V(ins['x'])
            return [P]
        if op in ('changetype', 'convert'):
            env[ins['r']] = self.convert(P, V(ins['x']), ins['x']['t'], ins['t'])
            return [P]
        if op == 'makeclosure':
            env[ins['r']] = FuncV(False, ins['fn'], [V(b) for b in ins['b']])
            return [P]
        if op == 'makeslice':
            n = V(ins['len'])
            et = self.p.u(ins['t'])['e']
            if self.on('bounds'):
                self.check(st, f'{short(f["name"])}:makeslice', Cmp('>=', n, 0))
            r = self.new(st, ('arr', et), f'{short(f["name"])}:make', None)
            st.heap[r] = ArrV(et, r, zero=True)
            env[ins['r']] = SliceV(False, r, 0, n, et)
            return [P]
        if op == 'makemap':
            r = self.new(st, ('map', ins['t']), f'{short(f["name"])}:map', None)
            u = self.p.u(ins['t'])
            if self.p.u(u['key']).get('b') == 'string' and self.p.u(u['e']).get('b') == 'string':
                st.heap[r] = MapC(z3.K(z3.StringSort(), z3.BoolVal(False)), z3.K(z3.StringSort(), z3.StringVal('')))
            else:
                self.uid += 1
                st.heap[r] = OpaqueV(ins['t'], f'{r}~{self.uid}')
            env[ins['r']] = MapV(False, r, ins['t'])
            return [P]
        if op == 'slice':
            return self.do_slice(f, P, ins)
        if op == 'indexaddr':
            x, i = V(ins['x']), V(ins['y'])
            if isinstance(x, PtrV):
                if not self.deref(f, P, x, 'index'):
                    return []
                n = self.p.u(self.p.u(ins['x']['t'])['e'])['n']
                if self.on('bounds') and not self.check(st, f'{short(f["name"])}:bounds', And(Cmp('>=', i, 0), Cmp('<', i, n))):
                    return []
                env[ins['r']] = PtrV(False, x.root, x.path + (('i', i),))
                return [P]
            c = And(Cmp('>=', i, 0), Cmp('<', i, x.len))
            if self.on('bounds'):
                if not self.check(st, f'{short(f["name"])}:bounds', c):
                    return []
            else:
                if c is False:
                    return []
                self.assume(st, c)
            if x.root is None:
                return []
            env[ins['r']] = PtrV(False, x.root, x.path + (('i', simp(Add(x.off, i))),))
            return [P]
        if op == 'index':
            x, i = V(ins['x']), V(ins['y'])
            if isinstance(x, ArrV):
                out = []
                for st2, v in self.arr_read(st, x, i):
                    Q = Path(st2, dict(env), P.block, P.prev, list(P.defers), P.ready)
                    Q.env[ins['r']] = v
                    out.append(Q)
                return out
            # byte of a string
            if self.on('bounds') and not self.check(st, f'{short(f["name"])}:bounds', And(Cmp('>=', i, 0), Cmp('<', i, self.strlen(x)))):
                return []
            env[ins['r']] = self.strbyte(x, i)
            return [P]
        if op == 'lookup':
            m, k = V(ins['x']), V(ins['y'])
            if scalar(m):
                if self.on('bounds') and not self.check(st, f'{short(f["name"])}:bounds', And(Cmp('>=', k, 0), Cmp('<', k, self.strlen(m)))):
                    return []
                env[ins['r']] = self.strbyte(m, k)
                return [P]
            env[ins['r']] = self.map_get(st, m, k, ins['commaok'])
            return [P]
        if op == 'mapupdate':
            m, k, x = V(ins['m']), V(ins['key']), V(ins['x'])
            if m.nil is True:
                if self.on('nil'):
                    self.check(st, f'{short(f["name"])}:nil:map', False)
                return []
            if m.nil is not False:
                if self.on('nil'):
                    if not self.check(st, f'{short(f["name"])}:nil:map', Not(m.nil)):
                        return []
                else:
                    self.assume(st, Not(m.nil))
            self.map_set(st, m, k, x)
            return [P]
        if op == 'range':
            env[ins['r']] = OpaqueV(ins['t'], ('range', V(ins['x'])))
            return [P]
        if op == 'next':
            it = V(ins['x'])
            src = it.label[1]
            st.n += 1
            self.uid += 1
            ts = self.p.u(ins['t'])['f']
            ok = z3.Bool(f'next ok#{self.uid}')
            if isinstance(src, MapV):
                mt = self.p.u(src.t)
                k = self.fresh(mt['key'], f'next key#{self.uid}')
                c = self.map_of(st, src) if src.root else None
                if isinstance(c, MapC):
                    st.pc.append(z3.Implies(ok, c.dom[k]))
                    v = c.arr[k]
                else:
                    v = self.fresh(mt['e'], f'next val#{self.uid}')
                env[ins['r']] = TupleV([ok, k, v])
            else:
                env[ins['r']] = TupleV([ok, z3.Int(f'next key#{self.uid}'), z3.Int(f'next val#{self.uid}')])
            return [P]
        if op == 'typeassert':
            return self.typeassert(f, P, ins)
        if op in ('makechan',):
            self.uid += 1
            env[ins['r']] = OpaqueV(ins['t'], f'chan#{self.uid}')
            return [P]
        if op == 'send':
            st.ev('send', x=V(ins['x']))
            return [P]
        raise Unsupported(f'{op} {ins.get("what", "")}')

    def strlen(self, s):
        return len(s) if isinstance(s, str) else z3.Length(s)

    def strbyte(self, s, i):
        if isinstance(s, str) and isinstance(i, int):
            return s.encode()[i] if 0 <= i < len(s.encode()) else 0
        return z3.StrToCode(z3.SubString(lit(s), lit(i), 1))

    def map_get(self, st, m, k, commaok):
        mt = self.p.u(m.t)
        z = self.zero(mt['e'])
        if m.nil is True or m.root is None:
            return TupleV([z, False]) if commaok else z
        c = self.map_of(st, m)
        if isinstance(c, MapC):
            has = simp(c.dom[lit(k)])
            v = simp(z3.If(c.dom[lit(k)], c.arr[lit(k)], z3.StringVal('')))
            if m.nil is not False:
                has = And(Not(m.nil), has)
                v = z3.If(lit(has), c.arr[lit(k)], z3.StringVal(''))
            return TupleV([v, has]) if commaok else v
        lab = f'{c.label}[{self.key(k)}]'
        v = self.fresh(mt['e'], lab)
        return TupleV([v, z3.Bool('has ' + lab)]) if commaok else v

    def map_set(self, st, m, k, x):
        c = self.map_of(st, m)
        if isinstance(c, MapC):
            st.heap[m.root] = MapC(z3.Store(c.dom, lit(k), z3.BoolVal(True)), z3.Store(c.arr, lit(k), lit(x)))
        else:
            self.uid += 1
            st.heap[m.root] = OpaqueV(m.t, f'{m.root}~{self.uid}')

    def unop(self, f, P, ins):
        o = ins['o']
        x = self.val(P, ins['x'])
        if o == '*':
            if not self.deref(f, P, x, 'load'):
                return []
            if self.job is not None and self.job.access:
                self.job.access(self, f, P.st, x, False)
            out = []
            if x.root.startswith('global '):
                v = self.load_global(P.st, x)
                if v is not None:
                    P.env[ins['r']] = v
                    return [P]
            res = self.load(P.st, x)
            for st2, v in res:
                Q = P if len(res) == 1 else Path(st2, dict(P.env), P.block, P.prev, list(P.defers), P.ready)
                Q.st = st2
                Q.env[ins['r']] = v
                out.append(Q)
            return out
        if o == '!':
            P.env[ins['r']] = Not(x)
        elif o == '-':
            P.env[ins['r']] = Sub(0, x)
        elif o == '<-':
            self.uid += 1
            P.st.ev('recv')
            P.env[ins['r']] = self.fresh(ins['t'], f'recv#{self.uid}')
        elif o == '^':
            P.env[ins['r']] = ~x if isinstance(x, int) else Sub(-1, x)
        else:
            raise Unsupported('unop ' + o)
        return [P]

    def load_global(self, st, ptr):
        """Sentinel errors and other package variables which are never written."""
        n = ptr.root[len('global '):]
        if ptr.root in st.heap:
            return None
        t = self.roottype[ptr.root]
        if self.p.types[t]['s'] == 'error' and not ptr.path:
            return self.err(n)
        if self.job is not None and n in self.job.globals:
            return self.job.globals[n](self, st)
        c = self.p.constglobals.get(n)
        if c and len(ptr.path) == 1 and str(ptr.path[0]) in c:
            return self.const(c[str(ptr.path[0])])
        return None

    AND = z3.Function('bitand', z3.IntSort(), z3.IntSort(), z3.IntSort())
    OR = z3.Function('bitor', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def bitand(self, st, x, y):
        if not isz(x) and not isz(y):
            return x & y
        if not isz(x):
            x, y = y, x
        if not isz(y):
            if y == 0:
                return 0
            if z3.is_app(x) and x.decl().eq(self.OR) and z3.is_int_value(x.arg(1)):
                c = x.arg(1).as_long()
                if y & ~c == 0:
                    return y
                if y & c == 0:
                    return self.bitand(st, x.arg(0), y)
            if z3.is_app(x) and x.decl().eq(self.AND) and z3.is_int_value(x.arg(1)):
                return self.bitand(st, x.arg(0), y & x.arg(1).as_long())
            r = self.AND(x, z3.IntVal(y))
            if y > 0:
                bits = [b for b in range(64) if y >> b & 1]
                if len(bits) == 1:
                    st.pc.append(z3.Or(r == 0, r == y))
                else:
                    st.pc.append(z3.And(r >= 0, r <= y))
                    # relate to the single bits which matter
                    for b in bits:
                        if len(bits) <= 12:
                            rb = self.AND(x, z3.IntVal(1 << b))
                            st.pc.append(z3.Or(rb == 0, rb == 1 << b))
                            st.pc.append(z3.Implies(r == 0, rb == 0))
                    if len(bits) <= 12:
                        st.pc.append(r == z3.Sum([self.AND(x, z3.IntVal(1 << b)) for b in bits]))
            return r
        return self.AND(x, lit(y))

    def binop(self, f, P, o, x, y, ins):
        st = P.st
        if o in ('==', '!='):
            e = Eq(x, y)
            if e is None:
                self.uid += 1
                e = z3.Bool(f'eq#{self.uid}')
            return Not(e) if o == '!=' else e
        if o in ('<', '<=', '>', '>='):
            return Cmp(o, x, y)
        if o == '+':
            return simp(Add(x, y)) if isz(x) or isz(y) else x + y
        if o == '-':
            return Sub(x, y)
        if o == '*':
            return Mul(x, y)
        fl = isinstance(x, Fraction) or isinstance(y, Fraction) or isz(x) and z3.is_real(x) or isz(y) and z3.is_real(y) or self.p.u(ins['t']).get('b') == 'float'
        if o == '/':
            if fl:
                if not isz(x) and not isz(y):
                    return Fraction(x) / Fraction(y)
                if not isz(y):
                    return self.real(x) / self.real(y)
                q = z3.Real(f'quot[{self.key(self.real(x))}/{self.key(self.real(y))}]')
                st.pc.append(z3.Implies(self.real(y) != 0, q * self.real(y) == self.real(x)))
                return q
            return self.divmod(f, st, x, y)[0]
        if o == '%':
            return self.divmod(f, st, x, y)[1]
        if o == '&':
            if isinstance(x, bool) or isz(x) and z3.is_bool(x):
                return And(x, y)
            return self.bitand(st, x, y)
        if o == '|':
            if not isz(x) and not isz(y):
                return x | y
            if not isz(x):
                x, y = y, x
            if not isz(y) and y == 0:
                return x
            return self.OR(lit(x), lit(y))
        if o == '&^':
            if not isz(x) and not isz(y):
                return x & ~y
        if o in ('<<', '>>') and not isz(y):
            if not isz(x):
                return x << y if o == '<<' else x >> y
            if o == '<<':
                return x * (1 << y)
            return x / (1 << y)
        if not isz(x) and not isz(y) and o == '^':
            return x ^ y
        fn = z3.Function('bitop' + o, z3.IntSort(), z3.IntSort(), z3.IntSort())
        return fn(lit(x), lit(y))

    def real(self, x):
        if isz(x):
            return x if z3.is_real(x) else z3.ToReal(x)
        return z3.RealVal(str(x))

    def divmod(self, f, st, x, y):
        if not isz(x) and not isz(y):
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q, x - q * y
        if self.on('div') and (isz(y) or y == 0):
            self.check(st, f'{short(f["name"])}:division-by-zero', Not(Eq(y, 0)))
        x, y = lit(x), lit(y)
        k = f'{self.key(x)} {self.key(y)}'
        q, r = z3.Int(f'div[{k}]'), z3.Int(f'mod[{k}]')
        st.pc.append(z3.Implies(y != 0, x == q * y + r))
        st.pc.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(0 <= r, r < y, q >= 0)))
        st.pc.append(z3.Implies(z3.And(x < 0, y > 0), z3.And(-y < r, r <= 0, q <= 0)))
        return q, r

    def convert(self, P, x, tf, tt):
        uf, ut = self.p.u(tf), self.p.u(tt)
        if ut['k'] == 'basic' and uf['k'] == 'basic':
            bf, bt = uf['b'], ut['b']
            if bf == 'int' and bt == 'float':
                return Fraction(x) if not isz(x) else z3.ToReal(x)
            if bf == 'float' and bt == 'int':
                return int(x) if not isz(x) else z3.ToInt(x)
            if bf == 'int' and bt == 'string':
                return chr(x) if isinstance(x, int) else z3.StrFromCode(x)
            return x
        if ut['k'] == 'slice' and uf['k'] == 'basic':
            et = ut['e']
            r = self.new(P.st, ('arr', et), 'bytes', None)
            self.uid += 1
            P.st.heap[r] = ArrV(et, f'{r}~{self.uid}', content=x)
            return SliceV(False, r, 0, self.strlen(x), et)
        if ut['k'] == 'basic' and ut['b'] == 'string' and uf['k'] == 'slice':
            return self.bytes_str(P.st, x)
        return x

    def bytes_str(self, st, x):
        """The string with the content of a []byte."""
        if x.nil is True or x.root is None:
            return ''
        a = self.arr_of(st, x)
        if a.content is not None and not a.over:
            c = a.content
            if x.off == 0 and Eq(x.len, self.strlen(c)) is True:
                return c
            return z3.SubString(lit(c), lit(x.off), lit(x.len))
        if isinstance(x.len, int) and not isz(x.off) and x.len <= 16 and all(w[2] == 'val' for w in a.over):
            bs = []
            for i in range(x.len):
                r = self.arr_read(st, a, x.off + i)
                if len(r) != 1 or not isinstance(r[0][1], int):
                    break
                bs.append(r[0][1])
            else:
                return bytes(bs).decode('latin-1')
        s = z3.String(f'str {a.label}~{len(a.over)}[{self.key(x.off)}:{self.key(x.len)}]')
        st.pc.append(z3.Length(s) == lit(x.len))
        return s

    def mkbytes(self, st, s, nil=False, label='bytes'):
        et = self.p.by_s.get('byte', self.p.by_s.get('uint8'))
        r = self.new(st, ('arr', et), label, None)
        self.uid += 1
        st.heap[r] = ArrV(et, f'{r}~{self.uid}', content=s)
        return SliceV(nil, r, 0, self.strlen(s), et)

    def do_slice(self, f, P, ins):
        V = lambda v: self.val(P, v)
        x = V(ins['x'])
        lo = V(ins['lo']) if ins['lo'] else 0
        hi = V(ins['hi']) if ins['hi'] else None
        st = P.st
        if scalar(x):
            n = self.strlen(x)
            h = n if hi is None else hi
            if self.on('bounds') and not self.check(st, f'{short(f["name"])}:slice-bounds', And(Cmp('>=', lo, 0), Cmp('<=', lo, h), Cmp('<=', h, n))):
                return []
            if isinstance(x, str) and not isz(lo) and not isz(h):
                P.env[ins['r']] = x[lo:h]
            else:
                P.env[ins['r']] = z3.SubString(lit(x), lit(lo), lit(Sub(h, lo)))
            return [P]
        if isinstance(x, PtrV):
            if not self.deref(f, P, x, 'slice'):
                return []
            au = self.p.u(self.p.u(ins['x']['t'])['e'])
            h = au['n'] if hi is None else hi
            P.env[ins['r']] = SliceV(False, x.root, lo, Sub(h, lo), au['e'], x.path)
            return [P]
        if isinstance(x, SliceV):
            h = x.len if hi is None else hi
            if self.on('bounds') and (ins['lo'] or ins['hi']):
                # The capacity is not tracked: slices are not extended
                if not self.check(st, f'{short(f["name"])}:slice-bounds', And(Cmp('>=', lo, 0), Cmp('<=', lo, h), Cmp('<=', h, x.len))):
                    return []
            P.env[ins['r']] = SliceV(x.nil, x.root, simp(Add(x.off, lo)), simp(Sub(h, lo)), x.et, x.path)
            return [P]
        raise Unsupported(f'slice of {x}')

    def typeassert(self, f, P, ins):
        x = self.val(P, ins['x'])
        at = ins['at']
        st = P.st
        isif = self.p.u(at)['k'] == 'iface'
        if isinstance(x, ErrV):
            ok = z3.Bool(f'is {self.key(x.term)} {self.p.tname(at)}')
            st.pc.append(z3.Implies(ok, Not(Eq(x.term, 0)) if isz(x.term) else z3.BoolVal(x.term != 0)))
            v = self.fresh(at, f'as {self.key(x.term)} {self.p.tname(at)}')
        elif x.nil is True:
            ok, v = False, self.zero(at)
        elif x.dyn is not None:
            if isif:
                need = self.p.u(at)['m']
                ms = self.p.methods.get(self.p.types[x.dyn]['s'])
                if ms is None:
                    ok = z3.Bool(f'implements {self.p.tname(x.dyn)} {self.p.tname(at)}')
                else:
                    ok = all(m in ms for m in need)
                v = x
            else:
                ok = x.dyn == at
                v = x.val if ok else self.zero(at)
            if x.nil is not False:
                ok = And(ok, Not(x.nil))
        else:
            if isif:
                ok = z3.Bool(f'is {x.label} {self.p.tname(at)}')
                v = IfaceV(x.nil, None, None, x.label, self.p.tname(at))
            else:
                d = z3.Int('dyn ' + x.label)
                ok = d == at + 1
                v = self.fresh(at, f'{x.label}.({self.p.tname(at)})', f'{x.kind}.({self.p.tname(at)})')
            if x.nil is not False:
                ok = And(ok, Not(x.nil))
        if ins['commaok']:
            yes, no = self.split(st, ok)
            out = []
            if yes is not None:
                Q = Path(yes, dict(P.env), P.block, P.prev, list(P.defers), P.ready)
                Q.env[ins['r']] = TupleV([v, True])
                if isinstance(v, PtrV) and isz(v.nil):
                    # a nil pointer inside of an interface is left out
                    self.assume(yes, Not(v.nil))
                out.append(Q)
            if no is not None:
                Q = Path(no, dict(P.env), P.block, P.prev, list(P.defers), P.ready)
                Q.env[ins['r']] = TupleV([self.zero(at), False])
                out.append(Q)
            return out
        if self.on('typeassert'):
            if not self.check(st, f'{short(f["name"])}:typeassert', ok):
                return []
        else:
            if ok is False:
                return []
            self.assume(st, ok)
        P.env[ins['r']] = v
        return [P]

    # ---------------------------------------------------------------- calls
    def callee(self, P, c):
        args = [self.val(P, a) for a in c['args']]
        if 'invoke' in c:
            return ('invoke', c['invoke'], c['mfull'], self.val(P, c['recv'])), args
        return self.val(P, c['fn']), args

    def do_call(self, f, st, fv, args, ins, depth):
        """list of (st, [results])"""
        c = ins['call']
        self.uid += 1
        C = Call()
        C.eng, C.st, C.args, C.sig, C.fn, C.depth, C.ins, C.uid, C.recv, C.fv = self, st, args, c['sig'], f, depth, ins, self.uid, None, fv
        if isinstance(fv, tuple):
            _, meth, full, recv = fv
            nl = nilof(recv)
            if nl is True:
                if self.on('nil'):
                    self.check(st, f'{short(f["name"])}:nil:{meth}', False)
                return []
            if nl is not False:
                lab = str(nl)
                if self.on('nil') and lab.startswith('ret '):
                    if not self.check(st, f'{short(f["name"])}:nil:{meth}', Not(nl)):
                        return []
                else:
                    self.assume(st, Not(nl))
            C.recv = recv
            if isinstance(recv, ErrV):
                C.name = full
                return self.apply(C, self.handler(full) or (lambda c: c.fresh()))
            if recv.dyn is not None:
                ms = self.p.methods.get(self.p.types[recv.dyn]['s'])
                target = ms.get(meth) if ms else None
                if target is None:
                    target = self.ext_method(recv.dyn, meth)
                C.name = target
                C.args = [recv.val] + list(args)
                h = self.handler(target)
                if h:
                    return self.apply(C, h)
                if target in self.p.funcs:
                    self.inlined.add(target)
                    return self.exec_fn(target, C.args, (), st, depth + 1)
                C.args = list(args)
            C.name = full
            h = (self.handler(f'{recv.kind}.{meth}') if recv.kind else None) or self.handler(full)
            if h:
                return self.apply(C, h)
            return self.unmodelled(C)
        if fv.nil is True:
            if self.on('nil'):
                self.check(st, f'{short(f["name"])}:nil:call', False)
            return []
        if fv.nil is not False:
            self.assume(st, Not(fv.nil))
        if fv.name is None:
            C.name = fv.kind or fv.label
            h = self.handler(C.name) or self.handler('func ' + fv.label) or self.handler('opaque-func')
            if h:
                return self.apply(C, h)
            return self.unmodelled(C)
        if fv.name.startswith('builtin:'):
            return self.builtin(C, fv.name[8:])
        C.name = fv.name
        h = self.handler(fv.name)
        if h:
            return self.apply(C, h)
        if fv.name in self.p.funcs:
            if fv.name != f['name']:
                self.inlined.add(fv.name)
            a = list(args)
            return self.exec_fn(fv.name, a, fv.binds, st, depth + 1)
        return self.unmodelled(C)

    def ext_method(self, t, meth):
        s = self.p.types[t]['s']
        if s.startswith('*'):
            return f'(*{s[1:]}).{meth}'
        return f'({s}).{meth}'

    def handler(self, name):
        if self.job is not None:
            h = self.job.handlers.get(short(name))
            if h:
                self.contracted.add(short(name))
                return h
        import models
        return models.MODELS.get(short(name))

    def apply(self, C, h):
        r = h(C)
        if r is None:
            r = []
        if isinstance(r, list):
            out = []
            for x in r:
                st, v = x
                out.append((st, list(v) if isinstance(v, (tuple, list)) else [v] if v is not None else []))
            return out
        if isinstance(r, tuple):
            return [(C.st, list(r))]
        return [(C.st, [r])]

    def fresh_results(self, st, sig, label, convention=True):
        rs = self.p.u(sig)['r']
        vals = [self.fresh(t, f'{label}.{i}', label) for i, t in enumerate(rs)]
        if convention and len(vals) > 1 and isinstance(vals[-1], ErrV):
            ok = Eq(vals[-1].term, 0)
            for v in vals[:-1]:
                if isinstance(v, (PtrV, IfaceV, FuncV)) and isz(v.nil):
                    st.pc.append(z3.Implies(ok, z3.Not(v.nil)))
        elif len(vals) == 1 and isinstance(vals[0], (PtrV, FuncV, IfaceV)) and isz(vals[0].nil):
            st.pc.append(z3.Not(vals[0].nil))
        return tuple(vals)

    def unmodelled(self, C):
        n = short(C.name)
        self.externals[n] = self.externals.get(n, 0) + 1
        import models
        if n not in models.KNOWN:
            C.st.approx = C.st.approx + (n,)
        if n not in models.PURE:
            for a in C.args:
                self.uid += 1
                self.havoc(C.st, a, f'havoc {n}#{self.uid}')
        C.st.ev('call ' + n, args=C.args, recv=C.recv)
        return [(C.st, list(C.fresh()))]

    def builtin(self, C, b):
        st, a = C.st, C.args
        if b == 'len':
            x = a[0]
            if isinstance(x, SliceV):
                return [(st, [x.len])]
            if scalar(x):
                return [(st, [self.strlen(x)])]
            if isinstance(x, MapV):
                if x.nil is True:
                    return [(st, [0])]
                self.uid += 1
                n = z3.Int(f'maplen#{self.uid}')
                st.pc.append(n >= 0)
                return [(st, [n])]
            if isinstance(x, ArrV):
                raise Unsupported('len of array')
        if b == 'cap':
            self.uid += 1
            n = z3.Int(f'cap#{self.uid}')
            st.pc.append(n >= lit(a[0].len))
            return [(st, [n])]
        if b == 'append':
            return [(st, [self.append(st, a[0], a[1])])]
        if b == 'copy':
            d, s = a
            n = z3.Int(f'copied#{C.uid}')
            sl = s.len if isinstance(s, SliceV) else self.strlen(s)
            st.pc.append(n == z3.If(lit(d.len) < lit(sl), lit(d.len), lit(sl)))
            if d.root is not None:
                da = self.arr_of(st, d)
                if isinstance(s, SliceV) and s.root is not None:
                    sa = self.arr_of(st, s)
                    content = None
                    if sa.content is not None and not sa.over and d.off == 0:
                        content = z3.String(f'copied content#{C.uid}')
                        st.pc.append(z3.Implies(n == lit(d.len), content == z3.SubString(lit(sa.content), lit(s.off), n)))
                        st.pc.append(z3.Length(content) == lit(d.len))
                        self.store(st, PtrV(False, d.root, d.path), ArrV(da.et, f'{da.label}~{C.uid}', content=content))
                    else:
                        self.store(st, PtrV(False, d.root, d.path), ArrV(da.et, da.label, list(da.over) + [(d.off, n, 'arr', (sa, s.off))], None, da.zero))
                else:
                    self.store(st, PtrV(False, d.root, d.path), ArrV(da.et, f'{da.label}~{C.uid}'))
            return [(st, [n])]
        if b == 'delete':
            m = a[0]
            if m.root:
                c = self.map_of(st, m)
                if isinstance(c, MapC):
                    st.heap[m.root] = MapC(z3.Store(c.dom, lit(a[1]), z3.BoolVal(False)), c.arr)
            return [(st, [])]
        if b in ('print', 'println', 'close', 'clear'):
            return [(st, [])]
        if b == 'min' or b == 'max':
            x, y = a
            c = Cmp('<', x, y) if b == 'min' else Cmp('>', x, y)
            return [(st, [z3.If(lit(c), lit(x), lit(y)) if isz(c) else x if c else y])]
        if b == 'ssa:wrapnilchk':
            return [(st, [a[0]])]
        if b == 'recover':
            return [(st, [IfaceV(True)])]
        raise Unsupported('builtin ' + b)

    def append(self, st, s, t):
        if isinstance(t, SliceV) and t.len == 0 and not isz(t.len):
            return s
        if s.root is None:
            base, off = ArrV(s.et, 'empty'), 0
        else:
            base, off = self.arr_of(st, s), s.off
        r = self.new(st, ('arr', s.et), 'append', None)
        if not isinstance(t, SliceV):  # append([]byte, string...)
            t = self.mkbytes(st, t)
        n = simp(Add(s.len, t.len))
        ta = self.arr_of(st, t) if t.root is not None else ArrV(s.et, 'empty')
        over = list(base.over) if isinstance(off, int) and off == 0 else [(0, s.len, 'arr', (base, off))]
        lab = base.label if isinstance(off, int) and off == 0 else r
        content = None
        isbytes = self.p.u(s.et).get('b') == 'int'
        if isbytes:
            content = Add(self.bytes_str(st, s), self.bytes_str(st, t))
            self.uid += 1
            st.heap[r] = ArrV(s.et, f'{r}~{self.uid}', content=content)
        else:
            if isinstance(t.len, int) and t.len <= 4 and isinstance(t.off, int) and ta.over:
                for i in range(t.len):
                    e = self.arr_read(st, ta, t.off + i)
                    over.append((simp(Add(s.len, i)), 1, 'val', e[0][1]))
            else:
                over.append((s.len, t.len, 'arr', (ta, t.off)))
            st.heap[r] = ArrV(s.et, lab, over, None, base.zero and isinstance(off, int) and off == 0)
        nil = And(s.nil, Eq(t.len, 0))
        return SliceV(nil, r, 0, n, s.et)


class Job:
    """A function to verify with its contract."""

    def __init__(self, fn, pre=None, post=None, handlers=None, checks=(), invs=None, globals=None, loop_start=None, loop_back=None,
                 tag='', args=None, needs_return=True, note='', prop=''):
        self.fn = fn
        self.pre, self.post = pre, post
        self.handlers = handlers or {}
        self.checks = set(checks)
        self.invs = invs or {}
        self.globals = globals or {}
        self.loop_start, self.loop_back = loop_start, loop_back
        self.tag = tag
        self.args = args
        self.needs_return = needs_return
        self.note = note
        self.prop = prop
        self.access = None
        self.templates = None

    def full(self, prog):
        for n in prog.funcs:
            if short(n) == self.fn:
                return n
        return None


def verify(prog, job, limit=120):
    """Verifies one job; returns a summary."""
    t0 = time.time()
    eng = Eng(prog, job)
    eng.deadline = t0 + limit
    full = job.full(prog)
    name = job.fn + (f' [{job.tag}]' if job.tag else '')
    if full is None:
        return dict(fn=name, undecided=['the function does not exist any more'], obl={}, solver_s=0, backend=eng.backend, externals={}, inlined=[], outcomes=0, wall=0, contracted=[])
    f = prog.funcs[full]
    st = St()
    und = []
    outs = []
    eng.ops = f['params'][0]['n'] if job.fn.startswith('(*pkg/operations.Operations).') and f['params'] else None
    try:
        args = []
        for p in f['params']:
            v = eng.fresh(p['t'], p['n'], f'param {short(full)}.{p["n"]}')
            args.append(v)
        if f.get('recv') and isinstance(args[0], PtrV):
            args[0] = PtrV(False, args[0].root)
        binds = []
        for p in f['freevars']:
            v = eng.fresh(p['t'], 'free ' + p['n'])
            if isinstance(v, PtrV):
                v = PtrV(False, v.root)
            binds.append(v)
        A = {p['n']: a for p, a in zip(f['params'], args)}
        for p, b in zip(f['freevars'], binds):
            A['free ' + p['n']] = b
        ctx = A
        if job.pre:
            r = job.pre(eng, st, A)
            if r is not None:
                for k, v in r.items():
                    for i, p in enumerate(f['params']):
                        if p['n'] == k:
                            args[i] = v
                            A[k] = v
        outs = eng.exec_fn(full, args, binds, st)
        eng.paths = len(outs)
        for st2, rs in outs:
            if job.post:
                job.post(eng, st2, A, rs)
        if job.needs_return:
            # vacuity: some path returns
            live = any(eng.really(s) for s, _ in outs[:40])
            eng.obl[f'{job.fn}:reachable'] = dict(paths=1, valid=1 if live else 0, invalid=[] if live else [{'model': 'no path returns', 'events': ''}], unknown=0, approx=0, ninv=0 if live else 1)
    except (Unsupported, Undecided) as e:
        und.append(f'{type(e).__name__}: {e}')
    except z3.Z3Exception as e:
        und.append(f'z3: {e}')
        if os.environ.get('GOCV_DEBUG'):
            traceback.print_exc()
    except RecursionError as e:
        und.append('recursion')
    return dict(fn=name, undecided=und, obl=eng.obl, solver_s=eng.solver_s, backend=eng.backend, externals=eng.externals,
                inlined=sorted(short(x) for x in eng.inlined), contracted=sorted(eng.contracted), outcomes=eng.paths, wall=time.time() - t0)
