"""What a SQL statement of the index selects and changes, as a formula over one row of the headers table.

The semantics is SQLite's, for the part of the language which the index uses: comparisons, and / or / not, in, like with
a constant pattern, substr, length, replace, arithmetic, concatenation; positional parameters (`?`, `$n`). A column which
is not null is a string or an integer. What is not covered raises Unsupported: the obligation is undecided, not failed.
"""
import re
import z3
from engine import Unsupported
from values import *
from models import ustr, uint, ubool

TOK = re.compile(r"""\s*(?:(?P<num>\d+)|(?P<str>'(?:[^']|'')*')|(?P<qid>"(?:[^"]|"")*")|(?P<par>\?\d*|\$\d+)|(?P<id>[A-Za-z_][A-Za-z_0-9.]*)|(?P<op>\|\||<>|!=|<=|>=|==|[=<>+\-*/(),;]))""")


def tokens(text):
    out, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Unsupported(f'SQL: {text[i:i + 30]!r}')
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Rows:
    """Terms which count the slashes of a string, and what is known about them"""

    def __init__(self):
        self.facts = []

    def without(self, x, ch):
        """x without the characters ch"""
        x = lit(x)
        f = z3.Function(f'without {ch}', z3.StringSort(), z3.StringSort())
        n = z3.Length(x) - z3.Length(f(x))
        c = z3.StringVal(ch)
        rest = z3.SubString(x, 0, z3.Length(x) - 1)
        self.facts += [n >= 0, n <= z3.Length(x), (n == 0) == z3.Not(z3.Contains(x, c)),
                       z3.Implies(z3.SuffixOf(c, x), (n == 1) == z3.Not(z3.Contains(rest, c))),
                       z3.Implies(n == 1, z3.Contains(x, c))]
        return f(x)


class Parser:
    def __init__(self, text, params, row, cx, cols):
        self.t, self.i = tokens(text), 0
        self.params, self.np = list(params), 0
        self.row, self.cx, self.cols = row, cx, cols
        self.alias = {}

    def peek(self, k=0):
        return self.t[self.i + k][1].lower() if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def word(self, *ws):
        if self.peek() in ws and self.t[self.i][0] in ('id', 'op'):
            self.i += 1
            return True
        return False

    def need(self, w):
        if not self.word(w):
            raise Unsupported(f'SQL: {w} expected, {self.t[self.i:self.i + 4]}')

    # ---- expressions
    def expr(self):
        r = self.conj()
        while self.word('or'):
            r = Or(self.b(r), self.b(self.conj()))
        return r

    def conj(self):
        r = self.neg()
        while self.word('and'):
            x = self.neg()
            r = And(self.b(r), self.b(x))
        return r

    def neg(self):
        if self.word('not'):
            return Not(self.b(self.neg()))
        return self.cmp()

    def b(self, x):
        """A value as a condition"""
        if isinstance(x, bool) or isz(x) and z3.is_bool(x):
            return x
        if isinstance(x, int):
            return x != 0
        if isz(x) and x.sort() == z3.IntSort():
            return x != 0
        raise Unsupported('SQL: a string as a condition')

    def cmp(self):
        a = self.add()
        while True:
            neg = False
            if self.peek() == 'not' and self.peek(1) in ('in', 'like'):
                self.i += 1
                neg = True
            if self.word('in'):
                self.need('(')
                if self.peek() == 'select':
                    r = self.subselect(a)
                else:
                    r = False
                    while True:
                        r = Or(r, self.eq(a, self.expr()))
                        if not self.word(','):
                            break
                self.need(')')
                a = Not(r) if neg else r
            elif self.word('like'):
                p = self.add()
                r = self.like(a, p)
                a = Not(r) if neg else r
            elif self.peek() in ('=', '==', '!=', '<>', '<', '<=', '>', '>=', 'is') and self.t[self.i][0] in ('op', 'id'):
                o = self.next()[1].lower()
                if o == 'is':
                    o = '!=' if self.word('not') else '='
                    if self.word('null'):
                        a = o == '!='  # No column is null
                        continue
                b = self.add()
                if o in ('=', '=='):
                    a = self.eq(a, b)
                elif o in ('!=', '<>'):
                    a = Not(self.eq(a, b))
                else:
                    a = Cmp(o, a, b)
            else:
                return a

    def eq(self, a, b):
        sa, sb = (isinstance(x, str) or isz(x) and x.sort() == z3.StringSort() for x in (a, b))
        if sa != sb:
            raise Unsupported('SQL: a string is compared with a number')
        if sa:
            for x, y in ((a, b), (b, a)):
                if isz(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == 0 and \
                        simp(lit(x.arg(2))) is not None and z3.simplify(x.arg(2) == z3.Length(lit(y))).eq(z3.BoolVal(True)):
                    return z3.PrefixOf(lit(y), x.arg(0))
        return Eq(a, b)

    def like(self, a, p):
        if not isinstance(p, str):
            self.cx.vague = True
            return ubool('like', lit(a), lit(p))
        body = p.strip('%')
        if '%' in body or '_' in body or body.lower() != body.upper():
            self.cx.vague = True
            return ubool('like', lit(a), lit(p))
        s, e = p.startswith('%'), p.endswith('%')
        if body == '':
            return True if p else Eq(a, '')
        x, y = lit(a), z3.StringVal(body)
        return z3.Contains(x, y) if s and e else z3.SuffixOf(y, x) if s else z3.PrefixOf(y, x) if e else x == y

    def add(self):
        a = self.mul()
        while self.peek() in ('+', '-'):
            o = self.next()[1]
            b = self.mul()
            a = Add(a, b) if o == '+' else Sub(a, b)
        return a

    def mul(self):
        a = self.cat()
        while self.peek() in ('*', '/'):
            o = self.next()[1]
            b = self.cat()
            if o == '/':
                raise Unsupported('SQL: division')
            a = lit(a) * lit(b) if isz(a) or isz(b) else a * b
        return a

    def cat(self):
        a = self.prim()
        while self.word('||'):
            b = self.prim()
            a = a + b if isinstance(a, str) and isinstance(b, str) else z3.Concat(lit(a), lit(b))
        return a

    def param(self, s):
        if s == '?':
            self.np += 1
            k = self.np - 1
        else:
            k = int(s[1:]) - 1
        if k >= len(self.params):
            raise Unsupported('SQL: a parameter is missing')
        return self.params[k]

    def column(self, n):
        n = n.split('.')[-1].lower()
        if n in self.alias:
            return self.alias[n]
        if n in self.row:
            return self.row[n]
        return None

    def prim(self):
        k, s = self.next()
        if k == 'num':
            return int(s)
        if k == 'str':
            return s[1:-1].replace("''", "'")
        if k == 'qid':
            v = self.column(s[1:-1])
            return s[1:-1].replace('""', '"') if v is None else v
        if k == 'par':
            return self.param(s)
        if k == 'op' and s == '(':
            r = self.expr()
            self.need(')')
            return r
        if k == 'op' and s == '-':
            return Sub(0, self.prim())
        if k == 'id':
            if self.peek() == '(' and s.lower() in ('substr', 'length', 'replace', 'min', 'max', 'substring', 'coalesce', 'ifnull'):
                self.need('(')
                args = [self.expr()]
                while self.word(','):
                    args.append(self.expr())
                self.need(')')
                return self.call(s.lower(), args)
            v = self.column(s)
            if v is not None:
                return v
        raise Unsupported(f'SQL: {s!r}')

    def call(self, f, a):
        if f == 'length':
            return len(a[0]) if isinstance(a[0], str) else z3.Length(a[0])
        if f in ('substr', 'substring'):
            x = lit(a[0])
            p = a[1]
            # A position from 1 on; what is behind the end is empty
            if isinstance(p, int) and p < 1:
                raise Unsupported('SQL: substr from the end')
            o = simp(lit(Sub(p, 1)))
            if isz(p):
                self.cx.needs.append(lit(p) >= 1)
            n = z3.Length(x) - o if len(a) == 2 else lit(a[2])
            if len(a) == 3:
                self.cx.needs.append(n >= 0)
            return z3.SubString(x, o, n)
        if f == 'replace' and isinstance(a[1], str) and len(a[1]) == 1 and a[2] == '':
            return self.cx.without(a[0], a[1])
        if f in ('min', 'max') and len(a) == 1:
            return Agg(f, a[0])
        raise Unsupported(f'SQL: {f}({len(a)})')

    def subselect(self, a):
        """a in (select col from headers where cond): some row has it"""
        self.need('select')
        col = self.next()[1].lower()
        self.need('from')
        self.next()
        cond = True
        q = {k: z3.Const(f'other row {k}', lit(v).sort()) for k, v in self.row.items()}
        old, self.row = self.row, q
        if self.word('where'):
            cond = self.expr()
        self.row = old
        vs = list(q.values())
        f = ubool(f'some row with this {col} where {z3.simplify(lit(cond))}', lit(a))
        # What is known about it: nothing but that it is a condition on other rows
        self.cx.sub.append((f, a, col, cond, q))
        return f

    # ---- statements
    def where(self):
        """The condition of a statement's text which is only a condition"""
        r = self.b(self.expr())
        if self.i != len(self.t):
            raise Unsupported(f'SQL: {self.t[self.i:self.i + 4]}')
        return r

    def select(self):
        """select items from headers [where] [order by x [desc]] [limit n] -> Select"""
        self.need('select')
        start = self.i
        # The parameters are numbered in the order of the text: items first
        items = []
        while True:
            v = self.expr()
            nm = None
            k0 = self.t[self.i - 1]
            if self.word('as'):
                nm = self.next()[1].lower()
                self.alias[nm] = v
            elif k0[0] == 'id':
                nm = k0[1].split('.')[-1].lower()
            items.append((nm, v))
            if not self.word(','):
                break
        self.need('from')
        table = self.next()[1]
        cond, order, desc, limit = True, None, False, None
        if self.word('where'):
            cond = self.b(self.expr())
        if self.word('order'):
            self.need('by')
            order = self.expr()
            desc = self.word('desc')
            if not desc:
                self.word('asc')
        if self.word('limit'):
            limit = self.expr()
        self.word(';')
        if self.i != len(self.t):
            raise Unsupported(f'SQL: {self.t[self.i:self.i + 4]}')
        return dict(items=items, table=table, cond=cond, order=order, desc=desc, limit=limit)

    def update(self):
        self.need('update')
        table = self.next()[1]
        self.need('set')
        sets = {}
        while True:
            c = self.next()[1].lower()
            self.need('=')
            sets[c] = self.add()
            if not self.word(','):
                break
        cond = True
        if self.word('where'):
            cond = self.b(self.expr())
        self.word(';')
        if self.i != len(self.t):
            raise Unsupported(f'SQL: {self.t[self.i:self.i + 4]}')
        return dict(table=table, sets=sets, cond=cond)


class Agg:
    def __init__(self, f, x):
        self.f, self.x = f, x


class Ctx(Rows):
    def __init__(self):
        super().__init__()
        self.needs, self.sub, self.vague = [], [], False
