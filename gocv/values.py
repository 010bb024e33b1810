"""Symbolic values of the verifier: Python constants, z3 terms and the composite values below. All are immutable."""
import z3


class PtrV:
    """A pointer: `nil` (bool or z3), the object it points into and the path inside of it."""
    __slots__ = ('nil', 'root', 'path')

    def __init__(self, nil, root=None, path=()):
        self.nil, self.root, self.path = nil, root, tuple(path)

    def __repr__(self):
        return 'nil' if self.nil is True else f'&{self.root}{list(self.path) or ""}{"" if self.nil is False else "?"}'


class StructV:
    """A struct, lazily: fields which are not in `over` are derived from the label."""
    __slots__ = ('t', 'label', 'over')

    def __init__(self, t, label, over=None):
        self.t, self.label, self.over = t, label, over or {}

    def __repr__(self):
        return f'{self.label}{{{self.over}}}'


class ArrV:
    """The elements of an array or of the backing array of a slice. `over`: writes, oldest first, as
    (start, length, kind, source): kind 'val' writes one value, kind 'arr' copies from (ArrV, offset).
    `content`: for bytes, the content as a z3 string or a Python string, if it is known; valid without `over`."""
    __slots__ = ('et', 'label', 'over', 'content', 'zero')

    def __init__(self, et, label, over=(), content=None, zero=False):
        self.et, self.label, self.over, self.content, self.zero = et, label, tuple(over), content, zero

    def __repr__(self):
        return f'[{self.label} {self.over} {self.content}]'


class SliceV:
    __slots__ = ('nil', 'root', 'path', 'off', 'len', 'et')

    def __init__(self, nil, root, off, len, et, path=()):
        self.nil, self.root, self.off, self.len, self.et, self.path = nil, root, off, len, et, tuple(path)

    def __repr__(self):
        return f'slice({self.root}+{self.off} len {self.len} nil {self.nil})'


class IfaceV:
    """An interface: `dyn` is the dynamic type id if it is known (then `val` is the value)."""
    __slots__ = ('nil', 'dyn', 'val', 'label', 'kind')

    def __init__(self, nil, dyn=None, val=None, label=None, kind=None):
        self.nil, self.dyn, self.val, self.label, self.kind = nil, dyn, val, label, kind

    def __repr__(self):
        return 'nil-iface' if self.nil is True else f'iface({self.label if self.dyn is None else self.val})'


class ErrV:
    """An error: an Int term, 0 is nil."""
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f'err({self.term})'


class MapV:
    __slots__ = ('nil', 'root', 't')

    def __init__(self, nil, root, t):
        self.nil, self.root, self.t = nil, root, t

    def __repr__(self):
        return f'map({self.root})'


class MapC:
    """The content of a map[string]string."""
    __slots__ = ('dom', 'arr')

    def __init__(self, dom, arr):
        self.dom, self.arr = dom, arr

    def __repr__(self):
        return f'{{{self.dom} {self.arr}}}'


class FuncV:
    """A function: `name` of a known one with its bindings, or an opaque one with a label and a kind."""
    __slots__ = ('nil', 'name', 'binds', 'label', 'kind', 'recv')

    def __init__(self, nil, name=None, binds=(), label=None, kind=None, recv=None):
        self.nil, self.name, self.binds, self.label, self.kind, self.recv = nil, name, tuple(binds), label, kind, recv

    def __repr__(self):
        return 'nil-func' if self.nil is True else f'func({self.name or self.label})'


class TupleV:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f'tuple{self.items}'


class OpaqueV:
    __slots__ = ('t', 'label')

    def __init__(self, t, label):
        self.t, self.label = t, label

    def __repr__(self):
        return f'opaque({self.label})'


def isz(x):
    return isinstance(x, z3.ExprRef)


def scalar(x):
    return isz(x) or isinstance(x, (bool, int, str)) or type(x).__name__ == 'Fraction'


def lit(x):
    """A z3 term for a scalar."""
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, str):
        return z3.StringVal(x)
    return z3.RealVal(str(x))


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def And(*xs):
    r = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            r.append(x)
    return True if not r else r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            r.append(x)
    return False if not r else r[0] if len(r) == 1 else z3.Or(*r)


def Imp(a, b):
    return Or(Not(a), b)


def Eq(a, b):
    """Equality of two values as a condition; None if it is not expressible."""
    if isinstance(a, ErrV) and isinstance(b, ErrV):
        return Eq(a.term, b.term)
    if scalar(a) and scalar(b):
        if not isz(a) and not isz(b):
            return a == b
        a, b = lit(a), lit(b)
        if z3.eq(a, b):
            return True
        if a.sort() != b.sort():
            if a.sort() == z3.RealSort() or b.sort() == z3.RealSort():
                return a == b
            return None
        return z3.simplify(a == b) if z3.is_int_value(a) and z3.is_int_value(b) else a == b
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.nil is True and b.nil is True:
            return True
        if a.nil is True:
            return b.nil
        if b.nil is True:
            return a.nil
        if a.root == b.root and a.path == b.path:
            return Or(And(a.nil, b.nil), And(Not(a.nil), Not(b.nil))) if a.nil is not b.nil else True
        return And(a.nil, b.nil)
    if isinstance(a, (IfaceV, ErrV)) and isinstance(b, (IfaceV, ErrV)):
        if isinstance(a, ErrV):
            a, b = b, a
        an, bn = nilof(a), nilof(b)
        if an is True:
            return bn
        if bn is True:
            return an
        if isinstance(b, ErrV):
            return None
        if a.dyn is not None and a.dyn == b.dyn:
            return Eq(a.val, b.val)
        if a.label is not None and a.label == b.label:
            return True
        return None
    if isinstance(a, StructV) and isinstance(b, StructV) and a.label == b.label and not a.over and not b.over:
        return True
    if isinstance(a, (FuncV, SliceV, MapV)) and isinstance(b, (FuncV, SliceV, MapV)):
        if b.nil is True:
            return a.nil
        if a.nil is True:
            return b.nil
    return None


def nilof(v):
    if isinstance(v, ErrV):
        return Eq(v.term, 0)
    if v is None:
        return True
    return v.nil


def Add(a, b):
    if isinstance(a, str) and isinstance(b, str) or (not isz(a) and not isz(b)):
        return a + b
    if isinstance(a, str) or isinstance(b, str) or (isz(a) and z3.is_string(a)):
        if a == '' if isinstance(a, str) else False:
            return b
        if b == '' if isinstance(b, str) else False:
            return a
        return z3.Concat(lit(a), lit(b))
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return lit(a) + lit(b)


def Sub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    if isz(a) and isz(b) and z3.eq(a, b):
        return 0
    return lit(a) - lit(b)


def Mul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not isz(x) and x == 0:
            return 0
        if not isz(x) and x == 1:
            return y
    return lit(a) * lit(b)


def Cmp(op, a, b):
    if not isz(a) and not isz(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    a, b = lit(a), lit(b)
    if z3.is_string(a):
        return {'<': a < b, '<=': a <= b, '>': b < a, '>=': b <= a}[op]
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def simp(x):
    """A Python constant if the term is one."""
    if not isz(x):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_string_value(x):
        return x.as_string()
    return x


class Box:
    """A ghost which is compared by identity."""

    def __init__(self, v):
        self.v = v
