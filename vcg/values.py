import z3


class Unsupported(Exception):
    pass


I = z3.IntSort()


def iv(n):
    return z3.IntVal(n)


def is_const(t):
    return z3.is_int_value(t)


def cval(t):
    return t.as_long()


def simp(t):
    return z3.simplify(t, som=True, mul_to_power=False) if z3.is_arith(t) else z3.simplify(t)


def const_cases(t, depth=4):
    """[(condition or None, constant)] when t is a nest of conditionals over constants (plus a constant), else None"""
    if is_const(t): return [(None, cval(t))]
    if depth == 0: return None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = const_cases(t.arg(1), 0), const_cases(t.arg(2), depth - 1)
        return None if a is None or b is None else [(t.arg(0), a[0][1])] + b
    if z3.is_app_of(t, z3.Z3_OP_ADD) and t.num_args() == 2 and is_const(t.arg(0)):
        r = const_cases(t.arg(1), depth)
        return None if r is None else [(c, v + cval(t.arg(0))) for c, v in r]
    return None


def times(x, y):
    """product, by cases where one factor is one of a few constants"""
    if not is_const(x) and not is_const(y):
        for a, b in ((x, y), (y, x)):
            cs = const_cases(simp(a))
            if cs and len(cs) > 1:
                r = simp(cs[-1][1] * b)
                for c, v in reversed(cs[:-1]): r = z3.If(c, simp(v * b), r)
                return r
    return x * y


class IntV:
    """w-bit integer; bit pattern is t mod 2^w.  u: 0<=t<2^w known.  s: signed range known"""
    __slots__ = ('w', 't', 'u', 's')

    def __init__(self, w, t, u=False, s=False):
        if isinstance(t, int):
            t = z3.IntVal(t)
        if z3.is_int_value(t):
            c = t.as_long()
            m = 1 << w
            if not (-(m >> 1) <= c < m):
                c = (c + (m >> 1)) % m - (m >> 1)
                t = z3.IntVal(c)
            u = 0 <= c
            s = c < (m >> 1)
        self.w = w; self.t = t; self.u = u; self.s = s

    def __repr__(self):
        return f'i{self.w}({self.t}{"u" if self.u else ""}{"s" if self.s else ""})'


class FltV:
    __slots__ = ('w', 't')

    def __init__(self, w, t):
        self.w = w; self.t = t

    def __repr__(self):
        return f'f{self.w}({self.t})'


class Root:
    cnt = 0

    def __init__(self, name, kind, size=None):
        Root.cnt += 1
        self.id = Root.cnt; self.name = name; self.kind = kind; self.size = size

    def __repr__(self):
        return f'{self.name}#{self.id}'


class Ptr:
    """root + chain of vector dereferences (header offset, element index) + byte offset"""
    __slots__ = ('root', 'chain', 'off')

    def __init__(self, root, chain=(), off=0):
        self.root = root; self.chain = chain; self.off = off

    @property
    def hdrs(self):
        return tuple(h for h, _ in self.chain)

    @property
    def idxs(self):
        return tuple(i for _, i in self.chain)

    def add(self, n):
        return Ptr(self.root, self.chain, self.off + n)

    def elem(self, idx):
        return Ptr(self.root, self.chain + ((self.off, idx),), 0)

    def __repr__(self):
        return f'&{self.root}{list(self.chain)}+{self.off}'


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn:' + self.name


class NullT:
    def __repr__(self):
        return 'null'


NULL = NullT()


class PtrInt:
    """result of ptrtoint"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
OPQ = Undef()   # read from the unmodelled part of an object (streams): reads through it stay unmodelled, writes are refused
