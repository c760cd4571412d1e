"""Instantiate-and-abstract back end for nonlinear real goals.

Sound by construction: the quantified facts are only instantiated, the ground facts only rewritten with
their own equalities, non-arithmetic terms become variables (equal terms the same variable), integers are
relaxed to reals.  The resulting pure nonlinear real arithmetic problem goes to z3's nlsat."""
import z3, time

CMP = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)
I = z3.IntSort(); R = z3.RealSort()


def has_real(e):
    stk = [e]; seen = set()
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_expr(x) and x.sort() == R: return True
        if z3.is_quantifier(x): continue
        stk += x.children()
    return False


def flatten(fs):
    out = []
    stk = list(reversed(fs))
    while stk:
        f = stk.pop()
        if z3.is_and(f): stk += reversed(f.children())
        elif z3.is_not(f) and z3.is_or(f.arg(0)): stk += [z3.Not(c) for c in reversed(f.arg(0).children())]
        elif z3.is_not(f) and z3.is_app_of(f.arg(0), z3.Z3_OP_IMPLIES): stk += [z3.Not(f.arg(0).arg(1)), f.arg(0).arg(0)]
        else: out.append(f)
    return out


def is_var(x): return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


def occurs(v, t):
    stk = [t]; seen = set()
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        stk += x.children()
    return False


def rec_args(fs, limit=14):
    out = []
    stk = list(fs); seen = set()
    while stk:
        x = stk.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 1:
            for a in x.children():
                if a.sort() == I and not any(a.eq(y) for y in out): out.append(a)
        if z3.is_select(x) and x.arg(1).sort() == I and not any(x.arg(1).eq(y) for y in out): out.append(x.arg(1))
        stk += x.children()
    return out[:limit]


class Abs:
    def __init__(s):
        s.vars = {}; s.side = []; s.cache = {}; s.keep = []

    def var(s, t):
        k = t.get_id()
        if k not in s.vars:
            s.vars[k] = z3.Real(f'v{len(s.vars)}'); s.keep.append(t)
        return s.vars[k]

    def term(s, t):
        k = t.get_id()
        if k in s.cache: return s.cache[k]
        r = s._term(t); s.cache[k] = r; s.keep.append(t)
        return r

    def _term(s, t):
        if z3.is_int_value(t): return z3.RealVal(t.as_long())
        if z3.is_rational_value(t): return t
        if z3.is_algebraic_value(t): return t
        d = t.decl().kind()
        if d == z3.Z3_OP_TO_REAL: return s.term(t.arg(0))
        if d == z3.Z3_OP_ADD: return z3.Sum([s.term(c) for c in t.children()])
        if d == z3.Z3_OP_SUB:
            c = [s.term(x) for x in t.children()]; r = c[0]
            for x in c[1:]: r = r - x
            return r
        if d == z3.Z3_OP_UMINUS: return -s.term(t.arg(0))
        if d == z3.Z3_OP_MUL: return z3.Product([s.term(c) for c in t.children()])
        if d == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and 0 < t.arg(1).as_long() < 6:
            return z3.Product([s.term(t.arg(0))] * t.arg(1).as_long())
        if d == z3.Z3_OP_DIV:
            a, b = s.term(t.arg(0)), s.term(t.arg(1))
            if z3.is_rational_value(b) and not z3.is_true(z3.simplify(b == 0)): return a / b
            q = s.var(t)
            s.side.append(z3.Or(b == 0, q * b == a))
            return q
        if d == z3.Z3_OP_ITE:
            c = s.form(t.arg(0))
            if c is not None: return z3.If(c, s.term(t.arg(1)), s.term(t.arg(2)))
        return s.var(t)

    def form(s, f):
        """None: not expressible"""
        if z3.is_true(f) or z3.is_false(f): return f
        if z3.is_quantifier(f): return None
        d = f.decl().kind()
        ch = f.children()
        if d == z3.Z3_OP_NOT and ch[0].decl().kind() in CMP and ch[0].arg(0).sort() == I:
            a, b = s.term(ch[0].arg(0)), s.term(ch[0].arg(1))   # strict comparison of integers
            return {z3.Z3_OP_LE: a >= b + 1, z3.Z3_OP_GE: b >= a + 1, z3.Z3_OP_LT: a >= b, z3.Z3_OP_GT: b >= a}[ch[0].decl().kind()]
        if d in (z3.Z3_OP_LT, z3.Z3_OP_GT) and ch[0].sort() == I:
            a, b = s.term(ch[0]), s.term(ch[1])
            return a + 1 <= b if d == z3.Z3_OP_LT else b + 1 <= a
        if d in CMP:
            a, b = s.term(ch[0]), s.term(ch[1])
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GT: a > b}[d]
        if d == z3.Z3_OP_EQ and ch[0].sort() in (I, R): return s.term(ch[0]) == s.term(ch[1])
        if d == z3.Z3_OP_DISTINCT and len(ch) == 2 and ch[0].sort() in (I, R): return s.term(ch[0]) != s.term(ch[1])
        if d in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_XOR):
            cs = [s.form(c) if z3.is_bool(c) else None for c in ch]
            if any(c is None for c in cs): return None
            if d == z3.Z3_OP_NOT: return z3.Not(cs[0])
            if d == z3.Z3_OP_AND: return z3.And(cs)
            if d == z3.Z3_OP_OR: return z3.Or(cs)
            if d == z3.Z3_OP_IMPLIES: return z3.Implies(cs[0], cs[1])
            if d == z3.Z3_OP_ITE: return z3.If(cs[0], cs[1], cs[2])
            if d == z3.Z3_OP_EQ: return cs[0] == cs[1]
            if d == z3.Z3_OP_XOR: return z3.Xor(cs[0], cs[1])
        if z3.is_bool(f):
            k = ('b', f.get_id())
            if k not in s.vars:
                s.vars[k] = z3.Bool(f'b{len(s.vars)}'); s.keep.append(f)
            return s.vars[k]
        return None


def eliminate(ground):
    """rewrite with the equalities  var == term  among the facts"""
    sub = []
    les = {}; eqs = []
    for f in ground:
        neg_ = z3.is_not(f)
        g = f.arg(0) if neg_ else f
        if z3.is_le(g) or z3.is_ge(g):
            if g.arg(0).sort() != I and neg_: continue
            a, b = (g.arg(0), g.arg(1)) if z3.is_le(g) else (g.arg(1), g.arg(0))
            if neg_: a, b = b + 1, a
            t = z3.simplify(a - b, som=True)
            m = z3.simplify(b - a, som=True)
            if m.get_id() in les: eqs.append((a, b))
            les[t.get_id()] = t
    for a, b in eqs:
        d = z3.simplify(a - b, som=True)
        for v in (a, b):
            w = z3.simplify(v)
            if is_var(w):
                t = z3.simplify(w - d, som=True) if w.eq(z3.simplify(a)) else z3.simplify(w + d, som=True)
                if not occurs(w, t): ground = ground + [w == t]; break
    for f in ground:
        if not (z3.is_eq(f)): continue
        a, b = f.arg(0), f.arg(1)
        if sub: a, b = z3.simplify(z3.substitute(a, sub)), z3.simplify(z3.substitute(b, sub))
        for v, t in ((a, b), (b, a)):
            if is_var(v) and not occurs(v, t):
                sub = [(x, z3.simplify(z3.substitute(y, (v, t)))) for x, y in sub] + [(v, t)]
                break
    return sub


def unsat(facts, neg, timeout=3000, limit=14):
    """True if facts /\\ neg is shown unsatisfiable"""
    facts = flatten(facts); neg = flatten([neg])
    ground = [f for f in facts if not z3.is_quantifier(f)]
    quants = [f for f in facts if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I]
    sub = eliminate(ground + neg)
    S = (lambda f: z3.simplify(z3.substitute(f, sub), som=True)) if sub else (lambda f: z3.simplify(f, som=True))
    ground = [S(f) for f in ground]; neg = [S(f) for f in neg]
    if any(z3.is_false(f) for f in ground + neg): return True
    insts = []; done = set()
    cur = neg
    for rnd in range(2):
        ts = rec_args(cur, limit)
        new = []
        for t in ts:
            extra = [t]
            if z3.is_add(t) or not is_var(t): extra.append(z3.simplify(t - 1))
            for u in extra:
                if u.get_id() in done: continue
                done.add(u.get_id()); insts.append(('k', u))
                for q in quants:
                    new.append(S(z3.substitute_vars(q.body(), u)))
        cur = flatten(new)
        insts += cur
    insts = [x for x in insts if not isinstance(x, tuple)]
    # facts connected with the goal
    A = Abs()
    goal = [A.form(f) for f in neg]
    if any(g is None for g in goal): return False
    fs = []
    for f in ground + insts:
        if z3.is_true(f): continue
        g = A.form(f)
        if g is not None and not any(g.eq(x) for x in fs[-0:] if False): fs.append(g)
    side = list(A.side)

    def names(f):
        out = set(); stk = [f]; seen = set()
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if is_var(x): out.add(x.decl().name())
            stk += x.children()
        return out
    rel = set()
    for g in goal: rel |= names(g)
    pool = [(f, names(f)) for f in fs + side]
    sel = []
    for depth in range(3):
        add = [(f, n) for f, n in pool if n & rel]
        pool = [(f, n) for f, n in pool if not (n & rel)]
        sel += [f for f, n in add]
        before = set(rel)
        for f, n in add: rel |= n
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout)
        for g in goal + sel: s.add(g)
        r = s.check()
        if r == z3.unsat: return True
        if rel == before or not pool: break
    return False
