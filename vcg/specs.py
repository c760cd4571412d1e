"""Specification functions of the contracts: SMT symbols, defining axioms and
lemmas.  Every lemma is itself a proof obligation (Specs.lemma_obligations)."""
import z3
from values import *

A1 = z3.ArraySort(I, I)


class Specs:
    def __init__(s, eng):
        s.e = eng
        s.DIVf = z3.Function('DIV', I, I, I)
        s.MODf = z3.Function('MOD', I, I, I)
        s.used = []
        s.hide = set()
        s._ax = {}
        s.facts_done = set()
        s.extra = []

    def use(s, fam):
        if fam not in s.used:
            s.used.append(fam)
            s._ax[fam] = getattr(s, 'ax_' + fam)()

    def axioms(s):
        r = []
        for f in s.used: r += [x[1] if isinstance(x, tuple) else x for x in s._ax[f] if not (isinstance(x, tuple) and x[0] in s.hide)]
        return r + s.extra

    # ---------------------------------------------------------- div / mod
    def DIV(s, a, b):
        if is_const(b) and cval(b) > 0: return simp(a / b)
        s.use('divmod'); return s.DIVf(a, b)

    def MOD(s, a, b):
        if is_const(b) and cval(b) > 0: return simp(a % b)
        s.use('divmod'); return s.MODf(a, b)

    def divfacts(s, st, a, b):
        pass

    def ax_divmod(s):
        a, b = z3.Ints('a b')
        D, M = s.DIVf(a, b), s.MODf(a, b)
        return [
            z3.ForAll([a, b], z3.Implies(b > 0, z3.And(a == b * D + M, M >= 0, M < b)), patterns=[M]),
            z3.ForAll([a, b], z3.Implies(b > 0, z3.And(a == b * D + M, M >= 0, M < b)), patterns=[D]),
            z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b), z3.And(M == a, D == 0)), patterns=[M]),
            z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b), z3.And(M == a, D == 0)), patterns=[D]),
            z3.ForAll([a, b], z3.Implies(z3.And(a >= b, a < 2 * b), M == a - b), patterns=[M]),
            z3.ForAll([a, b], z3.Implies(z3.And(a < 0, a >= -b), M == a + b), patterns=[M]),
            z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b > 0), z3.And(D >= 0, D <= a)), patterns=[D]),
            z3.ForAll([a], z3.And(s.MODf(a, 1) == 0, s.DIVf(a, 1) == a), patterns=[s.MODf(a, 1)]),
            z3.ForAll([a], z3.And(s.DIVf(a, 1) == a), patterns=[s.DIVf(a, 1)]),
        ]

    # ---------------------------------------------------------- suffix products / mixed radix
    def SP(s, A, n, k):
        s.use('sp'); return s.spf(A, n, k)

    @property
    def spf(s): return z3.Function('SP', A1, I, I, I)

    @property
    def ppf(s): return z3.Function('PP', A1, I, I)

    @property
    def coordf(s): return z3.Function('COORD', A1, I, I, I, I)

    @property
    def digf(s): return z3.Function('DIG', A1, I, A1, I, I)

    def PP(s, A, n, k):
        s.use('sp'); s.use('pp'); return s.ppf(A, k)

    def COORD(s, A, n, i, k):
        s.use('sp'); s.use('divmod'); s.use('coord'); return s.coordf(A, n, i, k)

    def DIG(s, A, n, C, k):
        s.use('sp'); s.use('divmod'); s.use('coord'); s.use('dig'); return s.digf(A, n, C, k)

    # POS(A,n): all extents positive.  Introduced only where proved (vf_positive)
    @property
    def posf(s): return z3.Function('POS', A1, I, z3.BoolSort())

    # GRID(A,n,C): 0<=C[k]<A[k] for all k<n.  Introduced only where proved
    @property
    def ongridf(s): return z3.Function('ONGRID', A1, I, A1, z3.BoolSort())

    def ax_sp(s):
        A = z3.Const('A', A1); n, k = z3.Ints('n k')
        SP, POS = s.spf, s.posf
        Ak = z3.Select(A, k)
        return [
            z3.ForAll([A, n], SP(A, n, n) == 1, patterns=[SP(A, n, n)]),
            ('def', z3.ForAll([A, n, k], z3.Implies(z3.And(0 <= k, k < n), SP(A, n, k) == Ak * SP(A, n, k + 1)),
                      patterns=[z3.MultiPattern(SP(A, n, k), Ak)])),
            z3.ForAll([A, n, k], z3.Implies(k == n, SP(A, n, k) == 1), patterns=[SP(A, n, k)]),
            # lemma (induction): extents positive => suffix products within [1, SP(0)]
            z3.ForAll([A, n, k], z3.Implies(z3.And(POS(A, n), 0 <= k, k <= n), z3.And(SP(A, n, k) >= 1, SP(A, n, k) <= SP(A, n, 0))),
                      patterns=[SP(A, n, k)]),
            # lemma (induction): each extent divides, hence is bounded by, the suffix product
            ('def', z3.ForAll([A, n, k], z3.Implies(z3.And(POS(A, n), 0 <= k, k < n), z3.And(Ak >= 1, Ak <= SP(A, n, k), SP(A, n, k + 1) <= SP(A, n, k))),
                      patterns=[z3.MultiPattern(SP(A, n, k), Ak)])),
            ('def', z3.ForAll([A, n, k], z3.Implies(z3.And(POS(A, n), 0 <= k, k < n), s.DIVf(SP(A, n, k), Ak) == SP(A, n, k + 1)),
                      patterns=[s.DIVf(SP(A, n, k), Ak)])),
            z3.ForAll([A, n, k], z3.Implies(z3.And(POS(A, n), 0 <= k, k < n), z3.And(Ak >= 1, Ak <= SP(A, n, 0))),
                      patterns=[z3.MultiPattern(POS(A, n), Ak)]),
        ]

    def ax_pp(s):
        A = z3.Const('A', A1); n, k = z3.Ints('n k')
        PP, SP, POS = s.ppf, s.spf, s.posf
        Ak = z3.Select(A, k)
        return [
            z3.ForAll([A], PP(A, 0) == 1, patterns=[PP(A, 0)]),
            z3.ForAll([A, k], z3.Implies(k >= 0, PP(A, k + 1) == PP(A, k) * Ak), patterns=[z3.MultiPattern(PP(A, k), Ak)]),
            # lemma: PP(k)*SP(k) = SP(0)
            z3.ForAll([A, n, k], z3.Implies(z3.And(0 <= k, k <= n), PP(A, k) * SP(A, n, k) == SP(A, n, 0)),
                      patterns=[z3.MultiPattern(PP(A, k), SP(A, n, 0))]),
            z3.ForAll([A, n, k], z3.Implies(z3.And(k == n, k >= 0), PP(A, k) == SP(A, n, 0)),
                      patterns=[z3.MultiPattern(PP(A, k), SP(A, n, 0))]),
            z3.ForAll([A, n, k], z3.Implies(z3.And(POS(A, n), 0 <= k, k <= n), z3.And(PP(A, k) >= 1, PP(A, k) <= SP(A, n, 0))),
                      patterns=[z3.MultiPattern(PP(A, k), POS(A, n))]),
        ]

    def ax_coord(s):
        s.use('divmod'); s.use('sp')
        A = z3.Const('A', A1); n, k, i = z3.Ints('n k i')
        SP, POS, CO, D, M = s.spf, s.posf, s.coordf, s.DIVf, s.MODf
        Ak = z3.Select(A, k)
        h = z3.And(POS(A, n), 0 <= k, k < n, i >= 0)
        return [
            # definition
            ('def', z3.ForAll([A, n, i, k], z3.Implies(h, CO(A, n, i, k) == M(D(i, SP(A, n, k + 1)), Ak)), patterns=[CO(A, n, i, k)])),
            z3.ForAll([A, n, i, k], z3.Implies(h, z3.And(CO(A, n, i, k) >= 0, CO(A, n, i, k) < Ak)), patterns=[CO(A, n, i, k)]),
            # lemmas: one step of the mixed-radix expansion
            ('def', z3.ForAll([A, n, i, k], z3.Implies(h, D(M(i, SP(A, n, k)), SP(A, n, k + 1)) == CO(A, n, i, k)),
                      patterns=[z3.MultiPattern(M(i, SP(A, n, k)), Ak)])),
            ('def', z3.ForAll([A, n, i, k], z3.Implies(h, M(M(i, SP(A, n, k)), SP(A, n, k + 1)) == M(i, SP(A, n, k + 1))),
                      patterns=[z3.MultiPattern(M(i, SP(A, n, k)), Ak)])),
            ('def', z3.ForAll([A, n, i, k], z3.Implies(h, M(i, SP(A, n, k)) == CO(A, n, i, k) * SP(A, n, k + 1) + M(i, SP(A, n, k + 1))),
                      patterns=[z3.MultiPattern(M(i, SP(A, n, k)), Ak), CO(A, n, i, k)])),
        ]

    def ax_dig(s):
        A, C = z3.Consts('A C', A1); n, k, i = z3.Ints('n k i')
        SP, POS, CO, D, M, DG, OG = s.spf, s.posf, s.coordf, s.DIVf, s.MODf, s.digf, s.ongridf
        Ck = z3.Select(C, k)
        return [
            z3.ForAll([A, n, C, k], z3.Implies(k == n, DG(A, n, C, k) == 0), patterns=[DG(A, n, C, k)]),
            ('def', z3.ForAll([A, n, C, k], z3.Implies(z3.And(0 <= k, k < n), DG(A, n, C, k) == Ck * SP(A, n, k + 1) + DG(A, n, C, k + 1)),
                      patterns=[z3.MultiPattern(DG(A, n, C, k), Ck)])),
            # lemma: on-grid coordinates give an index below the suffix product
            z3.ForAll([A, n, C, k], z3.Implies(z3.And(POS(A, n), OG(A, n, C), 0 <= k, k <= n),
                                               z3.And(DG(A, n, C, k) >= 0, DG(A, n, C, k) < SP(A, n, k), DG(A, n, C, k) <= DG(A, n, C, 0))),
                      patterns=[DG(A, n, C, k)]),
            ('def', z3.ForAll([A, n, C, k], z3.Implies(z3.And(POS(A, n), OG(A, n, C), 0 <= k, k < n),
                                               z3.And(Ck >= 0, Ck < z3.Select(A, k), Ck * SP(A, n, k + 1) >= 0, Ck * SP(A, n, k + 1) <= DG(A, n, C, k))),
                      patterns=[z3.MultiPattern(DG(A, n, C, k), Ck)])),
            # lemma: the coordinates of the index are the coordinates
            z3.ForAll([A, n, C, k], z3.Implies(z3.And(POS(A, n), OG(A, n, C), 0 <= k, k <= n), M(DG(A, n, C, 0), SP(A, n, k)) == DG(A, n, C, k)),
                      patterns=[M(DG(A, n, C, 0), SP(A, n, k))]),
            z3.ForAll([A, n, C, k], z3.Implies(z3.And(POS(A, n), OG(A, n, C), 0 <= k, k < n), CO(A, n, DG(A, n, C, 0), k) == Ck),
                      patterns=[CO(A, n, DG(A, n, C, 0), k)]),
        ]

    # ---------------------------------------------------------- greatest common divisor of two naturals
    # defined by Euclid's recursion; GX GY: Bezout coefficients; GA GB: the quotients
    @property
    def gcdf(s): return z3.Function('GCD', I, I, I)

    def GCD(s, a, b):
        s.use('divmod'); s.use('gcd'); return s.gcdf(a, b)

    def ax_gcd(s):
        a, b = z3.Ints('a b'); G, M, D = s.gcdf, s.MODf, s.DIVf
        g = G(a, b)
        nn = z3.And(a >= 0, b >= 0)
        return [
            # definition
            z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b == 0), g == a), patterns=[g]),
            z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b > 0), g == G(b, M(a, b))), patterns=[z3.MultiPattern(g, M(a, b))]),
            # lemmas
            z3.ForAll([a, b], z3.Implies(nn, z3.And(g >= 0, g <= a + b, z3.Implies(a + b > 0, g >= 1), z3.Implies(a > 0, g <= a), z3.Implies(b > 0, g <= b))), patterns=[g]),
            z3.ForAll([a, b], z3.Implies(nn, g == G(b, a)), patterns=[g]),
            z3.ForAll([a, b], z3.Implies(z3.And(nn, a + b > 0), z3.And(a == g * D(a, g), M(a, g) == 0, D(a, g) >= 0)), patterns=[D(a, g), M(a, g)]),
            z3.ForAll([a, b], z3.Implies(z3.And(nn, a + b > 0), z3.And(b == g * D(b, g), M(b, g) == 0, D(b, g) >= 0)), patterns=[D(b, g), M(b, g)]),
            z3.ForAll([a, b], z3.Implies(z3.And(nn, a + b > 0), G(D(a, g), D(b, g)) == 1), patterns=[G(D(a, g), D(b, g))]),
            z3.ForAll([b], z3.Implies(b >= 0, z3.And(G(1, b) == 1, G(b, 1) == 1)), patterns=[G(1, b)]),
            z3.ForAll([b], z3.Implies(b >= 0, z3.And(G(1, b) == 1, G(b, 1) == 1)), patterns=[G(b, 1)]),
        ]

    def lem_gcd(s):
        s.lem_divmod()
        a, b, x, y, A, B, g, m, q, u, v, h, H, K, d, c, e = z3.Ints('a b x y A B g m q u v h H K d c e')
        G = s.gcdf
        # P(a,b): g = GCD(a,b) >= 0, a*x + b*y = g, a = g*A, b = g*B, A,B >= 0 for some x y A B.  By strong induction on b.
        base = [a >= 0, b == 0, g == a]
        step = [a >= 0, b > 0, a == b * q + m, m >= 0, m < b, q >= 0, g >= 0, b * x + m * y == g, b == g * A, m == g * B, A >= 0, B >= 0]
        L = [('base', base, z3.And(g >= 0, a * 1 + b * 0 == g, a == g * 1, b == g * 0)),
             ('bezout/step', [a == b * q + m, b * x + m * y == g], a * y + b * (x - q * y) == g),
             ('divides/step', [a == b * q + m, b == g * A, m == g * B], z3.And(a == g * (q * A + B), b == g * A)),
             ('quotients-nonneg/step', [q >= 0, A >= 0, B >= 0], q * A + B >= 0),
             ('positive/base', [a + b > 0, b == 0, g == a], g >= 1),
             ('positive/step', [b > 0, b + m > 0, z3.Implies(b + m > 0, g >= 1)], g >= 1),
             ('below', [g >= 1, A >= 0, a == g * A, a > 0, z3.Implies(A >= 1, g * (A - 1) >= 0), z3.Implies(A == 0, g * A == 0)], g <= a),
             ('below-premise', [g >= 1, A >= 1], g * (A - 1) >= 0),
             ('below-zero', [A == 0], g * A == 0),
             ('quotient', [g >= 1, a == g * A, s.df(a, g), s.uq(g, s.DIVf(a, g), s.MODf(a, g), A, iv(0))], z3.And(s.DIVf(a, g) == A, s.MODf(a, g) == 0)),
             ('coprime-1', [g >= 1, a * x + b * y == g, a == g * A, b == g * B], g * (A * x + B * y) == g),
             ('cancel', [g >= 1, g * u == g, z3.Implies(u > 1, g * (u - 2) >= 0), z3.Implies(u < 1, g * (0 - u) >= 0)], u == 1),
             ('cancel-premise', [g >= 1], z3.And(z3.Implies(u > 1, g * (u - 2) >= 0), z3.Implies(u < 1, g * (0 - u) >= 0))),
             ('coprime-2', [A * x + B * y == 1, A == h * H, B == h * K], h * (H * x + K * y) == 1),
             ('unit', [h >= 0, h * u == 1, z3.Implies(z3.And(h >= 2, u >= 1), h * u >= 2), z3.Implies(z3.And(h >= 0, u <= 0), h * u <= 0), z3.Implies(h == 0, h * u == 0)], h == 1),
             ('unit-premise', [], z3.And(z3.Implies(z3.And(h >= 2, u >= 1), h * u >= 2), z3.Implies(z3.And(h >= 0, u <= 0), h * u <= 0), z3.Implies(h == 0, h * u == 0))),
             # every common divisor divides the gcd, hence symmetry: g = GCD(a,b), h = GCD(b,a) divide each other
             ('common-divisor', [a * x + b * y == g, a == h * H, b == h * K], g == h * (H * x + K * y)),
             ('mutual', [g >= 1, h >= 1, g == h * u, h == g * v, z3.Implies(u >= 1, h * (u - 1) >= 0), z3.Implies(v >= 1, g * (v - 1) >= 0), z3.Implies(u <= 0, h * u <= 0), z3.Implies(v <= 0, g * v <= 0)], g == h),
             ('mutual-premise', [g >= 1, h >= 1], z3.And(z3.Implies(u >= 1, h * (u - 1) >= 0), z3.Implies(v >= 1, g * (v - 1) >= 0), z3.Implies(u <= 0, h * u <= 0), z3.Implies(v <= 0, g * v <= 0))),
             ('one', [g >= 0, g * A == 1, z3.Implies(z3.And(g >= 2, A >= 1), g * A >= 2), z3.Implies(z3.And(g >= 0, A <= 0), g * A <= 0), z3.Implies(g == 0, g * A == 0)], g == 1)]
        # coprime pairs with equal ratio are equal: a*d == c*b, GCD(a,b) = GCD(c,d) = 1
        L += [('ratio-1', [a * x + b * y == 1, a * d == c * b], b * (c * x + d * y) == d),
              # b divides d and (symmetrically) d divides b, so b == d by 'mutual'
              ('ratio-3', [b >= 1, a * b == c * b, z3.Implies(a > c, b * (a - c - 1) >= 0), z3.Implies(c > a, b * (c - a - 1) >= 0)], a == c),
              ('ratio-3-premise', [b >= 1], z3.And(z3.Implies(a > c, b * (a - c - 1) >= 0), z3.Implies(c > a, b * (c - a - 1) >= 0)))]
        return L

    # ---------------------------------------------------------- lemma proofs
    def lemma_obligations(s):
        """[(family, name, hypotheses, goal)]: every axiom above that is not a definition, as ground
        obligations (base case and induction step where it is by induction)."""
        r = []
        for f in s.used:
            r += [(f,) + x for x in getattr(s, 'lem_' + f, lambda: [])()]
        return r

    def lem_divmod(s):
        a, b, x, y, u, v = z3.Ints('a b x y u v')
        D, M = s.DIVf, s.MODf
        df = lambda a, b: z3.Implies(b > 0, z3.And(a == b * D(a, b) + M(a, b), M(a, b) >= 0, M(a, b) < b))
        uq = lambda b, x, u, y, v: z3.Implies(z3.And(b > 0, b * x + u == b * y + v, u >= 0, u < b, v >= 0, v < b), z3.And(x == y, u == v))
        s.uq, s.df = uq, df
        m1 = lambda x, y, b: z3.Implies(z3.And(b > 0, x > y), b * x >= b * y + b)   # monotonicity instance
        L = [('monotone', [b > 0, x > y, b * (x - y - 1) >= 0], b * x >= b * y + b),
             ('monotone-premise', [b > 0, x > y], b * (x - y - 1) >= 0),
             ('unique', [m1(x, y, b), m1(y, x, b), b > 0, b * x + u == b * y + v, u >= 0, u < b, v >= 0, v < b], z3.And(x == y, u == v))]
        q, m = D(a, b), M(a, b)
        L += [('small', [df(a, b), uq(b, q, m, iv(0), a), a >= 0, a < b, b * 0 == 0], z3.And(m == a, q == 0)),
              ('one-wrap', [df(a, b), uq(b, q, m, iv(1), a - b), a >= b, a < 2 * b], m == a - b),
              ('one-wrap-neg', [df(a, b), uq(b, q, m, iv(-1), a + b), a < 0, a >= -b], m == a + b),
              ('quotient-nonneg', [df(a, b), m1(iv(0), q, b), a >= 0, b > 0], q >= 0),
              ('quotient-bound', [df(a, b), q >= 0, a >= 0, b > 0, z3.Implies(z3.And(b >= 1, q >= 0), b * q >= q)], q <= a),
              ('quotient-bound-premise', [b >= 1, q >= 0], b * q >= q),
              ('shifted', [df(a, b), df(m + v, b), df(a + v, b), uq(b, q + D(m + v, b), M(m + v, b), D(a + v, b), M(a + v, b)), b > 0], M(m + v, b) == M(a + v, b)),
              ('unit', [df(a, iv(1))], z3.And(M(a, 1) == 0, D(a, 1) == a))]
        return L

    def lem_sp(s):
        s.lem_divmod()
        A = z3.Const('A', A1); n, k = z3.Ints('n k')
        SP = s.spf; Ak = z3.Select(A, k); S0, Sk, T = SP(A, n, 0), SP(A, n, k), SP(A, n, k + 1)
        df = Sk == Ak * T
        dm = z3.And(Sk == Ak * s.DIVf(Sk, Ak) + s.MODf(Sk, Ak), s.MODf(Sk, Ak) >= 0, s.MODf(Sk, Ak) < Ak)
        return [('positive/base', [SP(A, n, n) == 1], SP(A, n, n) >= 1),
                ('positive/step', [df, Ak >= 1, T >= 1], z3.And(Sk >= 1, Ak <= Sk, T <= Sk)),
                ('below-total/step', [Sk <= S0, T <= Sk], T <= S0),
                ('extent-divides', [df, dm, Ak >= 1, s.uq(Ak, s.DIVf(Sk, Ak), s.MODf(Sk, Ak), T, iv(0))], s.DIVf(Sk, Ak) == T),
                ('extent-below-total', [Ak <= Sk, Sk <= S0], Ak <= S0)]

    def lem_pp(s):
        A = z3.Const('A', A1); n, k = z3.Ints('n k')
        PP, SP = s.ppf, s.spf; Ak = z3.Select(A, k)
        P, P1, Sk, T, S0 = PP(A, k), PP(A, k + 1), SP(A, n, k), SP(A, n, k + 1), SP(A, n, 0)
        return [('pp*sp/base', [PP(A, 0) == 1], PP(A, 0) * S0 == S0),
                ('pp*sp/step', [P1 == P * Ak, Sk == Ak * T, P * Sk == S0], P1 * T == S0),
                ('pp-total', [P * Sk == S0, k == n, Sk == 1], P == S0),
                ('pp-positive/step', [P >= 1, Ak >= 1, P1 == P * Ak], P1 >= 1),
                ('pp-bound', [P >= 1, Sk >= 1, P * Sk == S0], P <= S0)]

    def lem_coord(s):
        s.lem_divmod()
        A = z3.Const('A', A1); n, k, i = z3.Ints('n k i')
        SP, CO, D, M = s.spf, s.coordf, s.DIVf, s.MODf
        Ak = z3.Select(A, k); S, T = SP(A, n, k), SP(A, n, k + 1)
        c = CO(A, n, i, k); q1 = D(i, T); r1 = M(i, T); q2 = D(q1, Ak); q = D(i, S); r = M(i, S)
        base = [S == Ak * T, Ak >= 1, T >= 1, S >= 1, c == M(q1, Ak), s.df(i, T), s.df(q1, Ak), s.df(i, S)]
        u, v = z3.Ints('u v')
        step = [T * q1 == T * (Ak * q2 + c), T * (Ak * q2 + c) == S * q2 + T * c, c <= Ak - 1, c >= 0]
        return [('range', base, z3.And(c >= 0, c < Ak)),
                ('expand-1', base, T * q1 == T * (Ak * q2 + c)),
                ('expand-2', [S == Ak * T], T * (Ak * q2 + c) == S * q2 + T * c),
                ('tail-below', [S == Ak * T, T >= 1, c >= 0, c <= Ak - 1, r1 >= 0, r1 < T, T * (Ak - 1 - c) >= 0], z3.And(T * c + r1 < S)),
                ('tail-nonneg', [T >= 1, c >= 0, r1 >= 0], T * c + r1 >= 0),
                ('premise', [T >= 1, c <= Ak - 1], T * (Ak - 1 - c) >= 0),
                ('mixed-radix-step', base + step + [T * c + r1 < S, T * c + r1 >= 0, s.uq(S, q, r, q2, T * c + r1)], r == c * T + r1),
                ('quotient', base + [r == c * T + r1, s.df(r, T), s.uq(T, D(r, T), M(r, T), c, r1)], z3.And(D(r, T) == c, M(r, T) == r1))]

    def lem_dig(s):
        s.lem_divmod()
        A, C = z3.Consts('A C', A1); n, k = z3.Ints('n k')
        SP, CO, D, M, DG = s.spf, s.coordf, s.DIVf, s.MODf, s.digf
        Ak, Ck = z3.Select(A, k), z3.Select(C, k); S, T = SP(A, n, k), SP(A, n, k + 1)
        d0, d, d1 = DG(A, n, C, 0), DG(A, n, C, k), DG(A, n, C, k + 1)
        base = [S == Ak * T, Ak >= 1, T >= 1, Ck >= 0, Ck <= Ak - 1, d == Ck * T + d1]
        mm = z3.And(M(M(d0, S), T) == M(d0, T), D(M(d0, S), T) == CO(A, n, d0, k))   # lem_coord
        return [('range/base', [], z3.And(iv(0) >= 0, iv(0) < 1)),
                ('range/step', base + [d1 >= 0, d1 < T, T * (Ak - 1 - Ck) >= 0, Ck * T >= 0], z3.And(d >= 0, d < S, Ck * T >= 0, Ck * T <= d, d1 <= d)),
                ('premise', [T >= 1, Ck >= 0, Ck <= Ak - 1], z3.And(T * (Ak - 1 - Ck) >= 0, Ck * T >= 0)),
                ('tail/base', [d0 >= 0, d0 < SP(A, n, 0), z3.Implies(z3.And(d0 >= 0, d0 < SP(A, n, 0)), M(d0, SP(A, n, 0)) == d0)], M(d0, SP(A, n, 0)) == d0),
                ('tail/step', base + [d1 >= 0, d1 < T, M(d0, S) == d, mm, s.df(d, T), s.uq(T, D(d, T), M(d, T), Ck, d1)], M(d0, T) == d1),
                ('coordinate', base + [d1 >= 0, d1 < T, M(d0, S) == d, mm, s.df(d, T), s.uq(T, D(d, T), M(d, T), Ck, d1)], CO(A, n, d0, k) == Ck)] + [
                ('same-site/step', [M(i, S) == CO(A, n, i, k) * T + M(i, T) for i in z3.Ints('i j')] + [z3.And(CO(A, n, z3.Int('i'), k) == CO(A, n, z3.Int('j'), k), M(z3.Int('i'), T) == M(z3.Int('j'), T))],
                 M(z3.Int('i'), S) == M(z3.Int('j'), S))]


# ---------------------------------------------------------------- intrinsics
def vec(e, st, p, sort=I):
    """(array term, length) of the vector at p"""
    n = e.veclen(st, p)
    q = p.elem(iv(0))
    k = e.key(q)
    c = st.mem.get(k)
    if c is None:
        c = e.fresh('arr', e.arrsort(sort, len(q.chain)))
        st.mem[k] = c
    a = e.sel(c, p.idxs)
    return z3.simplify(a), z3.simplify(n)


def ival(e, st, v): return simp(e.Sg(st, v))


def I64(t): return IntV(64, simp(t), False, True)


def i_SP(e, st, a, ins, d):
    A, n = vec(e, st, a[0]); return I64(e.S.SP(A, n, ival(e, st, a[1])))


def i_PP(e, st, a, ins, d):
    A, n = vec(e, st, a[0]); return I64(e.S.PP(A, n, ival(e, st, a[1])))


def i_COORD(e, st, a, ins, d):
    A, n = vec(e, st, a[0]); return I64(e.S.COORD(A, n, ival(e, st, a[1]), ival(e, st, a[2])))


def i_DIG(e, st, a, ins, d):
    A, n = vec(e, st, a[0]); C, _ = vec(e, st, a[1]); return I64(e.S.DIG(A, n, C, ival(e, st, a[2])))


def i_mod(e, st, a, ins, d): return I64(e.S.MOD(ival(e, st, a[0]), ival(e, st, a[1])))
def i_div(e, st, a, ins, d): return I64(e.S.DIV(ival(e, st, a[0]), ival(e, st, a[1])))


def i_mod_shift(e, st, a, ins, d):
    # lemma: adding v to a remainder or to the number itself leaves the same remainder
    x, v, b = (ival(e, st, y) for y in a)
    e.assume(st, z3.Implies(b > 0, e.S.MOD(simp(e.S.MOD(x, b) + v), b) == e.S.MOD(simp(x + v), b)))


def i_positive(e, st, a, ins, d):
    A, n = vec(e, st, a[0])
    k = e.fresh('sk', I)
    e.oblige(st, 'pre', z3.Implies(z3.And(0 <= k, k < n), z3.Select(A, k) >= 1), 'extents are positive', ins.dbg, keep=False)
    e.S.use('sp'); e.assume(st, e.S.posf(A, n))


def i_ongrid(e, st, a, ins, d):
    A, n = vec(e, st, a[0]); C, m = vec(e, st, a[1])
    k = e.fresh('sk', I)
    e.oblige(st, 'pre', z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(C, k) >= 0, z3.Select(C, k) < z3.Select(A, k))), 'coordinates on the grid', ins.dbg, keep=False)
    e.S.use('sp'); e.S.use('divmod'); e.S.use('coord'); e.S.use('dig'); e.assume(st, e.S.ongridf(A, n, C))


def i_same_site(e, st, a, ins, d):
    """lemma application: sites whose coordinates agree in every dimension are equal"""
    A, n = vec(e, st, a[0]); i, j = ival(e, st, a[1]), ival(e, st, a[2])
    k = e.fresh('sk', I)
    e.S.COORD(A, n, i, k)
    e.oblige(st, 'pre', z3.Implies(z3.And(0 <= k, k < n), e.S.COORD(A, n, i, k) == e.S.COORD(A, n, j, k)), 'coordinates agree', ins.dbg, keep=False)
    e.oblige(st, 'pre', z3.And(e.S.posf(A, n), i >= 0, i < e.S.SP(A, n, iv(0)), j >= 0, j < e.S.SP(A, n, iv(0))), 'valid sites', ins.dbg)
    e.S.use('dig'); e.assume(st, i == j)


def zabs(t): return simp(z3.If(t >= 0, t, -t))


def nat(e, st, t):
    if e.prove(st, t >= 0): return t
    if e.prove(st, t <= 0): return simp(-t)
    return zabs(t)


def i_GCD(e, st, a, ins, d):
    return I64(e.S.GCD(nat(e, st, ival(e, st, a[0])), nat(e, st, ival(e, st, a[1]))))


def i_same_ratio(e, st, a, ins, d):
    """lemma application: fractions in lowest terms with positive denominators and equal value are identical"""
    n1, d1, n2, d2 = (ival(e, st, x) for x in a)
    e.oblige(st, 'pre', z3.And(d1 > 0, d2 > 0, n1 * d2 == n2 * d1), 'equal ratio', ins.dbg)
    e.oblige(st, 'pre', e.S.GCD(nat(e, st, n1), d1) == 1, 'lowest terms', ins.dbg)
    e.oblige(st, 'pre', e.S.GCD(nat(e, st, n2), d2) == 1, 'lowest terms', ins.dbg)
    e.assume(st, z3.And(n1 == n2, d1 == d2))


INTR = {'vf_mod_shift': i_mod_shift, 'vf_GCD': i_GCD, 'vf_same_ratio': i_same_ratio, 'vf_same_site': i_same_site, 'vf_SP': i_SP, 'vf_PP': i_PP, 'vf_COORD': i_COORD, 'vf_DIG': i_DIG, 'vf_mod': i_mod, 'vf_div': i_div,
        'vf_positive': i_positive, 'vf_ongrid': i_ongrid}


def _mathfacts(s, st, n, args, r): pass
Specs.mathfacts = _mathfacts
