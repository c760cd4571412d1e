"""Interpretations of C++ double arithmetic.
  real : doubles are mathematical reals, arithmetic is exact (assumption listed in evidence)
  uf   : doubles are an abstract sort; + - * / are uninterpreted (congruence only): a proof holds for
         every interpretation, in particular for IEEE-754 binary64, bit for bit
  fpa  : exact IEEE-754 binary64 semantics through the SMT floating point theory
"""
import z3, struct, math
RI = z3.Function("round", z3.RealSort(), z3.IntSort())
from fractions import Fraction


def bits(x):
    return struct.unpack('>Q', struct.pack('>d', x))[0]


class Real:
    name = 'real'
    sort = z3.RealSort()

    def __init__(s):
        R = s.sort
        s.uf = {}
        s.inf = z3.Real('f_inf'); s.nan = z3.Real('f_nan')

    def fn(s, name, n):
        k = (name, n)
        if k not in s.uf:
            s.uf[k] = z3.Function('m_' + name, *([s.sort] * (n + 1)))
        return s.uf[k]

    def const(s, x):
        if math.isinf(x): return s.inf if x > 0 else -s.inf
        if math.isnan(x): return s.nan
        f = Fraction(x)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')

    def sym(s, name): return z3.FreshReal(name)

    def add(s, a, b): return s.n(a + b)
    def sub(s, a, b): return s.n(a - b)
    def mul(s, a, b): return s.n(a * b)

    def div(s, a, b):
        return s.n(a / b)

    def neg(s, a): return s.n(-a)

    def n(s, t): return z3.simplify(t, som=True)

    def lt(s, a, b): return z3.simplify(a < b)
    def le(s, a, b): return z3.simplify(a <= b)
    def eq(s, a, b): return z3.simplify(a == b)
    def isnan(s, a): return z3.BoolVal(False)
    def same(s, a, b): return a == b

    def fromint(s, t): return z3.simplify(z3.ToReal(t))

    def toint(s, x):
        # C truncation towards zero
        if z3.is_to_real(x): return x.arg(0)
        return z3.simplify(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))

    def fabs(s, a): return z3.simplify(z3.If(a >= 0, a, -a))

    def call(s, name, args):
        if name == 'floor': return z3.ToReal(z3.ToInt(args[0]))
        if name == 'ceil': return -z3.ToReal(z3.ToInt(-args[0]))
        if name == 'trunc': return z3.If(args[0] >= 0, z3.ToReal(z3.ToInt(args[0])), -z3.ToReal(z3.ToInt(-args[0])))
        if name == 'round':
            return z3.ToReal(RI(args[0]))      # defined by facts() below
        if name == 'fma': return s.n(args[0] * args[1] + args[2])
        return s.fn(name, len(args))(*args)

    def copysign(s, a, b): return z3.If(b >= 0, s.fabs(a), -s.fabs(a))

    def facts(s, name, args, r):
        """axioms of library functions, instantiated at each call (trusted base)"""
        if name == 'sqrt':
            return [z3.Implies(args[0] >= 0, z3.And(r >= 0, r * r == args[0]))]
        if name == 'round':
            x, i = args[0], z3.ToReal(RI(args[0])); h = z3.RealVal('1/2')
            return [i <= x + h, i >= x - h, z3.Implies(x >= 0, z3.And(i > x - h, i >= 0)), z3.Implies(x <= 0, z3.And(i < x + h, i <= 0))]
        if name == 'exp': return [r > 0]
        if name in ('sin', 'cos'): return [r >= -1, r <= 1]
        return []

    def axioms(s):
        a = []
        for (nm, n), f in s.uf.items():
            pass
        return a


class UF(Real):
    name = 'uf'

    def __init__(s):
        s.sort = z3.DeclareSort('F64')
        s.uf = {}
        s.consts = {}
        S = s.sort
        s.f = {n: z3.Function('f_' + n, S, S, S) for n in ('add', 'sub', 'mul', 'div')}
        s.f['neg'] = z3.Function('f_neg', S, S)
        s.f['abs'] = z3.Function('f_abs', S, S)
        s.f['lt'] = z3.Function('f_lt', S, S, z3.BoolSort())
        s.f['le'] = z3.Function('f_le', S, S, z3.BoolSort())
        s.f['eq'] = z3.Function('f_eq', S, S, z3.BoolSort())
        s.f['nan'] = z3.Function('f_isnan', S, z3.BoolSort())
        s.f['ofint'] = z3.Function('f_ofint', z3.IntSort(), S)
        s.f['toint'] = z3.Function('f_toint', S, z3.IntSort())

    def const(s, x):
        k = bits(x)
        if k not in s.consts:
            s.consts[k] = z3.Const(f'fc_{k:016x}', s.sort)
        return s.consts[k]

    def sym(s, name): return z3.FreshConst(s.sort, name)

    def comm(s, op, a, b):
        if a.get_id() > b.get_id(): a, b = b, a
        return s.f[op](a, b)

    def fold(s, op, *args):
        vs = []
        for a in args:
            n = a.decl().name() if z3.is_const(a) else ''
            if not n.startswith('fc_'): return s.f[op](*args)
            vs.append(struct.unpack('>d', int(n[3:], 16).to_bytes(8, 'big'))[0])
        try:
            r = {'add': lambda: vs[0] + vs[1], 'sub': lambda: vs[0] - vs[1], 'mul': lambda: vs[0] * vs[1], 'div': lambda: vs[0] / vs[1], 'neg': lambda: -vs[0]}[op]()
        except ZeroDivisionError:
            return s.f[op](*args)
        return s.const(r) if r == r else s.f[op](*args)

    def add(s, a, b): return s.fold('add', a, b)
    def sub(s, a, b): return s.fold('sub', a, b)
    def mul(s, a, b): return s.fold('mul', a, b)
    def div(s, a, b): return s.fold('div', a, b)
    def neg(s, a): return s.fold('neg', a)
    def n(s, t): return t
    def lt(s, a, b): return s.f['lt'](a, b)
    def le(s, a, b): return s.f['le'](a, b)
    def eq(s, a, b): return s.f['eq'](a, b)
    def isnan(s, a): return s.f['nan'](a)
    def same(s, a, b): return a == b

    def fromint(s, t):
        if z3.is_int_value(t) and abs(t.as_long()) < 2 ** 53: return s.const(float(t.as_long()))
        return s.f['ofint'](t)

    def toint(s, x): return s.f['toint'](x)
    def fabs(s, a): return s.f['abs'](a)

    def call(s, name, args): return s.fn(name, len(args))(*args)

    def facts(s, name, args, r):
        if name == 'sqrt': return [z3.Implies(s.f['nan'](args[0]), s.f['nan'](r))]
        return []

    def axioms(s):
        """sound facts about IEEE-754 used with the uninterpreted operations"""
        S = s.sort
        a, b = z3.Consts('fa fb', S)
        f = s.f
        ax = [
            z3.ForAll([a, b], f['add'](a, b) == f['add'](b, a), patterns=[f['add'](a, b)]),
            z3.ForAll([a, b], f['mul'](a, b) == f['mul'](b, a), patterns=[f['mul'](a, b)]),
            z3.ForAll([a, b], f['sub'](a, b) == f['add'](a, f['neg'](b)), patterns=[f['sub'](a, b)]),
            z3.ForAll([a], f['neg'](f['neg'](a)) == a, patterns=[f['neg'](f['neg'](a))]),
            z3.ForAll([a, b], z3.Implies(f['lt'](a, b), z3.And(f['le'](a, b), z3.Not(f['le'](b, a)), z3.Not(f['eq'](a, b)))), patterns=[f['lt'](a, b)]),
            z3.ForAll([a, b], f['le'](a, b) == z3.Or(f['lt'](a, b), f['eq'](a, b)), patterns=[f['le'](a, b)]),
            z3.ForAll([a, b], f['eq'](a, b) == f['eq'](b, a), patterns=[f['eq'](a, b)]),
            z3.ForAll([a, b], z3.Implies(z3.Not(z3.Or(f['nan'](a), f['nan'](b))), z3.Or(f['lt'](a, b), f['eq'](a, b), f['lt'](b, a))),
                      patterns=[f['lt'](a, b)]),
            z3.ForAll([a, b], z3.Implies(z3.Not(z3.Or(f['nan'](a), f['nan'](b))), z3.Or(f['le'](a, b), f['lt'](b, a))),
                      patterns=[f['le'](a, b)]),
            z3.ForAll([a, b], z3.Implies(z3.Or(f['nan'](a), f['nan'](b)), z3.Not(z3.Or(f['lt'](a, b), f['eq'](a, b)))), patterns=[f['lt'](a, b)]),
            *[z3.ForAll([a, b], z3.Implies(z3.Or(f['nan'](a), f['nan'](b)), f['nan'](f[o](a, b))), patterns=[f['nan'](f[o](a, b))]) for o in ('add', 'sub', 'mul', 'div')],
            z3.ForAll([a], f['nan'](f['neg'](a)) == f['nan'](a), patterns=[f['nan'](f['neg'](a))]),
            z3.ForAll([a], f['eq'](a, a) == z3.Not(f['nan'](a)), patterns=[f['eq'](a, a)]),
        ]
        one, two = s.consts.get(bits(1.)), s.consts.get(bits(2.))
        if one is not None:
            ax.append(z3.ForAll([a], f['mul'](a, one) == a, patterns=[f['mul'](a, one)]))
            ax.append(z3.ForAll([a], f['mul'](one, a) == a, patterns=[f['mul'](one, a)]))
            ax.append(z3.ForAll([a], f['div'](a, one) == a, patterns=[f['div'](a, one)]))
        if two is not None:
            ax.append(z3.ForAll([a], f['mul'](a, two) == f['add'](a, a), patterns=[f['mul'](a, two)]))
            ax.append(z3.ForAll([a], f['mul'](two, a) == f['add'](a, a), patterns=[f['mul'](two, a)]))
        cs = sorted(s.consts)
        if len(cs) > 1:
            ax.append(z3.Distinct(*[s.consts[k] for k in cs]))
        un = lambda k: struct.unpack('>d', struct.pack('>Q', k))[0]
        for k in cs:
            v = un(k)
            ax.append(f['nan'](s.consts[k]) == (v != v))
            nk = bits(-v)
            if nk in s.consts: ax.append(f['neg'](s.consts[k]) == s.consts[nk])
            for j in cs:
                w = un(j)
                ax.append(f['lt'](s.consts[k], s.consts[j]) == (v < w))
                ax.append(f['eq'](s.consts[k], s.consts[j]) == (v == w))
        return ax


class FPA(Real):
    name = 'fpa'

    def __init__(s):
        s.sort = z3.Float64(); s.uf = {}
        s.rm = z3.RNE()

    def const(s, x):
        return z3.fpBVToFP(z3.BitVecVal(bits(x), 64), s.sort) if x != x else z3.FPVal(x, s.sort)

    def sym(s, name): return z3.FreshConst(s.sort, name)
    def add(s, a, b): return z3.fpAdd(s.rm, a, b)
    def sub(s, a, b): return z3.fpSub(s.rm, a, b)
    def mul(s, a, b): return z3.fpMul(s.rm, a, b)
    def div(s, a, b): return z3.fpDiv(s.rm, a, b)
    def neg(s, a): return z3.fpNeg(a)
    def n(s, t): return t
    def lt(s, a, b): return z3.fpLT(a, b)
    def le(s, a, b): return z3.fpLEQ(a, b)
    def eq(s, a, b): return z3.fpEQ(a, b)
    def isnan(s, a): return z3.fpIsNaN(a)
    def same(s, a, b): return a == b
    def fromint(s, t):
        if z3.is_int_value(t): return s.const(float(t.as_long()))
        f = z3.Function('f_ofint', z3.IntSort(), s.sort)
        return f(t)

    def toint(s, x): return z3.Function('f_toint', s.sort, z3.IntSort())(x)
    def fabs(s, a): return z3.fpAbs(a)

    def call(s, name, args):
        m = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'nearbyint': z3.RNE()}
        if name in m: return z3.fpRoundToIntegral(m[name], args[0])
        if name == 'sqrt': return z3.fpSqrt(s.rm, args[0])
        return s.fn(name, len(args))(*args)

    def facts(s, name, args, r): return []
    def axioms(s): return []


def make(name):
    return {'real': Real, 'uf': UF, 'fpa': FPA}[name]()
