import re, time
import z3
import irparse
from irparse import get_func
from values import *
from engine import *
import models
import loops


def boolish(v):
    """the condition c if the value is c ? 1 : 0"""
    t = v.t
    if is_const(t): return {0: FALSE, 1: TRUE}.get(cval(t))
    if z3.is_app_of(t, z3.Z3_OP_ITE) and is_const(t.arg(1)) and is_const(t.arg(2)):
        a, b = cval(t.arg(1)), cval(t.arg(2))
        if (a, b) == (1, 0): return t.arg(0)
        if (a, b) == (0, 1): return z3.Not(t.arg(0))
    return None


class Exec(Engine):
    curdbg = None

    # ------------------------------------------------------------ arithmetic
    def binop(s, st, I_, env):
        op = I_.op
        a = s.val(st, env, I_.a[0]); b = s.val(st, env, I_.a[1]); fl = I_.a[2]
        ty = I_.ty
        if op[0] == 'f' and ty[0] == 'f':
            if type(a) is Undef or type(b) is Undef: return UNDEF
            F = s.F
            if op == 'frem': return FltV(a.w, F.call('fmod', [a.t, b.t]))
            if F.name == 'real':
                if op == 'fdiv': s.guarded(st, I_, env, 'div0', b.t != 0, 'floating point division by zero')
                else: s.guarded(st, I_, env)
            if F.name == 'real' and op == 'fmul':
                pass
            return FltV(a.w, {'fadd': F.add, 'fsub': F.sub, 'fmul': F.mul, 'fdiv': F.div}[op](a.t, b.t))
        if type(a) is Undef or type(b) is Undef: return UNDEF
        if ty[0] != 'i': raise Unsupported(f'binop type {ty}')
        w = ty[1]
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if op == 'sub': return s.ptr_diff(st, a.p, b.p)
            raise Unsupported('ptr arithmetic ' + op)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt): raise Unsupported('ptr arithmetic ' + op)
        if w == 1:
            A = s.asbool(st, a); B = s.asbool(st, b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if op in ('add', 'sub'): r = z3.Xor
            if op == 'mul': r = z3.And
            if r is None: raise Unsupported('i1 ' + op)
            return z3.simplify(r(A, B))
        a = s.isint(st, a); b = s.isint(st, b)
        if op in ('add', 'sub', 'mul'):
            nsw = 'nsw' in fl; nuw = 'nuw' in fl
            if nsw: x, y = s.Sg(st, a), s.Sg(st, b)
            elif nuw: x, y = s.Un(st, a), s.Un(st, b)
            elif op == 'sub' and a.u and b.u: x, y = a.t, b.t
            else: x, y = a.t, b.t
            t = x + y if op == 'add' else x - y if op == 'sub' else times(x, y)
            t = simp(t)
            if nsw:
                s.guarded(st, I_, env, 'overflow', s.rng_s(t, w), f'no signed overflow in {op}')
                return IntV(w, t, False, True)
            if nuw:
                s.guarded(st, I_, env)
                return IntV(w, t, True, False)
            s.guarded(st, I_, env)
            return IntV(w, t)
        if op in ('udiv', 'urem'):
            x, y = s.Un(st, a), s.Un(st, b)
            s.oblige(st, 'div0', y != 0, 'integer division by zero', I_.dbg)
            if not (is_const(y)): s.assume(st, y >= 1)
            q, r = s.ediv(st, x, y)
            s.S.divfacts(st, x, y)
            if op == 'udiv':
                return IntV(w, q, True, a.s)
            return IntV(w, r, True, False)
        if op in ('sdiv', 'srem'):
            x, y = simp(s.Sg(st, a)), simp(s.Sg(st, b))
            s.oblige(st, 'div0', y != 0, 'integer division by zero', I_.dbg)
            s.oblige(st, 'overflow', z3.Not(z3.And(x == -(1 << (w - 1)), y == -1)), 'no signed overflow in division', I_.dbg)
            px = s.prove(st, x >= 0); py = s.prove(st, y > 0)
            nx = False if px else s.prove(st, x <= 0)
            if not py:
                ny = s.prove(st, y < 0)
                if not ny: raise Fork([y > 0, y < 0])
            if not px and not nx: raise Fork([x >= 0, x < 0])
            ax = x if px else simp(-x); ay = y if py else simp(-y)
            q, r = s.ediv(st, ax, ay)
            s.S.divfacts(st, ax, ay)
            if op == 'sdiv':
                return IntV(w, simp(q if px == py else -q), False, True)
            return IntV(w, simp(r if px else -r), False, True)
        if op == 'shl':
            if is_const(b.t):
                t = simp(a.t * (1 << cval(b.t)))
                if 'nsw' in fl:
                    t = simp(s.Sg(st, a) * (1 << cval(b.t)))
                    s.oblige(st, 'overflow', s.rng_s(t, w), 'no signed overflow in shift', I_.dbg)
                    return IntV(w, t, False, True)
                return IntV(w, t)
        if op == 'lshr' and is_const(b.t):
            return IntV(w, simp(s.Un(st, a) / (1 << cval(b.t))), True, True)
        if op == 'ashr' and is_const(b.t):
            return IntV(w, simp(s.Sg(st, a) / (1 << cval(b.t))), False, True)
        if op in ('and', 'or', 'xor'):
            A, B = boolish(a), boolish(b)
            if A is not None and B is not None and not (is_const(a.t) and is_const(b.t)):
                return s.toint(z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](A, B)), w)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if is_const(y.t):
                    c = cval(y.t)
                    if c >= 0 and (c & (c + 1)) == 0:
                        return IntV(w, simp(x.t % (c + 1)), True, c < (1 << (w - 1)))
                    if c == -1: return x
        if op == 'xor':
            if is_const(b.t) and cval(b.t) == -1:
                x = s.canon(st, a); return IntV(w, simp(-x.t - 1), False, True)
        if is_const(a.t) and is_const(b.t):
            m = (1 << w) - 1; x, y = cval(a.t) & m, cval(b.t) & m
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}.get(op)
            if r is not None: return IntV(w, r - (1 << w) if r >> (w - 1) else r)
        if op in ('or', 'xor') and is_const(b.t) and cval(b.t) == 0: return a
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            f = z3.Function(f'bv_{op}{w}', I, I, I)
            x, y = s.Sg(st, a), s.Sg(st, b)
            if op in ('and', 'or', 'xor') and str(x) > str(y): x, y = y, x
            t = f(x, y); s.assume(st, s.rng_s(t, w))
            return IntV(w, t, False, True)
        raise Unsupported('binop ' + op)

    def icmp(s, st, pred, a, b, ty):
        if ty[0] == 'p' or isinstance(a, (Ptr, NullT, FnPtr, PtrInt)) or isinstance(b, (Ptr, NullT, FnPtr, PtrInt)):
            return s.ptr_cmp(st, pred, a, b)
        if type(a) is Undef or type(b) is Undef: return s.fresh('undef', z3.BoolSort())
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            A, B = s.asbool(st, a), s.asbool(st, b)
            if pred == 'eq': return z3.simplify(A == B)
            if pred == 'ne': return z3.simplify(A != B)
            if pred in ('ult', 'sgt'): return z3.simplify(z3.And(z3.Not(A), B))
            if pred in ('ugt', 'slt'): return z3.simplify(z3.And(A, z3.Not(B)))
            if pred in ('ule', 'sge'): return z3.simplify(z3.Or(z3.Not(A), B))
            return z3.simplify(z3.Or(A, z3.Not(B)))
        if pred in ('eq', 'ne'):
            if a.s and b.s: x, y = a.t, b.t
            elif a.u and b.u: x, y = a.t, b.t
            elif a.u or b.u: x, y = s.Un(st, a), s.Un(st, b)
            else: x, y = s.Sg(st, a), s.Sg(st, b)
            r = x == y
            return z3.simplify(r if pred == 'eq' else z3.Not(r))
        if pred[0] == 's': x, y = s.Sg(st, a), s.Sg(st, b)
        else: x, y = s.Un(st, a), s.Un(st, b)
        x = simp(x); y = simp(y)
        return z3.simplify({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]])

    def fcmp(s, st, pred, a, b):
        if pred == 'true': return TRUE
        if pred == 'false': return FALSE
        if type(a) is Undef or type(b) is Undef: return s.fresh('undef', z3.BoolSort())
        F = s.F; a = a.t; b = b.t
        N = z3.Not
        r = {'oeq': lambda: F.eq(a, b), 'ogt': lambda: F.lt(b, a), 'oge': lambda: F.le(b, a), 'olt': lambda: F.lt(a, b),
             'ole': lambda: F.le(a, b), 'one': lambda: z3.Or(F.lt(a, b), F.lt(b, a)), 'une': lambda: N(F.eq(a, b)),
             'ueq': lambda: N(z3.Or(F.lt(a, b), F.lt(b, a))), 'ugt': lambda: N(F.le(a, b)), 'uge': lambda: N(F.lt(a, b)),
             'ult': lambda: N(F.le(b, a)), 'ule': lambda: N(F.lt(b, a)),
             'uno': lambda: z3.Or(F.isnan(a), F.isnan(b)), 'ord': lambda: N(z3.Or(F.isnan(a), F.isnan(b)))}[pred]()
        return z3.simplify(r)

    def decide(s, st, c):
        if is_true(c): return True
        if is_false(c): return False
        n = z3.simplify(z3.Not(c))
        for f in reversed(st.pc):
            if f.eq(c): return True
            if f.eq(n): return False
        if s.prove(st, c): return True
        if s.prove(st, n): return False
        return None

    def select(s, st, c, a, b, ty):
        c = s.asbool(st, c)
        if is_true(c): return a
        if is_false(c): return b
        if type(a) is Undef: return b
        if type(b) is Undef: return a
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef): return z3.simplify(z3.If(c, a, b))
        if isinstance(a, IntV) and isinstance(b, IntV):
            if a.u and b.u: return IntV(a.w, z3.If(c, a.t, b.t), True, a.s and b.s)
            return IntV(a.w, z3.If(c, s.canon(st, a).t, s.canon(st, b).t), False, True)
        if isinstance(a, FltV) and isinstance(b, FltV): return FltV(a.w, z3.If(c, a.t, b.t))
        d = s.decide(st, c)
        if d is not None: return a if d else b
        raise Fork([c, z3.simplify(z3.Not(c))])

    # ------------------------------------------------------------ speculated divisions
    FOPS = ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'add', 'sub', 'mul')

    def selonly(s, F, B):
        """results that are only used (through float arithmetic, within their block) as an arm of a select:
        simplifycfg has hoisted them above their guard"""
        m = F.__dict__.setdefault('_selonly', None)
        if m is None:
            uses = {}
            for b in F.blocks.values():
                for i in b.ins:
                    def visit(x, arm):
                        if isinstance(x, irparse.Val):
                            if x.k == 'loc': uses.setdefault(x.v, []).append((i, b, arm))
                            elif isinstance(x.v, (list, tuple)):
                                for y in x.v: visit(y, False)
                        elif isinstance(x, (list, tuple)):
                            for y in x: visit(y, False)
                    for n, x in enumerate(i.a or ()): visit(x, i.op == 'select' and n > 0)
            memo = {}

            def ok(n, b):
                if n not in memo:
                    memo[n] = False
                    u = uses.get(n, [])
                    memo[n] = bool(u) and all(ub is b and (arm or (i.op in s.FOPS and ok(i.res, b))) for i, ub, arm in u)
                return memo[n]
            m = F._selonly = {i.res for b in F.blocks.values() for i in b.ins if i.op in s.FOPS and ok(i.res, b)}
        return m

    def guarded(s, st, I_, env, kind=None, goal=None, label=None):
        """an obligation of a possibly speculated operation: raised here, or at the select that picks its result"""
        new = [] if kind is None else [(kind, goal, label, I_.dbg)]
        if I_.res in s.selonly(s.curF, s.curB):
            env[('dens', I_.res)] = s.densof(I_, env) + new
        elif new: s.oblige(st, kind, goal, label, I_.dbg)

    def densof(s, I_, env):
        return [d for x in I_.a if isinstance(x, irparse.Val) and x.k == 'loc' for d in env.get(('dens', x.v), [])]

    def select_dens(s, st, ins, env):
        c = None
        for n in (1, 2):
            x = ins.a[n]
            if isinstance(x, irparse.Val) and x.k == 'loc':
                for kind, goal, label, dbg in env.get(('dens', x.v), []):
                    if c is None: c = s.asbool(st, s.val(st, env, ins.a[0]))
                    s.oblige(st, kind, z3.Implies(c if n == 1 else z3.Not(c), goal), label, dbg)

    # ------------------------------------------------------------ functions
    def call_function(s, F, st, args):
        """execute a defined function; -> [(kind, st, val)] kind in ret/throw"""
        if s.depth > 25: raise Unsupported('call depth (recursion) ' + F.name)
        env = {}
        for (ty, n, at), a in zip(F.params, args): env[n] = a
        saved = st.stack
        st.stack = st.stack + [F.name]
        s.depth += 1
        try:
            if F.irreducible: raise Unsupported('irreducible control flow in ' + F.name)
            outs = s.run(F, st, env, F.order[0], None, None)
        finally:
            s.depth -= 1
        res = []
        for o in outs:
            if o[0] in ('ret', 'throw'):
                o[1].stack = list(saved); res.append(o[:3])
            else: raise Unsupported('bad outcome')
        return res

    def run(s, F, st, env, blk, prev, region, hdr=None, phis_done=False):
        """explore from blk; stops at ret / throw / edges leaving `region` / back edges to hdr.
        outcomes: ('ret',st,v) ('throw',st,exc) ('exit',st,env,blk,prev) ('latch',st,env,prev)"""
        outs = []
        work = [(st, env, blk, prev, 0, phis_done)]
        while work:
            st, env, blk, prev, ip, pd = work.pop()
            if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
            try:
                if ip == 0 and not pd:
                    if region is not None:
                        if blk == hdr: outs.append(('latch', st, env, prev)); continue
                        if blk not in region: outs.append(('exit', st, env, blk, prev)); continue
                    if blk in F.loops:
                        if prev is not None and prev in F.loops[blk] and not s.inunroll(st, F, blk):
                            raise Unsupported('unexpected back edge')
                        if prev is not None and prev in F.loops[blk]:
                            sp = s.counter_choice(F, blk, prev, st, env)
                            if sp is not None:
                                name, v, c = sp
                                for cc, val in ((z3.Not(c), v.arg(2)), (c, v.arg(1))):
                                    cc = z3.simplify(cc)
                                    if s.feasible(st, cc):
                                        s2 = st.clone(); s.assume(s2, cc); s2.conds.append(cc)
                                        e2 = dict(env); o = env[name]
                                        e2[name] = IntV(o.w, val)
                                        work.append((s2, e2, blk, prev, 0, False))
                                continue
                        r = s.enter_loop(F, blk, prev, st, env)
                        if r is not None:
                            for o in r:
                                if o[0] == 'exit':
                                    work.append((o[1], o[2], o[3], o[4], 0, False))
                                else: outs.append(o)
                            continue
                B = F.blocks[blk]
                n = len(B.ins)
                if ip == 0:
                    if not pd: s.do_phis(B, prev, st, env)
                    while ip < n and B.ins[ip].op == 'phi': ip += 1
                nxt = s.block(F, B, ip, st, env, outs, work, blk)
            except Dead:
                continue
        return outs

    def inunroll(s, st, F, blk):
        return True

    def do_phis(s, B, prev, st, env):
        new = {}
        for ins in B.ins:
            if ins.op != 'phi': break
            for v, lab in ins.a:
                if lab == prev:
                    new[ins.res] = s.val(st, env, v); break
            else: raise Unsupported('phi without incoming')
        env.update(new)

    def block(s, F, B, ip, st, env, outs, work, blk):
        ins_l = B.ins
        n = len(ins_l)
        while ip < n:
            ins = ins_l[ip]
            s.steps += 1
            if ins.dbg: s.curdbg = ins.dbg; s.loc(ins.dbg)
            try:
                r = s.instr(F, B, ins, st, env)
            except Fork as f:
                for c in f.conds[::-1]:
                    if s.feasible(st, c):
                        s2 = st.clone(); s.assume(s2, z3.simplify(c)); s2.conds.append(c)
                        work.append((s2, dict(env), blk, None, ip, True)) if ip else work.append((s2, dict(env), blk, None, ip, True))
                raise Dead()
            except NeedSplit as f:
                c = None
                for v in range(0, 17):
                    if s.feasible(st, f.t == v):
                        s2 = st.clone(); s.assume(s2, f.t == v)
                        e2 = {k: (IntV(x.w, v) if isinstance(x, IntV) and x.t.eq(f.t) else x) for k, x in env.items()}
                        work.append((s2, e2, blk, None, ip, True))
                if not s.prove(st, z3.And(f.t >= 0, f.t <= 16)): raise Unsupported('symbolic index into plain array')
                raise Dead()
            if r is None:
                ip += 1; continue
            k = r[0]
            if k == 'goto':
                work.append((st, env, r[1], blk, 0, False)); return
            if k == 'branch':
                for c, dst in r[1]:
                    if len(r[1]) > 1: s2 = st.clone(); e2 = dict(env)
                    else: s2 = st; e2 = env
                    s.assume(s2, c); s2.conds.append(c)
                    work.append((s2, e2, dst, blk, 0, False))
                return
            if k == 'ret':
                outs.append(('ret', st, r[1])); return
            if k == 'throw':
                outs.append(('throw', st, r[1])); return
            if k == 'multi':
                # outcomes of a call: [(kind, st, val)]
                norm, unw = ins.a[2], ins.a[3]
                for o in r[1]:
                    e2 = dict(env)
                    if o[0] == 'ret':
                        if ins.res: e2[ins.res] = o[2]
                        if norm is None: work.append((o[1], e2, blk, None, ip + 1, True))
                        else: work.append((o[1], e2, norm, blk, 0, False))
                    else:
                        if unw is None: outs.append(('throw', o[1], o[2]))
                        else:
                            o[1].exc = o[2]
                            work.append((o[1], e2, unw, blk, 0, False))
                return
            raise Unsupported('flow ' + k)
        raise Unsupported('fell off block')

    def instr(s, F, B, ins, st, env):
        op = ins.op
        if op in irparse.BIN:
            s.curF, s.curB = F, B
            env[ins.res] = s.binop(st, ins, env)
        elif op == 'load':
            env[ins.res] = s.load(st, s.val(st, env, ins.a[0]), s.M.resolve(ins.ty), ins.dbg)
        elif op == 'store':
            v = ins.a[0]
            s.store(st, s.val(st, env, ins.a[1]), s.val(st, env, v), v.t, ins.dbg)
        elif op == 'getelementptr':
            bt, p, idx = ins.a
            env[ins.res] = s.gep(st, s.val(st, env, p), bt, [s.val(st, env, i) for i in idx])
        elif op == 'icmp':
            pred, a, b = ins.a
            env[ins.res] = s.icmp(st, pred, s.val(st, env, a), s.val(st, env, b), a.t)
        elif op == 'fcmp':
            pred, a, b = ins.a
            env[ins.res] = s.fcmp(st, pred, s.val(st, env, a), s.val(st, env, b))
        elif op == 'alloca':
            ty, n = ins.a
            env[ins.res] = Ptr(Root(ins.res[1:].strip('"'), 'stack', s.M.sizeof(ty)))
        elif op == 'select':
            s.select_dens(st, ins, env)
            c, a, b = [s.val(st, env, x) for x in ins.a]
            env[ins.res] = s.select(st, c, a, b, ins.ty)
        elif op == 'br':
            c = ins.a[0]
            if c is None: return ('goto', ins.a[1])
            c = s.asbool(st, s.val(st, env, c))
            if is_true(c): return ('goto', ins.a[1])
            if is_false(c): return ('goto', ins.a[2])
            nc = z3.simplify(z3.Not(c))
            l = []
            if s.feasible(st, c): l.append((c, ins.a[1]))
            if not l or s.feasible(st, nc): l.append((nc, ins.a[2]))
            if len(l) == 2: s.paths += 1
            return ('branch', l)
        elif op == 'switch':
            c = s.val(st, env, ins.a[0])
            if isinstance(c, z3.BoolRef): c = s.toint(c, 1)
            t = simp(s.Sg(st, c)); l = []; neg = []
            for v, lab in ins.a[2]:
                e = z3.simplify(t == v)
                if s.feasible(st, e): l.append((e, lab))
                neg.append(z3.Not(e))
            d = z3.simplify(z3.And(neg)) if neg else TRUE
            if s.feasible(st, d): l.append((d, ins.a[1]))
            if not l: raise Dead()
            return ('branch', l)
        elif op == 'ret':
            return ('ret', s.val(st, env, ins.a[0]) if ins.a[0] is not None else None)
        elif op in ('call', 'invoke'):
            r = s.call(st, env, ins)
            if isinstance(r, tuple) and r and r[0] == 'multi': return r
            if isinstance(r, tuple) and r and r[0] == 'throw':
                if op == 'invoke':
                    st.exc = r[1]
                    return ('goto', ins.a[3])
                return ('throw', r[1])
            if ins.res: env[ins.res] = r
            if op == 'invoke': return ('goto', ins.a[2])
        elif op == 'landingpad':
            cleanup, cl = ins.a
            exc = st.exc
            if exc is None: raise Unsupported('landingpad without exception')
            for kind, v in cl:
                if kind == 'catch':
                    tv = s.val(st, env, v)
                    if isinstance(tv, NullT) or models.exc_matches(s, exc[1], tv.root.name[1:]):
                        sel = 0 if isinstance(tv, NullT) else models.typeid(s, tv.root.name[1:])
                        if isinstance(tv, NullT): sel = 1000000
                        env[ins.res] = [exc[0], IntV(32, sel)]; return None
            if not cleanup: return ('throw', exc)
            env[ins.res] = [exc[0], IntV(32, 0)]
        elif op == 'resume':
            return ('throw', st.exc)
        elif op == 'extractvalue':
            v = s.val(st, env, ins.a[0])
            for i in ins.a[1]: v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = s.val(st, env, ins.a[0]); e = s.val(st, env, ins.a[1])
            if type(v) is Undef: v = s.undef(ins.a[0].t)

            def put(v, ix):
                v = list(v) if type(v) is not Undef else []
                if len(ix) == 1: v[ix[0]] = e
                else: v[ix[0]] = put(v[ix[0]], ix[1:])
                return v
            env[ins.res] = put(v, ins.a[2])
        elif op in irparse.CAST:
            v, t = ins.a
            env[ins.res] = s.cast(st, op, s.val(st, env, v), v.t, s.M.resolve(t))
        elif op == 'fneg':
            s.curF, s.curB = F, B; s.guarded(st, ins, env)
            v = s.val(st, env, ins.a[0]); env[ins.res] = FltV(v.w, s.F.neg(v.t)) if type(v) is not Undef else UNDEF
        elif op == 'freeze':
            env[ins.res] = s.val(st, env, ins.a[0])
        elif op == 'unreachable':
            s.oblige(st, 'unreachable', FALSE, 'unreachable code not reached', ins.dbg)
            raise Dead()
        else:
            raise Unsupported('instruction ' + op)
        return None

    def call(s, st, env, ins):
        callee = ins.a[0]
        if callee.k == 'loc':
            f = env[callee.v]
            if not isinstance(f, FnPtr): raise Unsupported('indirect call')
            name = f.name
        elif callee.k == 'glob': name = callee.v
        else: raise Unsupported('callee')
        args = None
        if not name.startswith('llvm.dbg') and not name.startswith('llvm.experimental'):
            args = [s.val(st, env, a) for a in ins.a[1]]
        stub = s.find_stub(name, st)
        if stub is not None:
            F = get_func(s.M, stub)
            if F is None: raise Unsupported('missing stub ' + stub)
            return ('multi', s.call_function(F, st, args))
        m = models.find(s, name)
        if m is not None:
            return m(s, st, args, ins, s.M.dem.get(name, name))
        F = get_func(s.M, name)
        if F is not None:
            return ('multi', s.call_function(F, st, args))
        raise Unsupported('external function ' + s.M.dem.get(name, name))

    def find_stub(s, name, st):
        if not s.stubs: return None
        d = s.M.dem.get(name, name)
        for pat, fn, rec in s.stubs:
            if re.search(pat, d):
                if rec and name not in st.stack: return None
                if st.stack and st.stack[-1] == fn: return None
                return fn
        return None

    # ------------------------------------------------------------ loops
    def enter_loop(s, F, hdr, prev, st, env):
        """None: execute header as an ordinary block (iteration decided concretely)"""
        B = F.blocks[hdr]
        u = ('u', F.name, hdr)
        if prev is not None and prev not in F.loops[hdr] and u in st.stack: st.stack = [x for x in st.stack if x != u]      # entered anew
        cnt = sum(1 for x in st.stack if x == u)
        if cnt < 70 or s.unroll:
            if s.header_decided(F, B, prev, st, env):
                st.stack = st.stack + [('u', F.name, hdr)]
                return None
            if 1 <= cnt <= 8 and s.counting(F, B, prev, st, env):
                # begun iteration by iteration, with a concrete counter and another reason to stop: go on, for a few more
                st.stack = st.stack + [('u', F.name, hdr)]
                return None
            if s.unroll:
                if cnt >= s.unroll: raise Dead()
                st.stack = st.stack + [('u', F.name, hdr)]
                return None
        return loops.cut(s, F, hdr, prev, st, env)

    def counter_choice(s, F, blk, prev, st, env):
        """a counter whose next value is one of two constants, depending on a condition: (name, term, condition)"""
        for ins in F.blocks[blk].ins:
            if ins.op != 'phi': break
            for v, lab in ins.a:
                if lab != prev or v.k != 'loc': continue
                x = env.get(v.v)
                if not isinstance(x, IntV) or x.w < 32 or is_const(x.t): continue
                t = z3.simplify(x.t)
                if z3.is_app_of(t, z3.Z3_OP_ITE) and is_const(t.arg(1)) and is_const(t.arg(2)): return v.v, t, t.arg(0)
        return None

    def counting(s, F, B, prev, st, env):
        for ins in B.ins:
            if ins.op != 'phi': break
            v = loops.phi_val(s, F, B.name, ins, prev, st, env)
            if isinstance(v, IntV) and v.w >= 32 and is_const(z3.simplify(s.Sg(st, v))): return True
        return False

    def header_decided(s, F, B, prev, st, env):
        t = B.ins[-1]
        if t.op == 'br' and t.a[0] is not None and all(l in F.loops[B.name] for l in t.a[1:]): return False     # says nothing about leaving the loop
        if t.op == 'switch' or t.op == 'br' and t.a[0] is not None:
            e2 = dict(env)
            s2 = st.clone()
            save = s.sink; s.sink = []
            try:
                s.do_phis(B, prev, s2, e2)
                for ins in B.ins[:-1]:
                    if ins.op == 'phi': continue
                    if ins.op in ('call', 'invoke') : return False
                    if s.instr(F, B, ins, s2, e2) is not None: return False
                if t.op == 'switch': return is_const(z3.simplify(s.Sg(s2, s.val(s2, e2, t.a[0]))))
                c = s.asbool(s2, s.val(s2, e2, t.a[0]))
                return is_true(c) or is_false(c)
            except (Fork, NeedSplit, Dead, Unsupported):
                return False
            finally:
                s.sink = save
        return False

    # ------------------------------------------------------------ top level
    def run_harness(s, fname):
        F = get_func(s.M, fname)
        st = State()
        if F is None: raise Unsupported('no function ' + fname)
        sts = [st]
        if s.cfg.get('ctors'):
            # the constructors of namespace-scope constants
            for n in re.findall(r'ptr @("[^"]*"|[-\w$.]+), ptr null', s.M.globals.get('llvm.global_ctors', '')):
                G = get_func(s.M, n)
                sts = [o[1] for q in sts for o in s.call_function(G, q, []) if o[0] == 'ret']
        outs = [o for q in sts for o in s.call_function(F, q, [])]
        for o in outs:
            if o[0] == 'throw':
                s.oblige(o[1], 'exception', FALSE, f'no unexpected exception ({s.M.dem.get(o[2][1], o[2][1])})', None)
        return outs


def make(M, cfg, opts=None):
    e = Exec(M, cfg.get('mode', 'real'), cfg.get('stubs'), opts)
    e.cfg = cfg
    e.S.hide = set(cfg.get('hide', '').split())
    if cfg.get('rlimit'): e.full.rl = max(e.full.rl, int(cfg['rlimit']))
    e.inputs = []; e.checks = {}; e.reach = {}; e.typeids = {}
    return e
