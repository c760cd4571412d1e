"""Verification-condition generator: symbolic execution of LLVM IR functions
(compiled from the real headers plus a contract harness), cutting every loop
with an inductive invariant (synthesised from candidates, checked inductive),
producing proof obligations."""
import re, time, sys
import z3, nra
import irparse
from irparse import get_func
from values import *
import floats, specs

B63 = 1 << 63
B64 = 1 << 64
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_true(b): return z3.is_true(b)
def is_false(b): return z3.is_false(b)


class State:
    __slots__ = ('mem', 'pc', 'writes', 'hints', 'conds', 'stack', 'exc', 'fresh_in', 'recs', 'nrec', 'focus', 'focus2')

    def __init__(s):
        s.mem = {}; s.pc = []; s.writes = []; s.hints = []; s.focus = []; s.focus2 = []; s.conds = []; s.stack = []; s.exc = None
        s.recs = []; s.nrec = 0

    def clone(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.pc = list(s.pc); n.writes = list(s.writes); n.hints = list(s.hints); n.focus = s.focus; n.focus2 = s.focus2; n.recs = s.recs; n.nrec = s.nrec
        n.conds = list(s.conds); n.stack = list(s.stack); n.exc = s.exc
        return n


class Obl:
    __slots__ = ('kind', 'label', 'loc', 'pc', 'goal', 'status', 'backend', 'time', 'path', 'model', 'neg', 'nra')

    def __init__(s, kind, label, loc, pc, goal, path=''):
        s.nra = False; s.kind = kind; s.label = label; s.loc = loc; s.pc = pc; s.goal = goal; s.status = None
        s.backend = None; s.time = 0.; s.path = path; s.model = None


class PathSolver:
    """z3 solver whose assertion stack mirrors the current path condition"""

    def __init__(s, axioms_fn, quant=True, rlimit=600000, nl=None):
        s.quant = quant; s.rl = rlimit; s.nl = bool(quant) if nl is None else nl
        s.s = None; s.cur = []; s.axn = -1
        s.axioms_fn = axioms_fn
        s.n = 0; s.t = 0.

    def reset(s):
        s.s = z3.SolverFor('ALL') if False else z3.Solver()
        s.s.set('smt.mbqi', False)
        s.s.set('smt.arith.nl', s.nl); s.s.set('rlimit', s.rl); s.s.set('timeout', 3000)
        s.s.set('smt.random_seed', 1)
        if s.quant:
            for a in s.axioms_fn(): s.s.add(a)
        s.cur = []

    def sync(s, pc):
        ax = len(s.axioms_fn())
        if s.s is None or ax != s.axn:
            s.axn = ax; s.reset()
        k = 0
        m = min(len(pc), len(s.cur))
        while k < m and pc[k] is s.cur[k]: k += 1
        if len(s.cur) > k:
            s.s.pop(len(s.cur) - k); s.cur = s.cur[:k]
        for f in pc[k:]:
            s.s.push()
            if s.quant or not has_quant(f): s.s.add(f)
            s.cur.append(f)

    def check(s, pc, extra):
        s.sync(pc)
        t = time.time()
        s.n += 1
        s.s.push()
        for e in extra: s.s.add(e)
        r = s.s.check()
        s.s.pop()
        s.t += time.time() - t
        return r


_hq = {}


def has_quant(f):
    k = f.get_id()
    if k in _hq: return _hq[k][1]
    st = [f]; seen = set(); r = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x): r = True; break
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
    _hq[k] = (f, r)
    return r


def is_it(x): return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('it!')


_vars = {}


def free_consts(e):
    k = e.get_id()
    if k in _vars: return _vars[k][1]
    out = {}
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        st += x.children()
    _vars[k] = (e, out)
    return out


class Engine:
    def __init__(s, M, mode='real', stubs=None, opts=None):
        s.M = M
        s.F = floats.make(mode)
        s.stubs = stubs or {}
        s.obls = []; s.sink = s.obls
        s.S = specs.Specs(s)
        s.in_cand = False; s.cfg = {}
        s.qf = PathSolver(lambda: [], quant=False, rlimit=400000)
        s.effort = (opts or {}).get('effort', 1)
        s.lin = PathSolver(lambda: s.axioms(), quant=True, rlimit=60000, nl=False)
        s.full = PathSolver(s.axioms, quant=True, rlimit={1: 60000, 2: 300000, 3: 1500000}[s.effort], nl=False if mode == 'real' and s.effort < 3 else None)
        s.loopcache = {}
        s.os_n = 0; s.os_t = 0.; s.os_ok = 0
        s.nfresh = 0
        s.provecache = {}
        s.opts = opts or {}
        s.funcs_seen = {}
        s.loops_info = {}
        s.trusted = set(); s.wraps = {}
        s.paths = 0
        s.steps = 0
        s.deadline = None
        s.depth = 0
        s.labels = {}
        s.valid = {}
        s.gcells = {}
        s.globs = {}
        s.unroll = (opts or {}).get('unroll', 0)

    def axioms(s):
        return s.S.axioms() + s.F.axioms()

    # ------------------------------------------------------------- fresh
    def fresh(s, name, sort):
        if name[:1].isdigit(): name = 'v' + name
        s.nfresh += 1
        return z3.Const(f'{name}!{s.nfresh}', sort)

    # ------------------------------------------------------------- facts
    def assume(s, st, f):
        if is_true(f): return
        if z3.is_and(f):
            for c in f.children(): s.assume(st, c)
            return
        st.pc.append(f)

    def prove(s, st, g, quick=False):
        """engine-internal entailment query (never trusted for obligations)"""
        g = z3.simplify(g)
        if is_true(g): return True
        if is_false(g):
            pass
        key = (g.get_id(), tuple(f.get_id() for f in st.pc))
        if key in s.provecache: return s.provecache[key][0]
        r = s.qf.check(st.pc, [z3.Not(g)])
        if r != z3.unsat and not quick:
            if s.F.name == 'real': r = s.lin.check(st.pc, [z3.Not(g)])
            if r != z3.unsat: r = s.full.check(st.pc, [z3.Not(g)])
            if r == z3.unknown and s.cfg.get('nra') != '0' and (s.F.name == 'real' and nra.has_real(g) or s.cfg.get('nra')) and not z3.is_quantifier(g):
                t = time.time()
                s.nra_n = getattr(s, 'nra_n', 0) + 1
                if nra.unsat(st.pc + s.axioms_real(), z3.Not(g), 800 * s.effort): r = z3.unsat
                s.nra_t = getattr(s, 'nra_t', 0.) + time.time() - t
            if r == z3.unknown and z3.is_or(g) and (s.F.name == 'real' or s.effort >= 2) and s.by_row(st, g): r = z3.unsat
            if r == z3.unknown and s.effort >= 2: r = s.oneshot(st.pc, [z3.Not(g)])
        res = r == z3.unsat
        s.provecache[key] = (res, g, list(st.pc))
        return res

    def by_row(s, st, g):
        """goals about one iteration of an outer loop, written  it != r or P  /  it < r or P : the case it = r with r put in the place of it"""
        for i, c in enumerate(g.children()):
            rest = [x for j, x in enumerate(g.children()) if j != i]
            p = z3.Or(rest) if len(rest) > 1 else rest[0]
            if z3.is_not(c) and z3.is_eq(c.arg(0)):
                a, b = c.arg(0).arg(0), c.arg(0).arg(1); other = None
            elif z3.is_le(c) and z3.is_int(c.arg(0)):
                a, b = c.arg(0), z3.simplify(c.arg(1) + 1); other = a > b
            else: continue
            if not is_it(a): a, b = b, a
            if not is_it(a) or not z3.is_const(b) or is_it(b): continue
            if other is not None and s.oneshot(st.pc, [other, z3.Not(g)]) != z3.unsat: return False
            return s.oneshot([z3.simplify(z3.substitute(f, (a, b))) for f in st.pc], [z3.simplify(z3.substitute(z3.Not(p), (a, b)))]) == z3.unsat
        return False

    def axioms_real(s): return []

    def oneshot(s, pc, extra):
        t = time.time()
        v = z3.Solver(); v.set('smt.mbqi', False); v.set('rlimit', 200000 if s.effort <= 2 else 1000000); v.set('timeout', 2000)
        for a in s.axioms(): v.add(a)
        for f in pc: v.add(f)
        for f in extra: v.add(f)
        r = v.check()
        s.os_n += 1; s.os_t += time.time() - t
        if r == z3.unsat: s.os_ok += 1
        return r

    def feasible(s, st, c=None):
        ex = [c] if c is not None else []
        r = s.qf.check(st.pc, ex)
        if r == z3.unsat: return False
        if not s.opts.get('quickfeas'):
            r = s.full.check(st.pc, ex)
            if r == z3.unsat: return False
        return True

    def oblige(s, st, kind, goal, label, dbg=None, keep=True):
        if isinstance(st.exc, tuple) and st.exc[0] == 'h': return   # inside a hint: candidates only
        g = z3.simplify(goal)
        if kind == 'bounds': st.conds.append(g)
        loc = s.loc(dbg)
        if is_true(g):
            s.sink.append(Obl(kind, label, loc, None, g)); return
        s.sink.append(Obl(kind, label, loc, list(st.pc), g))
        if keep:
            n = len(st.pc); s.assume(st, g)
            for f in st.pc[n:]: s.valid[f.get_id()] = f

    # ------------------------------------------------------------- debug info
    def loc(s, dbg, full=False):
        if dbg is None: return '?'
        if dbg in s.labels: return s.labels[dbg]
        m = s.M.md.get(dbg, '')
        chain = []
        d = dbg
        while d is not None and len(chain) < 40:
            m = s.M.md.get(d, '')
            l = re.search(r'line: (\d+)', m); sc = re.search(r'scope: !(\d+)', m); ia = re.search(r'inlinedAt: !(\d+)', m)
            fn, fl, ln = s.scope(int(sc.group(1))) if sc else ('?', '?', None)
            chain.append((fn, fl, int(l.group(1)) if l else 0, ln))
            d = int(ia.group(1)) if ia else None
        for fn, fl, l, ln in chain:
            if '/bwsl/' in fl or fn in s.cfg.get('macro', '').split(): s.funcs_seen[(fn, fl, ln)] = 1
        r = None
        for fn, fl, l, ln in chain:
            if '/bwsl/' in fl:
                r = f'{fn} ({fl.split("/")[-1]}:{l})'; break
        if r is None and chain:
            fn, fl, l, ln = chain[0]
            r = f'{fn} ({fl.split("/")[-1]}:{l})'
        s.labels[dbg] = r
        return r

    def scope(s, sid):
        for _ in range(20):
            m = s.M.md.get(sid, '')
            if 'DISubprogram' in m:
                n = re.search(r'[( ]name: "([^"]*)"', m); f = re.search(r'file: !(\d+)', m); ln = re.search(r'[( ]line: (\d+)', m)
                lk = re.search(r'linkageName: "([^"]*)"', m)
                fm = s.M.md.get(int(f.group(1)), '') if f else ''
                fn = re.search(r'filename: "([^"]*)"', fm)
                return (n.group(1) if n else '?', fn.group(1) if fn else '?', lk.group(1) if lk else None)
            x = re.search(r'scope: !(\d+)', m)
            if not x: break
            sid = int(x.group(1))
        return ('?', '?', None)

    # ------------------------------------------------------------- ints
    def rng_s(s, t, w):
        h = 1 << (w - 1)
        return z3.And(t >= -h, t < h)

    def rng_u(s, t, w):
        return z3.And(t >= 0, t < (1 << w))

    def Sg(s, st, v):
        if v.s: return v.t
        if s.prove(st, s.rng_s(v.t, v.w)):
            return v.t
        m = 1 << v.w
        if v.u: return z3.If(v.t >= (m >> 1), v.t - m, v.t)
        return s.wrap(st, v, -(m >> 1))

    def Un(s, st, v):
        if v.u: return v.t
        if s.prove(st, s.rng_u(v.t, v.w)):
            return v.t
        m = 1 << v.w
        if v.s: return z3.If(v.t < 0, v.t + m, v.t)
        return s.wrap(st, v, 0)

    def wrap(s, st, v, lo):
        m = 1 << v.w
        r = s.fresh('wr', I); k = s.fresh('wk', I)
        s.assume(st, v.t == r + m * k); st.pc.append(r >= lo); st.pc.append(r < lo + m)
        s.wraps[r.decl().name()] = (r, v.t)
        return r

    def canon(s, st, v):
        """signed canonical IntV"""
        if v.s: return v
        return IntV(v.w, simp(s.Sg(st, v)), False, True)

    def asbool(s, st, v):
        if isinstance(v, z3.BoolRef): return v
        if isinstance(v, IntV):
            t = v.t
            if z3.is_app_of(t, z3.Z3_OP_ITE) and is_const(t.arg(1)) and is_const(t.arg(2)):
                a, b = cval(t.arg(1)) % 2, cval(t.arg(2)) % 2
                c = t.arg(0)
                if a == 1 and b == 0: return c
                if a == 0 and b == 1: return z3.Not(c)
            return z3.simplify(t % 2 == 1)
        if type(v) is Undef: return s.fresh('undefb', z3.BoolSort())
        raise Unsupported('asbool ' + repr(v))

    def toint(s, b, w):
        if is_true(b): return IntV(w, 1)
        if is_false(b): return IntV(w, 0)
        return IntV(w, z3.If(b, iv(1), iv(0)), True, w > 1)

    def isint(s, st, v):
        if isinstance(v, z3.BoolRef): return s.toint(v, 1)
        if type(v) is Undef: raise Unsupported('undef int')
        return v

    def ediv(s, st, a, b):
        """mathematical floor division / modulus, b>0 proven or assumed by caller"""
        a = simp(a); b = simp(b)
        if is_const(b) and cval(b) > 0:
            return simp(a / b), simp(a % b)
        q = s.S.DIV(a, b); r = s.S.MOD(a, b)
        return q, r

    # ------------------------------------------------------------- memory
    def get_root(s, name):
        """global variable"""
        if name not in s.globs: s.globs[name] = Root('@' + name, 'global')
        return s.globs[name]

    def gstring(s, p):
        if isinstance(p, Ptr) and p.root.kind == 'global':
            g = s.M.globals.get(p.root.name[1:], '')
            m = re.search(r'c"((?:[^"])*)"', g)
            if m:
                x = re.sub(r'\\([0-9A-Fa-f]{2})', lambda q: chr(int(q.group(1), 16)), m.group(1))
                return x.rstrip('\0')
        return '?'

    def sel(s, t, idxs):
        for i in idxs: t = z3.Select(t, i)
        return t

    def sto(s, t, idxs, v):
        if not idxs: return v
        if len(idxs) == 1: return z3.Store(t, idxs[0], v)
        return z3.Store(t, idxs[0], s.sto(z3.Select(t, idxs[0]), idxs[1:], v))

    def arrsort(s, base, n):
        for _ in range(n): base = z3.ArraySort(I, base)
        return base

    def key(s, p, kind='v'):
        return (p.root, p.hdrs, p.off, kind)

    def read_cell(s, st, p, kind='v'):
        k = s.key(p, kind)
        c = st.mem.get(k)
        if c is None: return None
        if isinstance(c, tuple) and c[0] == 'py': return c[1]
        return z3.simplify(s.sel(c, p.idxs)) if p.chain else c

    def global_cell(s, st, k):
        """a global that is first touched inside a loop: put its initial value into the state before the loop"""
        if k[0].kind != 'global' or k[1] or k[3] != 'v' or k not in s.gcells: return False
        p, val = s.gcells[k]
        ty = ('p',) if not isinstance(val, z3.ExprRef) else ('i', 1) if z3.is_bool(val) else ('i', 64) if z3.is_int(val) else ('f', 64)
        v = s.load_global(st, p, ty)
        w = st.writes; st.writes = []
        if isinstance(v, (z3.BoolRef, )): s.write_cell(st, p, v)
        elif isinstance(v, IntV): s.write_cell(st, p, s.canon(st, v).t)
        elif isinstance(v, FltV): s.write_cell(st, p, v.t)
        else: s.write_cell(st, p, v)
        st.writes = w
        return True

    def write_cell(s, st, p, val, kind='v', sort=None):
        k = s.key(p, kind)
        if p.root.kind == 'global' and not p.chain and k not in st.mem: s.gcells[k] = (p, val)
        if not isinstance(val, z3.ExprRef):
            if p.chain: raise Unsupported(f'non-scalar store into vector element {val!r}')
            st.mem[k] = ('py', val); st.writes.append((k, (), None)); return
        if not p.chain:
            st.mem[k] = val
        else:
            old = st.mem.get(k)
            if old is None or not isinstance(old, z3.ExprRef):
                old = s.fresh('arr', s.arrsort(val.sort(), len(p.chain)))
            st.mem[k] = s.sto(old, p.idxs, val)
        st.writes.append((k, p.idxs, val))

    def is_vec(s, st, p):
        return s.key(p, 'n') in st.mem

    def veclen(s, st, p):
        r = s.read_cell(st, p, 'n')
        if r is None: raise Unsupported(f'not a vector at {p}')
        return r

    def esz(s, st, root, hdrs, hoff):
        return st.mem.get((root, hdrs, hoff, 'e'))

    def esz_of_elem(s, st, p):
        """element size for pointer p pointing into a vector"""
        e = st.mem.get((p.root, p.hdrs[:-1], p.chain[-1][0], 'e'))
        return e

    def init_vec(s, st, p, n, esz):
        s.write_cell(st, p, n, 'n')
        s.lenfact(st, n, esz)
        st.mem[(p.root, p.hdrs, p.off, 'e')] = esz

    def lenfact(s, st, n, esz):
        """std::vector invariant: 0 <= size() <= max_size()"""
        n = simp(n)
        if is_const(n): return
        for f in (n >= 0, n <= (B63 - 1) // esz):
            st.pc.append(f); s.valid[f.get_id()] = f

    def drop_below(s, st, p, size):
        L = len(p.chain)
        for k in list(st.mem):
            if k[0] is p.root and k[1][:L] == p.hdrs:
                o = k[1][L] if len(k[1]) > L else k[2]
                if p.off <= o < p.off + size: del st.mem[k]

    def sub_keys(s, st, p, size):
        L = len(p.chain); out = []
        for k in st.mem:
            if k[0] is p.root and k[1][:L] == p.hdrs:
                o = k[1][L] if len(k[1]) > L else k[2]
                if p.off <= o < p.off + size: out.append(k)
        return out

    def uniform(s, st, nk, c):
        """a pointer that is the same in all elements of a vector (the vtable pointer)"""
        o = st.mem.get(nk)
        return c[0] == 'py' and isinstance(c[1], Ptr) and c[1].root.kind == 'global' and (o is None or (isinstance(o, tuple) and repr(o[1]) == repr(c[1])))

    def copy_cells(s, st, src, dst, size):
        L = len(src.chain); vals = []
        d = dst.off - src.off
        for k in s.sub_keys(st, src, size):
            c = st.mem[k]
            if len(k[1]) > L:
                hd = dst.hdrs + (k[1][L] + d,) + k[1][L + 1:]; off = k[2]
            else:
                hd = dst.hdrs; off = k[2] + d
            nk = (dst.root, hd, off, k[3])
            if k[3] == 'e': vals.append((nk, c)); continue
            if isinstance(c, tuple):
                if dst.chain and not s.uniform(st, nk, c): raise Unsupported('pointer copied into vector element')
                vals.append((nk, c)); continue
            vals.append((nk, s.sel(c, src.idxs) if src.chain else c))
        # stale destination cells
        if not dst.chain:
            s.drop_below(st, dst, size)
        for nk, c in vals:
            if nk[3] == 'e' or isinstance(c, tuple):
                st.mem[nk] = c; st.writes.append((nk, (), None)); continue
            if dst.chain:
                old = st.mem.get(nk)
                if old is None: old = s.fresh('arr', s.arrsort(c.sort(), len(dst.chain)))
                st.mem[nk] = z3.simplify(s.sto(old, dst.idxs, c)) if False else s.sto(old, dst.idxs, c)
            else:
                st.mem[nk] = c
            st.writes.append((nk, dst.idxs, c))

    def check_bounds(s, st, p, dbg, what):
        if not p.chain: return
        h, i = p.chain[-1]
        hp = Ptr(p.root, p.chain[:-1], h)
        n = s.read_cell(st, hp, 'n')
        if n is None: raise Unsupported('access through destroyed vector')
        s.oblige(st, 'bounds', z3.And(i >= 0, i < n), f'{what}: vector index within bounds', dbg)

    def conv_load(s, st, c, ty):
        if ty[0] == 'i':
            if ty[1] == 1:
                return c if z3.is_bool(c) else s.asbool(st, IntV(8, c, False, True))
            if z3.is_bool(c): return s.toint(c, ty[1])
            if not z3.is_int(c):
                raise Unsupported(f'int load of {c.sort()}')
            return IntV(ty[1], c, s.known_u(c), True)
        if ty[0] == 'f':
            if z3.is_int(c):
                c = z3.simplify(c)
                if not is_const(c): raise Unsupported('float load of int cell')
                import struct as _st
                return FltV(ty[1], s.F.const(_st.unpack('<d', _st.pack('<Q', cval(c) & (2**64 - 1)))[0] if ty[1] == 64 else _st.unpack('<f', _st.pack('<I', cval(c) & (2**32 - 1)))[0]))
            return FltV(ty[1], c)
        raise Unsupported('load type ' + str(ty))

    def known_u(s, c):
        return False

    def load(s, st, p, ty, dbg):
        if isinstance(p, NullT):
            s.oblige(st, 'null', FALSE, 'load through null pointer', dbg); raise Dead()
        if p is OPQ: return OPQ
        if not isinstance(p, Ptr): raise Unsupported(f'load via {p!r}')
        if p.root.kind == 'global' and not p.chain and not (ty[0] == 'p' and any(s.is_vec(st, p.add(-d)) for d in (0, 8, 16))): return s.load_global(st, p, ty)
        s.check_bounds(st, p, dbg, 'read')
        if ty[0] == 'p':
            for d in (0, 8, 16):
                q = p.add(-d)
                if s.is_vec(st, q):
                    n = s.veclen(st, q)
                    if d == 0: return q.elem(iv(0))
                    if d == 8: return q.elem(n)
                    cap = s.fresh('cap', I); s.assume(st, cap >= n)
                    return q.elem(cap)
        c = st.mem.get(s.key(p))
        if c is None:
            if ty[0] == 'p':
                if getattr(p.root, 'opaque', False): return OPQ
                raise Unsupported(f'load of unknown pointer at {p} {[k for k in st.mem if k[0] is p.root][:6]}')
            if ty[0] == 'i' and ty[1] == 64 and not p.chain:
                # two adjacent i32 etc. are not modelled
                pass
            srt = I if ty[0] == 'i' else s.F.sort
            v = s.fresh('uninit', srt)
            if ty[0] == 'i': s.assume(st, s.rng_s(v, max(ty[1], 8)))
            if p.chain:
                arr = s.fresh('arr', s.arrsort(srt, len(p.chain)))
                st.mem[s.key(p)] = arr
                v2 = s.sel(arr, p.idxs)
                if ty[0] == 'i': s.assume(st, s.rng_s(v2, ty[1]))
                return s.conv_load(st, v2, ty)
            st.mem[s.key(p)] = v
            return s.conv_load(st, v, ty)
        if isinstance(c, tuple):
            v = c[1]
            if ty[0] == 'p': return v
            if isinstance(v, PtrInt): return v
            raise Unsupported(f'load {ty} of {v!r}')
        v = s.read_cell(st, p)
        if ty[0] == 'p': raise Unsupported('pointer load of scalar cell')
        if ty[0] == 'i' and not z3.is_bool(v) and z3.is_int(v) and p.chain and ty[1] >= 8:
            s.elem_range(st, v, ty[1])
        return s.conv_load(st, v, ty)

    def elem_range(s, st, v, w):
        """machine cells hold canonical signed values"""
        if is_const(v): return
        if is_const(v): return
        f = s.rng_s(v, w)
        for c in f.children():
            st.pc.append(c); s.valid[c.get_id()] = c

    def store(s, st, p, v, ty, dbg):
        if isinstance(p, NullT):
            s.oblige(st, 'null', FALSE, 'store through null pointer', dbg); raise Dead()
        if not isinstance(p, Ptr): raise Unsupported(f'store via {p!r}')
        s.check_bounds(st, p, dbg, 'write')
        if type(v) is Undef: return
        if isinstance(v, z3.BoolRef):
            s.write_cell(st, p, v)
        elif isinstance(v, IntV):
            s.write_cell(st, p, s.canon(st, v).t)
        elif isinstance(v, FltV):
            s.write_cell(st, p, v.t)
        elif isinstance(v, list):
            raise Unsupported('aggregate store')
        else:
            s.write_cell(st, p, v)

    def load_global(s, st, p, ty):
        name = p.root.name[1:]
        k = s.key(p)
        if k in st.mem:
            c = st.mem[k]
            if isinstance(c, tuple): return c[1]
            return s.conv_load(st, c, ty)
        g = s.M.globals.get(name)
        if g is None: raise Unsupported('global ' + name)
        m = re.match(r'^(.*?)\b(global|constant) (.*)$', g)
        if not m: raise Unsupported('global def ' + g[:80])
        t = irparse.Toks(re.sub(r', (section|comdat|align|!dbg|no_sanitize).*$', '', m.group(3)))
        gty = irparse.parse_type(t)
        if t.peek() is None: raise Unsupported('external global ' + name)
        v = irparse.parse_val(t, gty)
        return s.const_at(st, v, gty, p.off, ty)

    def const_at(s, st, v, gty, off, ty):
        r = s.M.resolve(gty)
        if v.k == 'zero':
            return IntV(ty[1], 0) if ty[0] == 'i' and ty[1] > 1 else (FALSE if ty[0] == 'i' else (NULL if ty[0] == 'p' else FltV(ty[1], s.F.const(0.))))
        if r[0] == 'a':
            es = s.M.sizeof(r[2]); i = off // es
            if v.k == 'cstr':
                x = v.v[2:-1]; x = re.sub(r'\\([0-9A-Fa-f]{2})', lambda q: chr(int(q.group(1), 16)), x)
                return IntV(8, ord(x[i]))
            return s.const_at(st, v.v[i], r[2], off % es, ty)
        if r[0] == 's':
            offs, _ = s.M.struct_layout(r)
            for i in range(len(offs) - 1, -1, -1):
                if offs[i] <= off: return s.const_at(st, v.v[i], r[1][i], off - offs[i], ty)
        return s.val(st, {}, v)

    # ------------------------------------------------------------- values
    def val(s, st, env, v):
        k = v.k
        if k == 'loc': return env[v.v]
        if k == 'i':
            if v.t[1] == 1: return TRUE if v.v else FALSE
            return IntV(v.t[1], v.v)
        if k == 'f': return FltV(v.t[1], s.F.const(v.v))
        if k == 'null': return NULL
        if k == 'undef' or k == 'none': return s.undef(v.t)
        if k == 'zero': return s.zero(v.t)
        if k == 'glob':
            n = v.v
            if n in s.M.bodies or n in s.M.decls: return FnPtr(n)
            return Ptr(s.get_root(n))
        if k == 'cgep':
            bt, vals = v.v
            b = s.val(st, env, vals[0])
            return s.gep(st, b, bt, [s.val(st, env, x) for x in vals[1:]])
        if k == 'agg': return [s.val(st, env, x) for x in v.v]
        if k == 'ccast':
            op, x, t = v.v
            return s.cast(st, op, s.val(st, env, x), x.t, t)
        if k == 'md': return None
        raise Unsupported('value ' + repr(v))

    def undef(s, t):
        t = s.M.resolve(t)
        if t[0] == 's': return [s.undef(x) for x in t[1]]
        return UNDEF

    def zero(s, t):
        t = s.M.resolve(t)
        if t[0] == 'i': return FALSE if t[1] == 1 else IntV(t[1], 0)
        if t[0] == 'f': return FltV(t[1], s.F.const(0.))
        if t[0] == 'p': return NULL
        if t[0] == 's': return [s.zero(x) for x in t[1]]
        if t[0] == 'a': return [s.zero(t[2]) for _ in range(t[1])]
        raise Unsupported('zero')

    def scale(s, t, c, d):
        """(t*c)/d exactly if possible"""
        if c % d == 0: return simp(t * (c // d))
        x = simp(t * c)
        # every monomial coefficient divisible by d
        def div(e):
            if is_const(e): return iv(cval(e) // d) if cval(e) % d == 0 else None
            if z3.is_add(e):
                l = [div(q) for q in e.children()]
                return None if any(q is None for q in l) else z3.Sum(l)
            if z3.is_mul(e):
                ch = e.children()
                if is_const(ch[0]) and cval(ch[0]) % d == 0:
                    r = iv(cval(ch[0]) // d)
                    for q in ch[1:]: r = r * q
                    return r
            return None
        r = div(x)
        if r is None: raise Unsupported('pointer arithmetic not a multiple of the element size')
        return simp(r)

    def gep(s, st, p, bt, idx):
        if isinstance(p, NullT):
            if all(isinstance(i, IntV) and is_const(i.t) and cval(i.t) == 0 for i in idx): return NULL
            raise Unsupported('gep null')
        if p is OPQ or any(i is OPQ for i in idx): return OPQ
        if not isinstance(p, Ptr): raise Unsupported(f'gep {p!r}')
        ty = ('a', 0, bt); first = True
        for i in idx:
            r = s.M.resolve(ty) if not first else ty
            if r[0] == 's':
                offs, _ = s.M.struct_layout(r); c = cval(i.t)
                p = p.add(offs[c]); ty = r[1][c]; first = False; continue
            if r[0] in ('a', 'vec'):
                es = s.M.sizeof(r[2]); it = s.Sg(st, i)
                ty = r[2]; first = False
                if is_const(it):
                    b = cval(it) * es
                    if p.chain:
                        ez = s.esz_of_elem(st, p)
                        if ez and (b % ez == 0) and p.off == 0 and b != 0:
                            p = s.shift(p, iv(b // ez)); continue
                        if ez and not (0 <= p.off + b < ez):
                            q, m = divmod(p.off + b, ez)
                            p = s.shift(Ptr(p.root, p.chain, m), iv(q)); continue
                    p = p.add(b)
                    continue
                if not p.chain: raise NeedSplit(it)
                ez = s.esz_of_elem(st, p)
                if ez is None: raise Unsupported('element size unknown')
                p = s.shift(p, s.scale(it, es, ez))
                continue
            raise Unsupported('gep type')
        return p

    def shift(s, p, d):
        h, i = p.chain[-1]
        return Ptr(p.root, p.chain[:-1] + ((h, simp(i + d)),), p.off)

    def ptr_diff(s, st, a, b):
        if isinstance(a, NullT) and isinstance(b, NullT): return IntV(64, 0)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root is b.root:
            if a.hdrs == b.hdrs and len(a.chain) > 0:
                same = all(z3.simplify(x == y).eq(TRUE) or s.prove(st, x == y) for x, y in zip(a.idxs[:-1], b.idxs[:-1]))
                if same:
                    ez = s.esz_of_elem(st, a)
                    if ez is None: raise Unsupported('element size unknown (diff)')
                    t = simp((a.idxs[-1] - b.idxs[-1]) * ez + (a.off - b.off))
                    return IntV(64, t)
            elif not a.chain and not b.chain:
                return IntV(64, a.off - b.off)
        raise Unsupported(f'pointer difference {a} {b}')

    def ptr_cmp(s, st, pred, a, b):
        if isinstance(a, PtrInt): a = a.p
        if isinstance(b, PtrInt): b = b.p
        eqv = None
        if isinstance(a, NullT) and isinstance(b, NullT): eqv = TRUE
        elif isinstance(a, NullT) or isinstance(b, NullT):
            o = b if isinstance(a, NullT) else a
            if isinstance(o, Ptr) and o.chain:
                h = Ptr(o.root, o.chain[:-1], o.chain[-1][0])
                n = s.read_cell(st, h, 'n')
                eqv = s.fresh('nullvec', z3.BoolSort())
                if n is not None: s.assume(st, z3.Implies(n > 0, z3.Not(eqv)))
            else: eqv = FALSE
        elif isinstance(a, FnPtr) or isinstance(b, FnPtr):
            eqv = TRUE if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name else FALSE
        elif a.root is b.root and a.hdrs == b.hdrs:
            if not a.chain: 
                d = a.off - b.off
                return {'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred] and TRUE or FALSE
            if all(z3.simplify(x == y).eq(TRUE) or s.prove(st, x == y) for x, y in zip(a.idxs[:-1], b.idxs[:-1])) and a.off == b.off:
                x, y = a.idxs[-1], b.idxs[-1]
                return z3.simplify({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
            eqv = s.fresh('peq', z3.BoolSort())
        elif a.chain and b.chain:
            eqv = s.fresh('peq', z3.BoolSort())
        else: eqv = FALSE
        if pred == 'eq': return eqv
        if pred == 'ne': return z3.simplify(z3.Not(eqv))
        if isinstance(a, Ptr) and isinstance(b, Ptr): return s.fresh('pcmp', z3.BoolSort())
        raise Unsupported('pointer comparison ' + pred)

    def cast(s, st, op, v, fty, tty):
        if type(v) is Undef: return UNDEF
        if op == 'zext':
            if isinstance(v, z3.BoolRef): return s.toint(v, tty[1])
            return IntV(tty[1], s.Un(st, v), True, True)
        if op == 'sext':
            if isinstance(v, z3.BoolRef):
                return IntV(tty[1], z3.simplify(z3.If(v, iv(-1), iv(0))), False, True)
            return IntV(tty[1], s.Sg(st, v), v.u and v.s, True)
        if op == 'trunc':
            if isinstance(v, PtrInt): raise Unsupported('trunc ptr')
            if tty[1] == 1: return s.asbool(st, v)
            return IntV(tty[1], v.t, False, False)
        if op in ('fpext', 'fptrunc'):
            if s.F.name == 'real': return FltV(tty[1], v.t)
            return FltV(tty[1], s.F.fn(op + str(fty[1]) + '_' + str(tty[1]), 1)(v.t))
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, z3.BoolRef): v = s.toint(v, 8)
            return FltV(tty[1], s.F.fromint(simp(s.Sg(st, v) if op == 'sitofp' else s.Un(st, v))))
        if op in ('fptosi', 'fptoui'):
            t = s.F.toint(v.t)
            if s.F.name == 'real':
                g = s.rng_s(t, tty[1]) if op == 'fptosi' else s.rng_u(t, tty[1])
                s.oblige(st, 'overflow', g, 'floating to integer conversion in range', s.curdbg)
            else:
                s.assume(st, s.rng_s(t, tty[1]))
            return IntV(tty[1], t, op == 'fptoui', op == 'fptosi')
        if op == 'ptrtoint': return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
        if op == 'bitcast':
            if fty == tty: return v
            if fty == ('f', 64) and tty == ('i', 64) and hasattr(s.F, 'consts'):
                f = z3.Function('f_bits', s.F.sort, I)
                t = f(v.t); s.assume(st, s.rng_s(t, 64)); return IntV(64, t, False, True)
        raise Unsupported('cast ' + op)


class Dead(Exception):
    """path ends (infeasible or terminated)"""


class NeedSplit(Exception):
    def __init__(s, t): s.t = t


class Fork(Exception):
    """re-execute the current instruction under each of the conditions"""

    def __init__(s, conds): s.conds = conds
