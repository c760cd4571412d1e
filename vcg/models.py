"""Contracts of external functions: contract-language intrinsics, compiler
intrinsics, exception ABI, and the allocation-changing std::vector operations
(trusted; everything else of the standard library used by the code is inlined
and verified as code)."""
import re
import z3
from values import *
from engine import *
import specs

EXACT = {}
PATS = []


def exact(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATS.append((re.compile(rx), f)); return f
    return d


_cache = {}


def find(e, name):
    if name in EXACT: return EXACT[name]
    if name in specs.INTR: return specs.INTR[name]
    d = e.M.dem.get(name, name)
    if name in _cache: return _cache[name]
    r = None
    for rx, f in PATS:
        if rx.search(d) or rx.search(name):
            r = f; break
    if r is not None and name in e.M.bodies and not getattr(r, 'override', False): r = None
    _cache[name] = r
    return r


def noop(e, st, a, ins, d): return None


# ---------------------------------------------------------------- vf
@exact('vf_any_i64')
def any_i64(e, st, a, ins, d):
    nm = e.gstring(a[0]); v = e.fresh(nm, I)
    e.inputs.append((nm, 'int', v))
    st.pc.append(v >= ival(e, st, a[1])); st.pc.append(v <= ival(e, st, a[2]))
    return IntV(64, v, False, True)


def ival(e, st, v): return simp(e.Sg(st, v))
def uval(e, st, v): return simp(e.Un(st, v))


@exact('vf_any_u64')
def any_u64(e, st, a, ins, d):
    nm = e.gstring(a[0]); v = e.fresh(nm, I)
    e.inputs.append((nm, 'int', v))
    lo, hi = uval(e, st, a[1]), uval(e, st, a[2])
    st.pc.append(v >= lo); st.pc.append(v <= hi)
    return IntV(64, v, True, is_const(hi) and cval(hi) < B63)


@exact('vf_any_f64')
def any_f64(e, st, a, ins, d):
    nm = e.gstring(a[0]); v = e.fresh(nm, e.F.sort)
    e.inputs.append((nm, 'flt', v))
    if e.asbool(st, a[3]) is not None and is_true(e.asbool(st, a[3])):
        mx = 1.7976931348623157e308
        lo, hi = a[1].t, a[2].t
        if e.F.name == 'real':
            if not lo.eq(e.F.const(-mx)): e.assume(st, lo <= v)
            if not hi.eq(e.F.const(mx)): e.assume(st, v <= hi)
        else:
            e.assume(st, z3.Not(e.F.isnan(v)))
            e.assume(st, e.F.le(lo, v)); e.assume(st, e.F.le(v, hi))
    return FltV(64, v)


@exact('vf_any_bool')
def any_bool(e, st, a, ins, d):
    nm = e.gstring(a[0]); v = e.fresh(nm, z3.BoolSort())
    e.inputs.append((nm, 'bool', v))
    return v


@exact('vf_vec_i')
def vec_i(e, st, a, ins, d):
    p, nm, n, esz, lo, hi = a
    nm = e.gstring(nm)
    n = simp(uval(e, st, n)); esz = cval(esz.t); lo = ival(e, st, lo); hi = ival(e, st, hi)
    e.drop_below(st, p, 24)
    e.init_vec(st, p, n, esz)
    arr = e.fresh(nm, z3.ArraySort(I, I))
    e.inputs.append((nm, 'arr', (arr, n)))
    k = z3.FreshInt('k')
    e.write_cell(st, p.elem(iv(0)), z3.IntVal(0)) if False else None
    kk = (p.root, p.hdrs + (p.off,), 0, 'v')
    if p.chain: raise Unsupported('any_vec nested')
    st.mem[kk] = arr; st.writes.append((kk, (), None))
    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(arr[k] >= lo, arr[k] <= hi)), patterns=[arr[k]]))


@exact('vf_vec_f')
def vec_f(e, st, a, ins, d):
    p, nm, n, lo, hi = a
    nm = e.gstring(nm)
    n = simp(uval(e, st, n))
    e.drop_below(st, p, 24)
    e.init_vec(st, p, n, 8)
    arr = e.fresh(nm, z3.ArraySort(I, e.F.sort))
    e.inputs.append((nm, 'arr', (arr, n)))
    kk = (p.root, p.hdrs + (p.off,), 0, 'v')
    if p.chain: raise Unsupported('any_vec nested')
    st.mem[kk] = arr; st.writes.append((kk, (), None))
    mx = 1.7976931348623157e308
    k = z3.FreshInt('k'); c = []
    if e.F.name == 'real':
        if not lo.t.eq(e.F.const(-mx)): c.append(e.F.le(lo.t, arr[k]))
        if not hi.t.eq(e.F.const(mx)): c.append(e.F.le(arr[k], hi.t))
    else:
        c.append(z3.Not(e.F.isnan(arr[k]))); c.append(e.F.le(lo.t, arr[k])); c.append(e.F.le(arr[k], hi.t))
    if c: st.pc.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(c)), patterns=[arr[k]]))


@exact('vf_assume')
def vf_assume(e, st, a, ins, d):
    c = e.asbool(st, a[0])
    e.assume(st, z3.simplify(c))
    e.reach.setdefault('assume', 0)
    if not e.feasible(st): raise Dead()


@exact('vf_check')
def vf_check(e, st, a, ins, d):
    lab = e.gstring(a[1])
    e.checks[lab] = e.checks.get(lab, 0) + 1
    e.oblige(st, 'post', e.asbool(st, a[0]), lab, ins.dbg)


@exact('vf_stop')
def vf_stop(e, st, a, ins, d): raise Dead()


@exact('vf_skolem')
def vf_skolem(e, st, a, ins, d):
    v = e.fresh('sk', I); st.pc.append(v >= -B63); st.pc.append(v < B63)
    return IntV(64, v, False, True)


@exact('vf_q_begin')
def vf_q_begin(e, st, a, ins, d):
    v = e.fresh('qv', I); lo = ival(e, st, a[0]); hi = ival(e, st, a[1])
    st.exc = ('q', v, len(st.pc), lo, hi)
    st.pc.append(v >= lo); st.pc.append(v < hi)
    return IntV(64, v, False, True)


def rec_apps(t, k, out):
    stk = [t]; seen = set()
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith('REC') and x.arg(x.num_args() - 1).eq(k):
            if not any(x.eq(y) for y in out): out.append(x)
        stk += x.children()


@exact('vf_q_end')
def vf_q_end(e, st, a, ins, d):
    q = st.exc
    _, v, n, lo, hi = q
    extra = [f for f in st.pc[n:] if f.get_id() not in e.valid]
    b = e.asbool(st, a[1])
    st.pc = st.pc[:n]
    st.exc = None
    f = z3.Implies(z3.And(extra) if extra else TRUE, b)
    f = z3.simplify(f)
    # other path facts mention only v (arbitrary): re-quantify
    pats = []
    rec_apps(f, v, pats)
    st.pc.append(z3.ForAll([v], f, patterns=pats) if pats else z3.ForAll([v], f))
    return None


@exact('vf_h_begin')
def vf_h_begin(e, st, a, ins, d):
    v = e.fresh('hv', I)
    st.exc = ('h', v, len(st.pc), None, None)
    st.pc.append(v >= 0); st.pc.append(v < (1 << 62))
    return IntV(64, v, False, True)


def hint(e, st, k, t):
    q = st.exc
    st.pc = st.pc[:q[2]]; st.exc = None
    st.hints = st.hints + [(k, z3.simplify(t))]


@exact('vf_h_i64')
def vf_h_i64(e, st, a, ins, d): hint(e, st, a[0].t, ival(e, st, a[1]))


@exact('vf_h_f64')
def vf_h_f64(e, st, a, ins, d): hint(e, st, a[0].t, a[1].t)


@exact('vf_h_bool')
def vf_h_bool(e, st, a, ins, d): hint(e, st, a[0].t, e.asbool(st, a[1]))


@exact('vf_h_clear')
def vf_h_clear(e, st, a, ins, d): st.hints = []; st.focus = []; st.focus2 = []


@exact('vf_focus')
def vf_focus(e, st, a, ins, d): st.focus = st.focus + [ival(e, st, a[0])]


@exact('vf_focus2')
def vf_focus2(e, st, a, ins, d): st.focus2 = st.focus2 + [(ival(e, st, a[0]), ival(e, st, a[1]))]


# two-parameter hints: (row, counter) -> value
@exact('vf_h2_begin')
def vf_h2_begin(e, st, a, ins, d):
    v, w = e.fresh('hv', I), e.fresh('hv', I)
    st.exc = ('h', (v, w), len(st.pc), None, None)
    for x in (v, w): st.pc.append(x >= 0); st.pc.append(x < (1 << 62))
    return IntV(64, v, False, True)


@exact('vf_h2_second')
def vf_h2_second(e, st, a, ins, d): return IntV(64, st.exc[1][1], False, True)


@exact('vf_h2_i64', 'vf_h2_f64', 'vf_h2_bool')
def vf_h2_end(e, st, a, ins, d):
    q = st.exc
    t = a[1].t if isinstance(a[1], FltV) else e.asbool(st, a[1]) if isinstance(a[1], z3.BoolRef) else ival(e, st, a[1])
    st.pc = st.pc[:q[2]]; st.exc = None
    st.hints = st.hints + [(q[1][0], q[1][1], z3.simplify(t))]


# ---- recursively defined specification functions: F_j(0) = init_j, F_j(k+1) = step_j(F(k), k)
@exact('vf_rec_new')
def rec_new(e, st, a, ins, d):
    st.nrec += 1
    return IntV(64, iv(st.nrec), False, True)


def recf(e, i, j, kind):
    return z3.Function(f'REC{i}_{j}', I, e.F.sort if kind == 'f' else I)


def _rid(v): return cval(z3.simplify(v.t))


@exact('vf_rec_init_f', 'vf_rec_init_i')
def rec_init(e, st, a, ins, d):
    isf = isinstance(a[2], FltV)
    t = a[2].t if isf else ival(e, st, a[2])
    st.pc.append(recf(e, _rid(a[0]), _rid(a[1]), 'f' if isf else 'i')(iv(0)) == t)


@exact('vf_rec_begin')
def rec_begin(e, st, a, ins, d):
    v = e.fresh('rk', I)
    st.pc.append(v >= 0); st.pc.append(v < (1 << 62))
    st.exc = ('h', v, len(st.pc), [], None)
    return IntV(64, v, False, True)


@exact('vf_rec_at_f')
def rec_at_f(e, st, a, ins, d): return FltV(64, recf(e, _rid(a[0]), _rid(a[1]), 'f')(ival(e, st, a[2])))


@exact('vf_rec_at_i')
def rec_at_i(e, st, a, ins, d): return IntV(64, recf(e, _rid(a[0]), _rid(a[1]), 'i')(ival(e, st, a[2])), False, True)


@exact('vf_rec_step_f', 'vf_rec_step_i')
def rec_step(e, st, a, ins, d):
    isf = isinstance(a[3], FltV)
    st.exc[3].append((recf(e, _rid(a[0]), _rid(a[1]), 'f' if isf else 'i'), z3.simplify(a[3].t if isf else ival(e, st, a[3]))))


def sels_of(t, k, out):
    stk = [t]; seen = set()
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(1).eq(k) and not z3.is_array(x):
            if not any(x.eq(y) for y in out): out.append(x)
        stk += x.children()


@exact('vf_rec_end')
def rec_end(e, st, a, ins, d):
    _, k, n, steps, _ = st.exc
    # what was found out (or chosen, at a branch) on the way: the step is only known under it
    extra = [f for f in st.pc[n:] if f.get_id() not in e.valid]
    st.pc = st.pc[:n]; st.exc = None
    sels = []
    for f, t in steps: sels_of(t, k, sels)
    if not sels:
        sels = [z3.Function('USE_Int', I, z3.BoolSort())(k)]
    body = z3.And([f(k + 1) == t for f, t in steps])
    if extra and e.opts.get('trace', 0) > 1: print('REC STEP UNDER', extra)
    if extra: body = z3.Implies(z3.And(extra), body)
    st.recs = st.recs + [(k, z3.Implies(z3.And(k >= 0, k < (1 << 62)), body))]
    st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < (1 << 62)), body), patterns=[z3.MultiPattern(f(k), x) for f, t in steps for x in sels]))


@exact('vf_rec_unfold')
def rec_unfold(e, st, a, ins, d):
    t = ival(e, st, a[0])
    for k, f in st.recs: st.pc.append(z3.simplify(z3.substitute(f, (k, t))))


@exact('vf_vec_bits')
def vec_bits(e, st, a, ins, d):
    p, nm, n = a
    nm = e.gstring(nm); n = simp(uval(e, st, n))
    e.drop_below(st, p, 24); e.init_vec(st, p, n, 8)
    arr = e.fresh(nm, z3.ArraySort(I, e.F.sort))
    e.inputs.append((nm, 'arr', (arr, n)))
    kk = (p.root, p.hdrs + (p.off,), 0, 'v')
    st.mem[kk] = arr; st.writes.append((kk, (), None))


@exact('vf_same_f')
def same_f(e, st, a, ins, d): return e.F.same(a[0].t, a[1].t)


@exact('vf_uf')
def vf_uf(e, st, a, ins, d):
    # an arbitrary function of integers (for contracts that say no more than that a result depends on these)
    I = z3.IntSort()
    f = z3.Function('UF', I, I, I, I, e.F.sort)
    return FltV(64, f(*[ival(e, st, x) for x in a]))


@exact('vf_uf_i')
def vf_uf_i(e, st, a, ins, d):
    I = z3.IntSort()
    t = z3.Function('UFi', I, I, I, I, I)(*[ival(e, st, x) for x in a])
    n = len(st.pc); e.assume(st, e.rng_s(t, 64))
    for f in st.pc[n:]: e.valid[f.get_id()] = f  # a function into the 64-bit integers, whatever the arguments
    return IntV(64, t, False, True)


def table(e, st, p, n, sort, esz, lens=None):
    """a vector of n vectors; returns (array of row lengths, array of rows)"""
    e.drop_below(st, p, 24)
    if p.chain: raise Unsupported('nested table')
    e.init_vec(st, p, n, 24)
    q = p.elem(iv(0))
    ln = e.fresh('rowlen', z3.ArraySort(I, I)) if lens is None else lens; v = e.fresh('rows', z3.ArraySort(I, z3.ArraySort(I, sort)))
    kn, kv = (q.root, q.hdrs, 0, 'n'), (q.root, q.hdrs + (0,), 0, 'v')
    st.mem[(q.root, q.hdrs, 0, 'e')] = esz
    for k, x in ((kn, ln), (kv, v)): st.mem[k] = x; st.writes.append((k, (), None))
    k = z3.FreshInt('k')
    return ln, v, k, z3.And(0 <= k, k < n)


@exact('vf_table_f')
def vf_table_f(e, st, a, ins, d):
    # n rows of d (constant) reals UF(id + column, row, 0, 0)
    p, n, dd, fid = a
    n = simp(uval(e, st, n)); dd = cval(simp(uval(e, st, dd))); fid = cval(simp(uval(e, st, fid)))
    ln, v, k, inr = table(e, st, p, n, e.F.sort, 8, z3.K(I, z3.IntVal(dd)))
    f = z3.Function('UF', I, I, I, I, e.F.sort)
    st.pc.append(z3.ForAll([k], z3.Implies(inr, z3.And([v[k][c] == f(fid + c, k, 0, 0) for c in range(dd)])), patterns=[v[k]]))


@exact('vf_table_i')
def vf_table_i(e, st, a, ins, d):
    # n rows of UFi(id, row, 0, 0) integers UFi(id + 1, row, column, 0)
    p, n, fid = a
    n = simp(uval(e, st, n)); fid = cval(simp(uval(e, st, fid)))
    ln, v, k, inr = table(e, st, p, n, I, 8)
    f = z3.Function('UFi', I, I, I, I, I)
    j = z3.FreshInt('j')
    st.pc.append(z3.ForAll([k], z3.Implies(inr, z3.And(ln[k] == f(fid, k, 0, 0), ln[k] >= 0, ln[k] <= (B63 - 1) // 8)), patterns=[ln[k]]))
    st.pc.append(z3.ForAll([k, j], z3.Implies(z3.And(inr, 0 <= j, j < f(fid, k, 0, 0)), z3.And(v[k][j] == f(fid + 1, k, j, 0), v[k][j] >= 0, v[k][j] < B63)), patterns=[v[k][j]]))


@exact('vf_ite_f')
def ite_f(e, st, a, ins, d): return FltV(64, z3.simplify(z3.If(e.asbool(st, a[0]), a[1].t, a[2].t)))


@exact('vf_ite_i')
def ite_i(e, st, a, ins, d): return IntV(64, z3.simplify(z3.If(e.asbool(st, a[0]), ival(e, st, a[1]), ival(e, st, a[2]))), False, True)


@exact('vf_use_i', 'vf_use_f', 'vf_use_b')
def vf_use(e, st, a, ins, d):
    t = a[0].t if not isinstance(a[0], z3.BoolRef) else a[0]
    f = z3.Function('USE_' + str(t.sort()), t.sort(), z3.BoolSort())
    st.pc.append(f(t))


# ---------------------------------------------------------------- llvm
@pat(r'^llvm\.(lifetime|dbg|experimental\.noalias|invariant|donothing|stacksave|stackrestore|prefetch)')
def llvm_nop(e, st, a, ins, d): return None


@pat(r'^llvm\.assume')
def llvm_assume(e, st, a, ins, d): return None


@pat(r'^llvm\.expect')
def llvm_expect(e, st, a, ins, d): return a[0]


@pat(r'^llvm\.is\.constant')
def llvm_isconst(e, st, a, ins, d): return FALSE


@pat(r'^llvm\.eh\.typeid\.for')
def llvm_typeid(e, st, a, ins, d):
    return IntV(32, typeid(e, a[0].root.name[1:]))


@pat(r'^llvm\.(memcpy|memmove)')
def llvm_memcpy(e, st, a, ins, d):
    dst, src, n = a[0], a[1], a[2]
    nt = ival(e, st, n)
    if is_const(nt):
        c = cval(nt)
        if c == 0: return None
        if src.root.kind == 'global': return copy_global(e, st, src, dst, c)
        if not dst.chain and not src.chain:
            e.copy_cells(st, src, dst, c); return None
        if not dst.chain or not src.chain or True:
            ez = e.esz_of_elem(st, dst) if dst.chain else e.esz_of_elem(st, src)
            if c <= (ez or 8):
                e.check_bounds(st, src, ins.dbg, 'memcpy'); e.check_bounds(st, dst, ins.dbg, 'memcpy')
                e.copy_cells(st, src, dst, c); return None
    return range_copy(e, st, src, dst, nt, ins)


def copy_global(e, st, src, dst, n):
    import irparse
    g = e.M.globals.get(src.root.name[1:])
    m = re.match(r'^(.*?)\b(global|constant) (.*)$', g)
    t = irparse.Toks(re.sub(r', (section|comdat|align|!dbg|no_sanitize).*$', '', m.group(3)))
    gty = irparse.parse_type(t)
    v = irparse.parse_val(t, gty)

    def leaves(ty, off):
        r = e.M.resolve(ty)
        if r[0] == 'a':
            es = e.M.sizeof(r[2])
            for i in range(r[1]): yield from leaves(r[2], off + i * es)
        elif r[0] == 's':
            offs, _ = e.M.struct_layout(r)
            for o, x in zip(offs, r[1]): yield from leaves(x, off + o)
        else: yield off, r
    for off, ty in leaves(gty, 0):
        if src.off <= off < src.off + n:
            x = e.const_at(st, v, gty, off, ty)
            e.store(st, dst.add(off - src.off), x, ty, None)


def range_copy(e, st, src, dst, nbytes, ins):
    """copy of a symbolic number of trivially copyable elements"""
    if isinstance(src, NullT) or isinstance(dst, NullT):
        e.oblige(st, 'bounds', nbytes == 0, 'copy from/to empty range', ins.dbg); return None
    if not (src.chain and dst.chain): raise Unsupported('memcpy of symbolic size')
    ez = e.esz_of_elem(st, src)
    n = e.scale(nbytes, 1, ez)
    so, do = src.idxs[-1], dst.idxs[-1]
    ls = e.veclen(st, Ptr(src.root, src.chain[:-1], src.chain[-1][0]))
    ld = e.veclen(st, Ptr(dst.root, dst.chain[:-1], dst.chain[-1][0]))
    e.oblige(st, 'bounds', z3.Implies(n > 0, z3.And(so >= 0, so + n <= ls, do >= 0, do + n <= ld)), 'copied range within bounds', ins.dbg)
    copy_range(e, st, src, dst, n)


def copy_range(e, st, src, dst, n):
    """elements src[0..n) -> dst[0..n) (pointers into vectors)"""
    L = len(src.chain)
    so, do = src.idxs[-1], dst.idxs[-1]
    vals = []
    for k in list(st.mem):
        if k[0] is src.root and k[1][:L] == src.hdrs and k[3] != 'e' and not isinstance(st.mem[k], tuple):
            vals.append((k, e.sel(st.mem[k], src.idxs[:-1])))
    for k, sa in vals:
        nk = (dst.root, dst.hdrs + k[1][L:], k[2], k[3])
        old = st.mem.get(nk)
        if old is None:
            srt = sa.sort()
            for _ in range(len(dst.chain) - 1): srt = z3.ArraySort(I, srt)
            old = e.fresh('arr', srt)
        da = e.sel(old, dst.idxs[:-1])
        r = e.fresh('cp', da.sort())
        q = z3.FreshInt('q')
        st.pc.append(z3.ForAll([q], z3.Select(r, q) == z3.If(z3.And(q >= do, q < do + n), z3.Select(sa, simp(q - do + so)), z3.Select(da, q)), patterns=[z3.Select(r, q)]))
        st.mem[nk] = e.sto(old, dst.idxs[:-1], r)
        st.writes.append((nk, dst.idxs[:-1], r))


@pat(r'^llvm\.memset')
def llvm_memset(e, st, a, ins, d):
    p, v, n = a[0], a[1], a[2]
    nt = ival(e, st, n)
    if is_const(nt) and is_const(v.t) and cval(v.t) == 0:
        c = cval(nt)
        if p.chain and c > 8: raise Unsupported('memset into vector')
        e.drop_below(st, p, c) if not p.chain else None
        st.mem[(p.root, p.hdrs, p.off, 'z')] = ('py', c)
        for o in range(0, c, 8): e.write_cell(st, p.add(o), iv(0))
        return None
    raise Unsupported('memset')


@pat(r'^llvm\.(smax|smin|umax|umin)\.')
def llvm_minmax(e, st, a, ins, d):
    m = re.search(r'(smax|smin|umax|umin)', d).group(1)
    f = e.Sg if m[0] == 's' else e.Un
    x, y = f(st, a[0]), f(st, a[1])
    c = x >= y if m[1:] == 'max' else x <= y
    return IntV(a[0].w, z3.If(c, x, y), m[0] == 'u', m[0] == 's')


@pat(r'^llvm\.abs\.')
def llvm_abs(e, st, a, ins, d):
    x = e.Sg(st, a[0])
    e.oblige(st, 'overflow', x > -(1 << (a[0].w - 1)), 'abs does not overflow', ins.dbg)
    return IntV(a[0].w, z3.If(x >= 0, x, -x), True, True)


@exact('abs', 'labs', 'llabs')
def c_abs(e, st, a, ins, d): return llvm_abs(e, st, a, ins, d)


@exact('nan', 'nanf')
def c_nan(e, st, a, ins, d): return FltV(64, e.F.const(float('nan')))


@pat(r'^llvm\.[su](mul|add|sub)\.with\.overflow')
def llvm_ovf(e, st, a, ins, d):
    m = re.search(r'\.([su])(mul|add|sub)\.', d)
    f = e.Sg if m.group(1) == 's' else e.Un
    x, y = f(st, a[0]), f(st, a[1])
    t = simp({'mul': x * y, 'add': x + y, 'sub': x - y}[m.group(2)])
    w = a[0].w
    ok = e.rng_s(t, w) if m.group(1) == 's' else e.rng_u(t, w)
    return [IntV(w, t), z3.simplify(z3.Not(ok))]


MATH = 'sqrt sin cos tan exp log log10 log2 pow floor ceil round trunc fma exp2 nearbyint rint hypot atan atan2 acos asin sinh cosh tanh expm1 log1p fmod cbrt'.split()


@pat(r'^llvm\.(fabs|copysign|fmuladd|minnum|maxnum|powi|' + '|'.join(MATH) + r')\.')
def llvm_math(e, st, a, ins, d):
    n = d.split('.')[1]
    return mathcall(e, st, n, a)


def mathcall(e, st, n, a):
    if n == 'fabs': return FltV(a[0].w, e.F.fabs(a[0].t))
    if n == 'copysign' and e.F.name == 'real': return FltV(a[0].w, e.F.copysign(a[0].t, a[1].t))
    if n == 'fmuladd': return FltV(a[0].w, e.F.add(e.F.mul(a[0].t, a[1].t), a[2].t))
    if n == 'powi':
        return FltV(a[0].w, e.F.call('pow', [a[0].t, e.F.fromint(e.Sg(st, a[1]))]))
    if n in ('fmin', 'minnum', 'fmax', 'maxnum') and e.F.name == 'real':
        x, y = a[0].t, a[1].t
        return FltV(64, z3.If((x <= y) if 'min' in n else (x >= y), x, y))
    args = [x.t for x in a]
    r = e.F.call(n, args)
    for f in e.F.facts(n, args, r): e.assume(st, f)
    e.S.mathfacts(st, n, args, r)
    e.trusted.add(f'libm {n}')
    return FltV(a[0].w, r)


for _n in MATH + ['fabs', 'copysign', 'fmin', 'fmax']:
    EXACT[_n] = (lambda n: lambda e, st, a, ins, d: mathcall(e, st, n, a))(_n)


# ---------------------------------------------------------------- runtime
@exact('__assert_fail')
def assert_fail(e, st, a, ins, d):
    e.oblige(st, 'assert', FALSE, 'assertion "' + e.gstring(a[0]) + '" holds', ins.dbg)
    raise Dead()


@pat(r'^std::__glibcxx_assert_fail|^std::__throw_')
def throw_std(e, st, a, ins, d):
    m = re.search(r'__throw_(\w+)\(', d)
    k = m.group(1) if m else 'assert'
    cls = {'out_of_range': 'out_of_range', 'out_of_range_fmt': 'out_of_range', 'length_error': 'length_error',
           'bad_alloc': 'bad_alloc', 'bad_array_new_length': 'bad_alloc', 'invalid_argument': 'invalid_argument'}.get(k)
    if cls is None:
        e.oblige(st, 'unreachable', FALSE, f'library failure {d} unreachable', ins.dbg); raise Dead()
    ti = f'_ZTISt{len(cls)}{cls}'
    return ('throw', (Ptr(Root('exc', 'heap')), ti))


@exact('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_call_unexpected')
def terminate(e, st, a, ins, d):
    e.oblige(st, 'unreachable', FALSE, 'no std::terminate', ins.dbg); raise Dead()


@exact('__cxa_allocate_exception')
def cxa_alloc(e, st, a, ins, d): return Ptr(Root('exc', 'heap'))


@exact('__cxa_free_exception', '__cxa_end_catch', '__cxa_atexit')
def cxa_nop(e, st, a, ins, d): return None


@exact('__cxa_begin_catch', '__cxa_get_exception_ptr')
def cxa_begin(e, st, a, ins, d): return a[0]


@exact('__cxa_throw')
def cxa_throw(e, st, a, ins, d):
    return ('throw', (a[0], a[1].root.name[1:]))


@exact('__cxa_rethrow')
def cxa_rethrow(e, st, a, ins, d): return ('throw', st.exc)


@exact('_Znwm', '_Znam')
def op_new(e, st, a, ins, d): return Ptr(Root('heap', 'heap'))


@exact('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def op_del(e, st, a, ins, d): return None


STDHIER = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
           '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
           '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt11range_error': '_ZTISt13runtime_error',
           '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception'}


def exc_matches(e, thrown, caught):
    seen = 0
    t = thrown
    while t and seen < 20:
        if t == caught: return True
        seen += 1
        if t in STDHIER: t = STDHIER[t]; continue
        g = e.M.globals.get(t, '')
        m = re.findall(r'ptr @("[^"]+"|[\w.$]+)', g)
        bases = [x.strip('"') for x in m if x.strip('"').startswith('_ZTI')]
        t = bases[0] if bases else None
    return False


def typeid(e, n):
    if n not in e.typeids: e.typeids[n] = len(e.typeids) + 1
    return e.typeids[n]


# ---------------------------------------------------------------- std::vector
VEC = r'^(?:[^(]*\s)?std::vector<.*>::'
SIZES = {'long': 8, 'unsigned long': 8, 'double': 8, 'int': 4, 'unsigned int': 4, 'float': 4, 'char': 1, 'short': 2, 'unsigned short': 2, 'unsigned char': 1, 'signed char': 1, 'long long': 8, 'unsigned long long': 8}


def targ(s, i):
    """first template argument starting at s[i] (after '<')"""
    depth = 0; j = i
    while j < len(s):
        c = s[j]
        if c in '<(': depth += 1
        elif c in '>)':
            if depth == 0: return s[i:j]
            depth -= 1
        elif c == ',' and depth == 0: return s[i:j]
        j += 1
    return s[i:]


def vec_elem(d):
    i = d.index('std::vector<') + len('std::vector<')
    return targ(d, i).strip()


def elem_size(e, t):
    if t in SIZES: return SIZES[t]
    if t.startswith('std::vector<bool'): raise Unsupported('vector<bool>')
    if t.startswith('std::vector<'): return 24
    if t.endswith('*'): return 8
    if t.startswith('std::__cxx11::basic_string') or t == 'std::string': return 32
    for pre in ('%"class.', '%"struct.'):
        n = pre + t + '"'
        if n in e.M.types: return e.M.sizeof(e.M.types[n])
    for pre in ('%class.', '%struct.'):
        n = pre + t
        if n in e.M.types: return e.M.sizeof(e.M.types[n])
    raise Unsupported('size of element type ' + t)


def scalar(t): return t in SIZES


def fsort(e, t): return e.F.sort if t in ('double', 'float') else I


def zero_of(e, t): return e.F.const(0.) if t in ('double', 'float') else iv(0)


def set_arr(e, st, p, arr, off=0):
    """contents array of the vector at p"""
    nk = (p.root, p.hdrs + (p.off,), off, 'v')
    if p.chain:
        old = st.mem.get(nk)
        if old is None: old = e.fresh('arr', e.arrsort(arr.sort(), len(p.chain)))
        st.mem[nk] = e.sto(old, p.idxs, arr)
    else: st.mem[nk] = arr
    st.writes.append((nk, p.idxs, arr))


def get_arr(e, st, p, sort):
    nk = (p.root, p.hdrs + (p.off,), 0, 'v')
    c = st.mem.get(nk)
    if c is None:
        c = e.fresh('arr', e.arrsort(sort, len(p.chain) + 1)); st.mem[nk] = c
    return e.sel(c, p.idxs)


def sret_fix(a): return a


def make_n(e, st, p, n, t, fill=None, src=None):
    """vector of n copies"""
    if p.chain: pass
    else: e.drop_below(st, p, 24)
    e.init_vec(st, p, n, elem_size(e, t))
    if scalar(t):
        v = fill if fill is not None else zero_of(e, t)
        set_arr(e, st, p, z3.K(I, v))
        return
    if t.startswith('std::vector<'):
        if src is None:
            nk = (p.root, p.hdrs + (p.off,), 0, 'n')
            a = z3.K(I, iv(0))
            if p.chain:
                old = st.mem.get(nk)
                if old is None: old = e.fresh('arr', e.arrsort(a.sort(), len(p.chain)))
                a = e.sto(old, p.idxs, a)
            st.mem[nk] = a; st.writes.append((nk, p.idxs, a))
            st.mem[(p.root, p.hdrs + (p.off,), 0, 'e')] = elem_size(e, vec_elem(t))
            # inner contents left unspecified (length zero)
            it = vec_elem(t)
            if scalar(it):
                ik = (p.root, p.hdrs + (p.off, 0), 0, 'v')
                if ik not in st.mem:
                    st.mem[ik] = e.fresh('arr', e.arrsort(fsort(e, it), len(p.chain) + 2))
            return
        fill_from(e, st, p, src); return
    if src is not None:
        fill_from(e, st, p, src); return
    o = default_obj(e, st, t)
    fill_from(e, st, p, o)


def default_obj(e, st, t):
    f = e.cfg.get('default', {}).get(t)
    if f is None: raise Unsupported('default construction of ' + t)
    from irparse import get_func
    o = Ptr(Root('default', 'stack'))
    outs = e.call_function(get_func(e.M, f), st, [o])
    if len(outs) != 1 or outs[0][0] != 'ret' or outs[0][1] is not st: raise Unsupported('default constructor of ' + t)
    ty = next((e.M.types[pre + t + q] for pre, q in (('%"class.', '"'), ('%"struct.', '"'), ('%class.', ''), ('%struct.', '')) if pre + t + q in e.M.types), None)
    flts = {}

    def fields(ty, off):
        while ty[0] == 'named': ty = e.M.types[ty[1]]
        if ty[0] == 'f': flts[off] = ty
        elif ty[0] == 's':
            for f, x in zip(ty[1], e.M.struct_layout(ty)[0]): fields(f, off + x)
    if ty is not None: fields(ty, 0)
    for k in e.sub_keys(st, o, 10 ** 6):
        if k[3] == 'z': del st.mem[k]; continue
        if k[3] == 'v' and k[2] in flts and not isinstance(st.mem[k], tuple) and z3.is_int(st.mem[k]) and cval(st.mem[k]) == 0:
            st.mem[k] = e.F.const(0.)
    return o


def fill_from(e, st, p, src):
    """every element of vector p := object at src"""
    L = len(src.chain)
    vals = []
    for k in e.sub_keys(st, src, 10 ** 6 if not src.chain else 10 ** 6):
        vals.append((k, st.mem[k]))
    size = e.esz(st, p.root, p.hdrs, p.off)
    for k, c in vals:
        o = k[1][L] if len(k[1]) > L else k[2]
        if not (src.off <= o < src.off + size): continue
        dd = -src.off
        if len(k[1]) > L: nk = (p.root, p.hdrs + (p.off, k[1][L] + dd) + k[1][L + 1:], k[2], k[3])
        else: nk = (p.root, p.hdrs + (p.off,), k[2] + dd, k[3])
        if k[3] == 'e': st.mem[nk] = c; continue
        if isinstance(c, tuple):
            if not e.uniform(st, nk, c): raise Unsupported(f'vector of pointers {nk} {c}')
            st.mem[nk] = c; continue
        v = e.sel(c, src.idxs)
        a = z3.K(I, v)
        if p.chain:
            old = st.mem.get(nk)
            if old is None: old = e.fresh('arr', e.arrsort(a.sort(), len(p.chain)))
            a = e.sto(old, p.idxs, a)
        st.mem[nk] = a; st.writes.append((nk, p.idxs, a))


def nonneg_len(e, st, v, ins):
    n = simp(e.Un(st, v))
    # std::vector throws length_error for absurd lengths; memory exhaustion is out of scope
    st.pc.append(n < B63)
    return n


@pat(VEC + r'vector(<.*>)?\(')
def vec_ctor(e, st, a, ins, d):
    t = vec_elem(d)
    i = find_params(d); ps = d[i:]
    p = a[0]
    e.trusted.add('std::vector allocation/growth operations (contracts of the C++ standard)')
    params = split_params(ps)
    if params and params[-1].startswith('std::allocator<') and len(params) > 0:
        params = params[:-1]
    if not params:
        if not p.chain: e.drop_below(st, p, 24)
        e.init_vec(st, p, iv(0), elem_size(e, t))
        if t.startswith('std::vector<'):
            st.mem[(p.root, p.hdrs + (p.off,), 0, 'e')] = elem_size(e, vec_elem(t))
        return None
    if len(params) == 1 and params[0].startswith('std::vector<'):
        src = a[1]
        e.copy_cells(st, src, p, 24)
        if params[0].endswith('&&'): e.write_cell(st, src, iv(0), 'n')
        return None
    if len(params) == 1 and params[0].startswith('std::initializer_list'):
        return from_init_list(e, st, p, a[1], a[2], t, ins)
    if len(params) == 1 and params[0] == 'unsigned long':
        make_n(e, st, p, nonneg_len(e, st, a[1], ins), t); return None
    if len(params) == 2 and params[0] == 'unsigned long':
        n = nonneg_len(e, st, a[1], ins)
        if scalar(t):
            v = e.load(st, a[2], scal_ty(t), ins.dbg)
            make_n(e, st, p, n, t, term(e, st, v)); return None
        make_n(e, st, p, n, t, src=a[2]); return None
    if len(params) == 2:
        first, last = a[1], a[2]
        return from_range(e, st, p, first, last, t, ins)
    raise Unsupported('vector constructor ' + d)


def from_range(e, st, p, first, last, t, ins):
    if isinstance(first, list): first = first[0]
    if isinstance(last, list): last = last[0]
    if not (isinstance(first, Ptr) and isinstance(last, Ptr) and first.chain and first.hdrs == last.hdrs and first.root is last.root):
        if isinstance(first, Ptr) and not first.chain:
            n = (last.off - first.off) // elem_size(e, t)
            e.drop_below(st, p, 24) if not p.chain else None
            e.init_vec(st, p, iv(n), elem_size(e, t))
            for j in range(n): e.copy_cells(st, first.add(j * elem_size(e, t)), p.elem(iv(j)), elem_size(e, t))
            return None
        raise Unsupported('vector from iterators')
    n = simp(last.idxs[-1] - first.idxs[-1])
    L = e.veclen(st, Ptr(first.root, first.chain[:-1], first.chain[-1][0]))
    e.oblige(st, 'bounds', z3.And(n >= 0, z3.Or(n == 0, z3.And(first.idxs[-1] >= 0, last.idxs[-1] <= L))), 'source range valid', ins.dbg)
    if not p.chain: e.drop_below(st, p, 24)
    e.init_vec(st, p, n, elem_size(e, t))
    copy_range(e, st, first, p.elem(iv(0)), n)
    return None


def from_init_list(e, st, p, arr, n, t, ins):
    n = cval(ival(e, st, n)); es = elem_size(e, t)
    if not p.chain: e.drop_below(st, p, 24)
    e.init_vec(st, p, iv(n), es)
    for j in range(n):
        if isinstance(arr, Ptr) and arr.root.kind == 'global':
            v = e.load_global(st, arr.add(j * es), scal_ty(t)); e.write_cell(st, p.elem(iv(j)), term(e, st, v))
        else:
            e.copy_cells(st, arr.add(j * es), p.elem(iv(j)), es)
    return None


def scal_ty(t):
    if t == 'double': return ('f', 64)
    if t == 'float': return ('f', 32)
    return ('i', SIZES[t] * 8)


def term(e, st, v):
    if isinstance(v, IntV): return simp(e.canon(st, v).t)
    if isinstance(v, FltV): return v.t
    if isinstance(v, z3.BoolRef): return z3.If(v, iv(1), iv(0))
    raise Unsupported(f'term of {v!r}')


def find_params(d):
    # index of the '(' opening the parameter list (skip template args)
    depth = 0
    i = 0
    last = None
    while i < len(d):
        c = d[i]
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0: return i
        i += 1
    return len(d)


def split_params(ps):
    ps = ps.strip()
    if ps.endswith('const'): ps = ps[:-5].strip()
    ps = ps[1:-1].strip() if ps.endswith(')') else ps[1:]
    out = []; depth = 0; cur = ''
    for c in ps:
        if c in '<([': depth += 1
        if c in '>)]': depth -= 1
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


@pat(VEC + r'~vector\(')
def vec_dtor(e, st, a, ins, d): return None


@pat(VEC + r'reserve\(|' + VEC + r'shrink_to_fit\(')
def vec_reserve(e, st, a, ins, d):
    return None


@pat(VEC + r'clear\(')
def vec_clear(e, st, a, ins, d):
    e.write_cell(st, a[0], iv(0), 'n')


@pat(VEC + r'pop_back\(')
def vec_pop(e, st, a, ins, d):
    n = e.veclen(st, a[0])
    e.oblige(st, 'bounds', n > 0, 'pop_back on non-empty vector', ins.dbg)
    e.write_cell(st, a[0], simp(n - 1), 'n')


@pat(VEC + r'operator=\(')
def vec_assign_op(e, st, a, ins, d):
    p, src = a[0], a[1]
    ps = split_params(d[find_params(d):])
    if ps[0].startswith('std::initializer_list'):
        from_init_list(e, st, p, a[1], a[2], vec_elem(d), ins); return p
    if isinstance(src, Ptr) and src.root is p.root and src.hdrs == p.hdrs and src.off == p.off and not p.chain: return p
    e.copy_cells(st, src, p, 24)
    if ps[0].endswith('&&'): e.write_cell(st, src, iv(0), 'n')
    return p


@pat(VEC + r'swap\(')
def vec_swap(e, st, a, ins, d):
    p, q = a[0], a[1]
    tmp = Ptr(Root('swap', 'stack'))
    e.copy_cells(st, p, tmp, 24); e.copy_cells(st, q, p, 24); e.copy_cells(st, tmp, q, 24)
    e.drop_below(st, tmp, 24)


@pat(VEC + r'(push_back|emplace_back)(<.*>)?\(')
def vec_push(e, st, a, ins, d):
    t = vec_elem(re.sub(r'^.*?(std::vector<)', r'\1', d) if not d.startswith('std::vector') else d)
    p = a[0]
    n = e.veclen(st, p)
    es = e.esz(st, p.root, p.hdrs, p.off)
    q = p.elem(n)
    name = 'emplace' if 'emplace_back' in d else 'push'
    if len(a) == 1:
        if scalar(t): e.write_cell(st, q, zero_of(e, t))
        elif t.startswith('std::vector<'): e.write_cell(st, q, iv(0), 'n'); st.mem[(q.root, q.hdrs, 0, 'e')] = elem_size(e, vec_elem(t))
        else: e.copy_cells(st, default_obj(e, st, t), q, es)
    elif len(a) == 2 and scalar(t):
        m = re.search(r'emplace_back<(.*)>\(', d)
        st_ty = t
        if name == 'emplace' and m:
            st_ty = m.group(1).strip().rstrip('&').strip()
            st_ty = re.sub(r' const$', '', st_ty)
        v = e.load(st, a[1], scal_ty(st_ty) if st_ty in SIZES else scal_ty(t), ins.dbg)
        v = convert(e, st, v, st_ty if st_ty in SIZES else t, t)
        e.write_cell(st, q, term(e, st, v))
    elif len(a) == 2:
        if name == 'emplace':
            m = re.search(r'emplace_back<(.*)>\(', d)
            at = m.group(1).replace(' const', '').rstrip('&').strip()
            if at != t: raise Unsupported('emplace_back with conversion ' + d)
        L = e.sub_keys(st, a[1], es)
        e.copy_cells(st, a[1], q, es)
        mv = d.rstrip(')').endswith('&&') and ('push_back' in d or True)
        if t.startswith('std::vector<') and d[find_params(d):].rstrip().endswith('&&)'):
            e.write_cell(st, a[1], iv(0), 'n')
    else: raise Unsupported('emplace_back ' + d)
    e.write_cell(st, p, simp(n + 1), 'n')
    return q if ins.ty and ins.ty[0] == 'p' else None


def convert(e, st, v, f, t):
    if f == t: return v
    if t == 'double' and isinstance(v, IntV):
        return FltV(64, e.F.fromint(simp(e.Un(st, v) if 'unsigned' in f else e.Sg(st, v))))
    if isinstance(v, IntV) and t in SIZES and t not in ('double', 'float'):
        w = SIZES[t] * 8
        if w >= v.w:
            return IntV(w, e.Un(st, v) if 'unsigned' in f else e.Sg(st, v), 'unsigned' in f, 'unsigned' not in f)
        return IntV(w, v.t)
    raise Unsupported(f'conversion {f}->{t}')


@pat(VEC + r'resize\(')
def vec_resize(e, st, a, ins, d):
    t = vec_elem(d); p = a[0]
    n = nonneg_len(e, st, a[1], ins)
    old = e.veclen(st, p)
    if len(a) > 2: 
        if not scalar(t):
            if is_const(old) and cval(old) == 0: make_n(e, st, p, n, t, src=a[2]); return None
            raise Unsupported('resize with value of ' + t)
        v = term(e, st, e.load(st, a[2], scal_ty(t), ins.dbg))
    else: v = zero_of(e, t) if scalar(t) else None
    if is_const(old) and cval(old) == 0 or not e.in_cand and e.prove(st, old == 0):
        make_n(e, st, p, n, t, v); return None
    if scalar(t):
        arr = get_arr(e, st, p, fsort(e, t))
        r = e.fresh('rs', arr.sort()); q = z3.FreshInt('q')
        st.pc.append(z3.ForAll([q], z3.Select(r, q) == z3.If(q < old, z3.Select(arr, q), v), patterns=[z3.Select(r, q)]))
        set_arr(e, st, p, r)
        e.write_cell(st, p, n, 'n'); return None
    if t.startswith('std::vector<') :
        nk = (p.root, p.hdrs + (p.off,), 0, 'n')
        arr = e.sel(st.mem[nk], p.idxs)
        r = e.fresh('rs', arr.sort()); q = z3.FreshInt('q')
        st.pc.append(z3.ForAll([q], z3.Select(r, q) == z3.If(q < old, z3.Select(arr, q), iv(0)), patterns=[z3.Select(r, q)]))
        st.mem[nk] = e.sto(st.mem[nk], p.idxs, r) if p.chain else r
        st.writes.append((nk, p.idxs, r))
        e.write_cell(st, p, n, 'n'); return None
    o = default_obj(e, st, t)
    tmp = Ptr(Root('resized', 'stack'))
    make_n(e, st, tmp, n, t, src=o)
    for k in e.sub_keys(st, tmp, 24):
        if k[3] == 'e' or len(k[1]) != 1: 
            if len(k[1]) > 1: raise Unsupported('resize of ' + t)
            continue
        nk = (p.root, p.hdrs + (p.off,), k[2], k[3])
        c = st.mem.get(nk)
        new = st.mem[k]
        if isinstance(new, tuple):
            if not e.uniform(st, nk, new): raise Unsupported(f'vector of pointers {nk} {c}')
            st.mem[nk] = new; continue
        if c is None: c = e.fresh('arr', e.arrsort(new.sort().range(), len(p.chain) + 1))
        arr = e.sel(c, p.idxs)
        r = e.fresh('rs', arr.sort()); q = z3.FreshInt('q')
        st.pc.append(z3.ForAll([q], z3.Select(r, q) == z3.If(q < old, z3.Select(arr, q), z3.Select(new, q)), patterns=[z3.Select(r, q)]))
        st.mem[nk] = e.sto(c, p.idxs, r) if p.chain else r
        st.writes.append((nk, p.idxs, r))
    e.write_cell(st, p, n, 'n')


@pat(VEC + r'assign(<.*>)?\(')
def vec_assign(e, st, a, ins, d):
    t = vec_elem(d); p = a[0]
    ps = split_params(d[find_params(d):])
    if len(ps) == 1: from_init_list(e, st, p, a[1], a[2], t, ins); return None
    if ps[0] == 'unsigned long' :
        n = nonneg_len(e, st, a[1], ins)
        if scalar(t): make_n(e, st, p, n, t, term(e, st, e.load(st, a[2], scal_ty(t), ins.dbg)))
        else: make_n(e, st, p, n, t, src=a[2])
        return None
    return from_range(e, st, p, a[1], a[2], t, ins)


@exact('strlen')
def c_strlen(e, st, a, ins, d):
    if not isinstance(a[0], Ptr) or a[0].root.kind != 'global': raise Unsupported('strlen of unknown text')
    for n in range(4096):
        c = cval(z3.simplify(ival(e, st, e.load(st, a[0].add(n), ('i', 8), ins.dbg))))
        if c is None: raise Unsupported('strlen of unknown text')
        if c == 0: return IntV(64, n)


# ---------------------------------------------------------------- strings, streams: contents not tracked
@pat(r'std::(__cxx11::)?basic_string<|^fmt::|fmt::v9::|std::basic_ostream|std::basic_istream|std::(__cxx11::)?basic_[io]?stringstream|^std::operator(<<|>>|\+)|^(?:[^(]*\s)?std::(__cxx11::)?to_string|^std::allocator<|std::locale|std::ios_base|std::basic_ios')
def opaque_string(e, st, a, ins, d):
    e.trusted.add('string/stream/format operation treated as having no effect on non-string state: ' + re.sub(r'<.*', '', d)[:60])
    t = ins.ty
    for x in a:
        if isinstance(x, Ptr): x.root.opaque = True
    if t is None or t[0] == 'v': return None
    if t[0] == 'p':
        for x in a:
            if isinstance(x, Ptr): return x
        return NULL
    if t[0] == 'i':
        if t[1] == 1: return e.fresh('str', z3.BoolSort())
        v = e.fresh('str', I); e.assume(st, e.rng_s(v, t[1])); return IntV(t[1], v, False, True)
    return UNDEF


@pat(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|overflow_error|underflow_error|domain_error|length_error|range_error|exception)::')
def std_exc(e, st, a, ins, d):
    return a[0] if ins.ty and ins.ty[0] == 'p' else None




@pat(r'^(?:[^(]*\s)?std::(gcd|__gcd|__detail::__gcd)(<.*>)?\(')
def std_gcd(e, st, a, ins, d):
    import specs
    w = a[0].w
    un = 'unsigned' in d.split('(')[0]
    f = (lambda v: simp(e.Un(st, v))) if un else (lambda v: specs.nat(e, st, simp(e.Sg(st, v))))
    return IntV(w, e.S.GCD(f(a[0]), f(a[1])), un, not un)
