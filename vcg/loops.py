"""Cutting loops by inductive invariants.  Candidates are generated from the
loop itself and from the hints of the contract; a Houdini fixpoint keeps those
that hold on entry and are preserved by every path through the body.  Nothing
is assumed about a loop that has not been so proved."""
import re, time
import z3
from values import *
from engine import *


class Slot:
    __slots__ = ('kind', 'ref', 'h', 'entry', 'w', 'ptr')
    # kind: int, bool, flt, arr, it

    def __init__(s, kind, ref, h, entry, w=64, ptr=None):
        s.kind = kind; s.ref = ref; s.h = h; s.entry = entry; s.w = w; s.ptr = ptr


def num_of(name):
    i = name.rfind('!')
    if i < 0: return 0
    try: return int(name[i + 1:])
    except ValueError: return 0


def sub(e, pairs):
    return z3.substitute(e, *pairs) if pairs else e


def affine_in(e, it):
    """e == c0 + d*it with integer constant d and c0 free of it -> (c0,d)"""
    c0 = simp(sub(e, [(it, iv(0))]))
    c1 = simp(sub(e, [(it, iv(1))]))
    d = simp(c1 - c0)
    if not is_const(d): return None
    if not is_const(simp(e - (c0 + d * it))) or cval(simp(e - (c0 + d * it))) != 0: return None
    return c0, cval(d)


MAXROUND = 12


def phi_list(F, hdr):
    return [i for i in F.blocks[hdr].ins if i.op == 'phi']


def phi_val(s, F, hdr, ins, prev, st, env):
    for v, lab in ins.a:
        if lab == prev: return s.val(st, env, v)
    raise Unsupported('phi without incoming')


def cut(s, F, hdr, prev, st, env):
    body = F.loops[hdr]
    ck = (F.name, hdr, tuple(str(x) for x in st.stack if isinstance(x, str)))
    info = s.loopcache.setdefault(ck, {'W': set(), 'sorts': {}, 'surv': None, 'runs': 0})
    phis = phi_list(F, hdr)
    entryvals = [phi_val(s, F, hdr, p, prev, st, env) for p in phis]
    base_pc = list(st.pc)
    start_n = s.nfresh
    W = set(info['W'])
    cands = None
    rounds = 0
    pruned = None; noprune = False
    loopname = s.loc(next((i.dbg for i in F.blocks[hdr].ins if i.dbg), None)) or hdr
    # a stable naming of havoced symbols over rounds
    symcache = {}

    def fr(key, name, sort):
        if key not in symcache: symcache[key] = s.fresh(name, sort)
        return symcache[key]

    while True:
        rounds += 1
        if rounds > 40: raise Unsupported('loop invariant inference does not converge: ' + loopname)
        hst = st.clone(); hst.pc = list(base_pc); hst.writes = []; hst.conds = []
        henv = dict(env)
        slots = []
        for p, ev in zip(phis, entryvals):
            nm = p.res[1:].strip('"').split('.')[0][:14]
            if isinstance(ev, PtrInt): ev = ev.p
            if ev is UNDEF:
                t = s.M.resolve(p.ty)
                if t[0] == 'i' and t[1] > 1: ev = IntV(t[1], fr(('ud', p.res), 'undef', I), False, True)
                elif t[0] == 'i': ev = fr(('ud', p.res), 'undef', z3.BoolSort())
                elif t[0] == 'f': ev = FltV(t[1], fr(('ud', p.res), 'undef', s.F.sort))
                else:
                    henv[p.res] = UNDEF; slots.append(Slot('same', ('phi', p), None, UNDEF)); continue
            if isinstance(ev, IntV):
                e = simp(s.canon(hst, ev).t)
                h = fr(('phi', p.res), nm, I)
                hst.pc.append(h >= -(1 << (ev.w - 1))); hst.pc.append(h < (1 << (ev.w - 1)))
                henv[p.res] = IntV(ev.w, h, False, True)
                slots.append(Slot('int', ('phi', p), h, e, ev.w))
            elif isinstance(ev, z3.BoolRef):
                h = fr(('phi', p.res), nm, z3.BoolSort())
                henv[p.res] = h; slots.append(Slot('bool', ('phi', p), h, ev))
            elif isinstance(ev, FltV):
                h = fr(('phi', p.res), nm, s.F.sort)
                henv[p.res] = FltV(ev.w, h); slots.append(Slot('flt', ('phi', p), h, ev.t))
            elif isinstance(ev, Ptr) and ev.chain:
                h = fr(('phi', p.res), nm, I)
                henv[p.res] = Ptr(ev.root, ev.chain[:-1] + ((ev.chain[-1][0], h),), ev.off)
                slots.append(Slot('int', ('phi', p), h, simp(ev.chain[-1][1]), 64, ev))
            else:
                henv[p.res] = ev; slots.append(Slot('same', ('phi', p), None, ev))
        for k in sorted(W, key=lambda k: (k[0].id, k[1], k[2], k[3])):
            c = st.mem.get(k)
            if c is None and s.global_cell(st, k): c = st.mem[k]
            if c is None and st.focus2 and k in info['sorts'] and any(kk[0] is k[0] for kk in st.mem):
                s.narb = getattr(s, 'narb', 0) + 1
                c = st.mem[k] = z3.Const(f'any_elements_{s.narb}', info['sorts'][k])
            if c is None: continue
            if k[3] == 'e': continue
            if isinstance(c, tuple):
                v = c[1]
                if isinstance(v, Ptr) and v.chain:
                    h = fr(('cell', k), 'pc', I)
                    hst.mem[k] = ('py', Ptr(v.root, v.chain[:-1] + ((v.chain[-1][0], h),), v.off))
                    slots.append(Slot('int', ('cell', k), h, simp(v.chain[-1][1]), 64, v))
                else: slots.append(Slot('same', ('cell', k), None, v))
                continue
            h = fr(('cell', k), f'{k[0].name[:10]}.{k[2]}{k[3] if k[3] != "v" else ""}', c.sort())
            hst.mem[k] = h
            if len(k[1]) == 0:
                kd = 'int' if z3.is_int(c) else 'bool' if z3.is_bool(c) else 'flt'
                if kd == 'int':
                    if k[3] == 'n':
                        es = st.mem.get((k[0], k[1], k[2], 'e'), 1)
                        hst.pc.append(h >= 0); hst.pc.append(h <= (B63 - 1) // es)
                    else: hst.pc.append(h >= -B63)
                    hst.pc.append(h < B63)
                slots.append(Slot(kd, ('cell', k), h, c))
            else:
                slots.append(Slot('arr', ('cell', k), h, c))
                if k[3] == 'n':
                    ks = [z3.FreshInt('q') for _ in k[1]]
                    t = s.sel(h, ks)
                    es = st.mem.get((k[0], k[1], k[2], 'e'), 1)
                    hst.pc.append(z3.ForAll(ks, z3.And(t >= 0, t <= (B63 - 1) // es), patterns=[t]))
        it = fr('it', 'it', I)
        hst.pc.append(it >= 0)
        if st.recs and st.focus2: hst.pc.append(z3.Function('USE_Int', I, z3.BoolSort())(it))
        slots.append(Slot('it', None, it, iv(0)))
        entry_pairs = [(x.h, x.entry) for x in slots if x.h is not None]
        if cands is None and info['surv'] is not None and info['slots'] == [(x.kind, str(x.ref)) for x in slots]:
            # re-use of the candidates that survived last time (re-proved below)
            old = info['hs']
            ren = [(a, b.h) for a, b in zip(old, slots) if b.h is not None and a is not None]
            ents = list(zip(info['entries'], [x.entry for x in slots]))
            ren2 = ren + [(a, b) for a, b in ents if a is not None and not is_const_expr(a)]
            cs = []
            for c in info['surv']:
                for r in (ren, ren2):
                    d = sub(c, r)
                    if not any(d.eq(x) for x in cs): cs.append(d)
            cands = filter_entry(s, base_pc, cs, entry_pairs)
            primed = True
            if len(cands) < len(info['surv']): cands = None; primed = False; info['surv'] = None
        elif cands is None:
            primed = False
        n0 = len(hst.pc)
        cur = cands or []
        for c in cur: hst.pc.append(c)
        n1 = len(hst.pc)
        sink = s.sink; s.sink = []; ic = s.in_cand
        s.in_cand = True
        try:
            outs = s.run(F, hst, henv, hdr, None, body, hdr=hdr, phis_done=True)
            obls = s.sink
        finally:
            s.sink = sink; s.in_cand = ic
        latches = [o for o in outs if o[0] == 'latch']
        # written cells
        neww = set(); known = set(kk[0].id for kk in st.mem)
        for o in outs:
            stx = o[1]
            for k, ix, v in stx.writes:
                if k[3] == 'e' or k in W: continue
                if k not in st.mem and k[1] and k[0].id in known:
                    # elements that nothing has been said about yet: they are arbitrary on entry
                    c = stx.mem.get(k)
                    if isinstance(c, z3.ExprRef) and z3.is_array(c):
                        s.narb = getattr(s, 'narb', 0) + 1
                        info['sorts'][k] = c.sort()
                        st.mem[k] = z3.Const(f'any_elements_{s.narb}', c.sort())
                if k in st.mem or s.global_cell(st, k): neww.add(k)
        if neww and s.opts.get("trace",0)>3: print("   NEWW", loopname, [(k[0].name,)+k[1:] for k in neww])
        if neww:
            W |= neww; info['W'] = set(W); cands = None if cands is None or not cands else None
            continue
        lat = []
        for o in latches:
            _, lst, lenv, lprev = o
            pairs = []
            for x in slots:
                if x.kind == 'it': pairs.append((x.h, it + 1)); continue
                v = latch_value(s, F, hdr, x, lst, lenv, lprev)
                if x.h is not None: pairs.append((x.h, v))
            for c in cur:
                # instances of the lemma MOD(x+-d,d)=MOD(x,d)
                if z3.is_eq(c) and c.arg(0).decl().name() == 'MOD':
                    x0, d0 = c.arg(0).arg(0), c.arg(0).arg(1)
                    x1 = simp(sub(x0, pairs)); dd = simp(x1 - x0)
                    if dd.eq(d0) or simp(-dd).eq(d0):
                        f = z3.Implies(d0 > 0, s.S.MODf(x1, d0) == s.S.MODf(x0, d0))
                        lst.pc.append(f); s.valid[f.get_id()] = f
            lat.append((lst, pairs))
        if cands is None:
            cs = generate(s, F, st, slots, it, lat, outs, start_n, loopname)
            cands = filter_entry(s, base_pc, cs, entry_pairs)
            if cands:
                if st.focus2:
                    # inner loops were looked at without any invariant of this one: look again
                    for k2, inf in s.loopcache.items():
                        if k2[0] == F.name and k2[1] in body and k2[1] != hdr: inf['surv'] = None
                continue
            cands = []
        # preservation
        keep = list(cands)
        changed = False
        phase = 0
        while True:
            dset = set()
            kset = set(c.get_id() for c in keep)
            allc = set(c.get_id() for c in cands)
            for lst, pairs in lat:
                pc = [f for i, f in enumerate(lst.pc) if not n0 <= i < n1 or f.get_id() not in allc or f.get_id() in kset]
                ps = State(); ps.pc = pc
                for c in keep:
                    if c.get_id() in dset or has_quant(c) != bool(phase): continue
                    if not all(s.prove(ps, g) for g in step_goals(c, pairs, lst, it)):
                        dset.add(c.get_id())
                        if s.opts.get('dump') and s.opts['dump'] in str(c): dump_drop(ps, c, pairs)
                        if s.opts.get('trace', 0) > 2: print('   DROP', loopname, str(c).replace('\n', ' ')[:200], '| path', [str(x)[:60] for x in lst.conds][-6:], flush=True)
            if not dset:
                if phase == 1: break
                phase = 1; continue
            phase = 0
            keep = [c for c in keep if c.get_id() not in dset]
            changed = True
        if changed and pruned is not None:
            cands = pruned; pruned = None; noprune = True
            continue
        if changed:
            if primed:
                # the cached survivors are not enough here: generate afresh
                primed = False; cands = None; info['surv'] = None
                continue
            cands = keep
            continue
        if not noprune and pruned is None:
            small = prune(s, cands, slots)
            if len(small) < len(cands):
                pruned = cands; cands = small
                continue
        # stable: commit
        if s.opts.get('trace'):
            print('  LOOP', loopname, 'rounds', rounds, 'inv:', len(cands), flush=True)
            if s.opts.get('trace') > 2: print('      PATH', [str(c)[:60] for c in st.conds])
            if s.opts.get('trace') > 1:
                for c in cands: print('      ', str(c).replace('\n', ' ')[:300])
        info['surv'] = list(cands); info['slots'] = [(x.kind, str(x.ref)) for x in slots]
        info['hs'] = [x.h for x in slots]; info['entries'] = [x.entry if isinstance(x.entry, z3.ExprRef) else None for x in slots]
        for o in obls: s.sink.append(o)
        # record the invariants themselves as obligations
        for c in cands:
            s.sink.append(Obl('loop-entry', 'loop invariant holds on entry', loopname, list(base_pc), z3.simplify(sub(c, entry_pairs))))
            for lst, pairs in lat:
                for g in step_goals(c, pairs, lst, it):
                    s.sink.append(Obl('loop-step', 'loop invariant preserved', loopname, list(lst.pc), z3.simplify(g)))
        rank(s, loopname, hst, lat, outs, slots, start_n, it)
        res = []
        hn = set(x.h.decl().name() for x in slots if x.h is not None)

        def outer(e):
            return all(num_of(n) <= start_n and n not in hn for n in free_consts(e))
        evs = {}
        for o in outs:
            for k, ix, v in o[1].writes: evs.setdefault(k, []).append(ix)
        wsum = []
        for k in W:
            pre = None
            for ix in evs.get(k, []):
                ix = () if ix == 'W' else tuple(simp(i) for i in ix)
                n = 0
                while n < len(ix) and outer(ix[n]): n += 1
                ix = ix[:n]
                if pre is None: pre = ix
                else:
                    n = 0
                    while n < min(len(ix), len(pre)) and ix[n].eq(pre[n]): n += 1
                    pre = pre[:n]
            wsum.append((k, pre if pre else 'W', None))
        for o in outs:
            if o[0] == 'latch': continue
            stx = o[1]
            stx.writes = list(st.writes) + wsum + stx.writes
            stx.conds = st.conds + stx.conds + [c for l, _ in lat for c in l.conds]
            res.append(o)
        s.loops_info[ck] = (loopname, len(cands))
        return res


def dump_drop(ps, c, pairs):
    sv = z3.Solver()
    for f in ps.pc: sv.add(f)
    sv.add(z3.Not(sub(c, pairs)))
    open('/tmp/drop.smt2', 'w').write(sv.to_smt2())
    open('/tmp/drop.txt', 'w').write('\n'.join(str(f) for f in ps.pc) + '\nGOAL ' + str(z3.simplify(sub(c, pairs))))


def prune(s, cands, slots):
    """drop candidates implied by the others (linear reasoning only)"""
    keep = list(cands)
    sv = z3.Solver(); sv.set('smt.arith.nl', False); sv.set('rlimit', 50000)
    quant = [c for c in keep if has_quant(c)]
    lin = [c for c in keep if not has_quant(c)]
    # equalities are the most useful: try to drop inequalities first, last generated first
    order = sorted(range(len(lin)), key=lambda i: (z3.is_eq(lin[i]), -i))
    gone = set()
    it = [x.h >= 0 for x in slots if x.kind == 'it']
    for i in order:
        if z3.is_eq(lin[i]): continue
        sv.push()
        for c in it: sv.add(c)
        for j, c in enumerate(lin):
            if j != i and j not in gone: sv.add(c)
        sv.add(z3.Not(lin[i]))
        if sv.check() == z3.unsat: gone.add(i)
        sv.pop()
    g = set(lin[i].get_id() for i in gone)
    return [c for c in cands if c.get_id() not in g]


STEPK = z3.Int('step?k')


def step_goals(c, pairs, lst, it):
    """the preservation goal; a quantified one is split at the indices written by this iteration"""
    g = sub(c, pairs)
    if not (z3.is_quantifier(g) and g.is_forall() and g.num_vars() == 1 and g.var_sort(0) == I): return [g]
    idxs = []
    for k, ix, v in lst.writes:
        if ix == 'W': continue
        for x in ix:
            x = simp(x)
            if not is_const(x) and not any(x.eq(y) for y in idxs): idxs.append(x)
    idxs = idxs[-2:] if idxs else [it]
    b = g.body()
    out = [z3.substitute_vars(b, x) for x in idxs]
    out.append(z3.Implies(z3.And([STEPK != x for x in idxs]), z3.substitute_vars(b, STEPK)))
    return out


def is_const_expr(e):
    return z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e)


def latch_value(s, F, hdr, x, st, env, prev):
    if x.ref[0] == 'phi':
        v = phi_val(s, F, hdr, x.ref[1], prev, st, env)
        if isinstance(v, PtrInt): v = v.p
    else:
        c = st.mem.get(x.ref[1])
        if c is None:
            v = None
        else: v = c[1] if isinstance(c, tuple) else c
        if isinstance(v, PtrInt): v = v.p
    if x.kind == 'same':
        if v is x.entry or (isinstance(v, Ptr) and isinstance(x.entry, Ptr) and repr(v) == repr(x.entry)) or (isinstance(v, FnPtr) and isinstance(x.entry, FnPtr) and v.name == x.entry.name): return None
        if x.entry is UNDEF: return None
        if v is None: return None
        raise Unsupported(f'loop-carried value of unsupported kind {x.entry!r} -> {v!r}')
    if v is None or v is UNDEF:
        return s.fresh('gone', x.h.sort())
    if x.ptr is not None:
        if not (isinstance(v, Ptr) and v.root is x.ptr.root and v.hdrs == x.ptr.hdrs and v.off == x.ptr.off):
            raise Unsupported('loop-carried pointer changes its object')
        for a, b in zip(v.idxs[:-1], x.ptr.idxs[:-1]):
            if not s.prove(st, a == b): raise Unsupported('loop-carried pointer changes its object')
        return simp(v.chain[-1][1])
    if isinstance(v, IntV): return simp(s.canon(st, v).t)
    if isinstance(v, FltV): return v.t
    if isinstance(v, z3.ExprRef):
        return z3.simplify(v)
    raise Unsupported(f'loop-carried value {v!r}')


def filter_entry(s, pc, cs, pairs):
    st = State(); st.pc = list(pc)
    r = []
    for c in cs:
        if len(r) == 400: break
        if s.prove(st, sub(c, pairs)): r.append(c)
    if s.opts.get('trace', 0) > 3:
        for c in cs:
            if s.opts.get('dump') and s.opts['dump'] in str(c) and not any(c.eq(x) for x in r): dump_drop(st, c, pairs)
            if not any(c.eq(x) for x in r): print('   NOENTRY', str(c).replace('\n', ' ')[:200])
    return r


def atoms(c, out):
    if z3.is_not(c) or z3.is_and(c) or z3.is_or(c):
        for x in c.children(): atoms(x, out)
    elif z3.is_app_of(c, z3.Z3_OP_ITE):
        for x in c.children(): atoms(x, out)
    elif z3.is_bool(c) and not z3.is_quantifier(c):
        if z3.is_eq(c) and z3.is_bool(c.arg(0)):
            for x in c.children(): atoms(x, out)
        elif not (z3.is_true(c) or z3.is_false(c)): out.append(c)


def under(conds, v):
    """v with the choices made that the conditions of the path settle (for the making of candidates only)"""
    if not isinstance(v, z3.ExprRef) or not conds: return v
    tests = []

    def go(x):
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not any(x.arg(0).eq(y) for y in tests): tests.append(x.arg(0))
        for y in x.children(): go(y)
    go(v)
    if not tests or len(tests) > 8: return v
    facts = []

    def conj(c):
        if z3.is_and(c):
            for x in c.children(): conj(x)
        elif not c.eq(v): facts.append(c)
    for c in conds: conj(c)
    ids = {c.get_id() for c in facts}
    neg = {c.arg(0).get_id() for c in facts if z3.is_not(c)}
    r = [(x, z3.BoolVal(x.get_id() in ids)) for x in tests if x.get_id() in ids or x.get_id() in neg or z3.is_not(x) and x.arg(0).get_id() in ids]
    return z3.simplify(z3.substitute(v, *r)) if r else v


def rank(s, loopname, hst, lat, outs, slots, start_n, it):
    """termination: a term that decreases and is bounded below"""
    if not lat:
        return
    # candidate measures from branch conditions
    ms = []
    hs = set(x.h.decl().name() for x in slots if x.h is not None and x.kind in ('int', 'arr'))
    for o in outs:
        for c in o[1].conds:
            al = []; atoms(c, al)
            for a in al:
                if a.num_args() == 2 and z3.is_int(a.arg(0)) and z3.is_int(a.arg(1)):
                    x, y = a.arg(0), a.arg(1)
                    for m in (simp(x - y), simp(y - x)):
                        fc = free_consts(m)
                        if all(num_of(n) <= start_n or n in hs for n in fc) and any(n in hs for n in fc):
                            if not any(m.eq(q) for q in ms): ms.append(m)
    for x in slots:
        if x.kind == 'int': ms += [x.h, -x.h]
    if 'gcd' in s.S.used:
        for x in slots:
            if x.kind == 'int': ms.append(z3.If(x.h >= 0, x.h, -x.h))
    ok = False
    for m in ms:
        good = True
        for lst, pairs in lat:
            m2 = sub(m, pairs)
            if not s.prove(lst, z3.And(m2 < m, m >= -1)):
                good = False; break
        if good:
            ok = True
            for lst, pairs in lat:
                m2 = sub(m, pairs)
                s.sink.append(Obl('termination', 'loop terminates (measure decreases and is bounded)', loopname, list(lst.pc), z3.simplify(z3.And(m2 < m, m >= -1))))
            break
    if not ok:
        lst = lat[0][0]
        s.sink.append(Obl('termination', 'loop terminates (no decreasing measure found)', loopname, list(lst.pc), z3.BoolVal(False)))


def generate(s, F, st, slots, it, lat, outs, start_n, loopname):
    cs = []
    seen = set()

    def add(e):
        if isinstance(e, bool): return
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e): return
        i = e.get_id()
        if i in seen: return
        if s.effort < 2 and z3.is_bool(e) and not z3.is_quantifier(e) and '18446744073709551616' in e.sexpr(): return
        seen.add(i); cs.append(e)

    hmap = {x.h.decl().name(): x for x in slots if x.h is not None}

    def ok_vars(e):
        return all(num_of(n) <= start_n or n in hmap for n in free_consts(e))

    def has_h(e):
        return any(n in hmap for n in free_consts(e))

    # ---- scalar variables (phis, scalar cells, array cells at a fixed index)
    lat = [(l, [(h, under(l.conds, v)) for h, v in ps]) for l, ps in lat]
    vars_ = []
    for x in slots:
        if x.kind == 'int':
            vars_.append((x.h, x.entry, [dict_get(p, x.h) for _, p in lat], 'int', x))
    wevents = {}
    allw = []
    for o in outs: allw += o[1].writes
    for k, ix, v in allw:
        if ix == 'W' or not ix: continue
        wevents.setdefault(k, []).append((ix, v))
    pairs_by = {x.ref[1]: x for x in slots if x.ref and x.ref[0] == 'cell'}
    fixed = {}; rowof = {}
    for k, evs in wevents.items():
        x = pairs_by.get(k)
        if x is None or x.kind != 'arr': continue
        idx0 = [simp(i) for i in evs[0][0]]
        same = all(len(ix) == len(idx0) and all(simp(a - b).eq(iv(0)) for a, b in zip(ix, idx0)) for ix, _ in evs)
        if same and all(ok_vars(i) and not has_h(i) for i in idx0):
            fixed[k] = idx0
            for lvl in range(len(idx0)):
                q = z3.Int('?q')
                a = s.sel(x.h, idx0[:lvl]); b = s.sel(x.entry, idx0[:lvl])
                add(z3.ForAll([q], z3.Implies(q != idx0[lvl], z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(a, q)]))
            hx = s.sel(x.h, idx0)
            if z3.is_array(hx): continue
            e0 = z3.simplify(s.sel(x.entry, idx0))
            lv = [z3.simplify(s.sel(dict_get(p, x.h), idx0)) for _, p in lat]
            kd = 'int' if z3.is_int(hx) else 'bool' if z3.is_bool(hx) else 'flt'
            vars_.append((hx, e0, lv, kd, None)); rowof[hx.get_id()] = idx0[-1]
    for x in slots:
        if x.kind == 'arr' and x.ref[1] not in fixed:
            for f in st.focus:
                hx = s.sel(x.h, [f])
                if z3.is_array(hx): continue
                kd = 'int' if z3.is_int(hx) else 'bool' if z3.is_bool(hx) else 'flt'
                vars_.append((hx, z3.simplify(s.sel(x.entry, [f])), [z3.simplify(s.sel(dict_get(p, x.h), [f])) for _, p in lat], kd, None))
    for x in slots:
        if x.kind in ('flt', 'bool'):
            vars_.append((x.h, x.entry, [dict_get(p, x.h) for _, p in lat], x.kind, x))

    affine = {}   # h name -> expression in it
    aff_sub = []; mod_sub = []
    deltas_sym = []
    for h, e, lv, kd, x in vars_:
        if kd != 'int': continue
        ds = [simp(l - h) for l in lv]
        uw = [simp(under(lat[i][0].conds if len(lat) == len(lv) else None, unwrap(s, l)) - h) for i, l in enumerate(lv)]
        if all(is_const(u) for u in uw) and not all(is_const(u) for u in ds):
            # modular update by a constant: candidates as if it did not wrap (each is checked like any other)
            lo = min(cval(u) for u in uw); hi = max(cval(u) for u in uw)
            if lo == hi: add(h == simp(e + lo * it)); mod_sub.append((h, simp(e + lo * it)))
            else: add(h >= simp(e + lo * it)); add(h <= simp(e + hi * it))
        uniq = []
        for d in ds:
            if not any(d.eq(u) for u in uniq): uniq.append(d)
        if len(uniq) == 1 and is_const(uniq[0]):
            d = cval(uniq[0])
            add(h == simp(e + d * it))
            if x is not None:
                affine[h.decl().name()] = simp(e + d * it); aff_sub.append((h, simp(e + d * it)))
            continue
        if uniq and all(is_const(u) for u in uniq):
            lo = min(cval(u) for u in uniq); hi = max(cval(u) for u in uniq)
            add(h >= simp(e + lo * it)); add(h <= simp(e + hi * it))
        if len(uniq) == 1 and not has_h(uniq[0]) and ok_vars(uniq[0]):
            d = uniq[0]
            sg = [dd for dd in (d, simp(-d)) if s.prove(st, dd > 0)]
            if not sg or s.effort > 2: add(h == simp(e + d * it))
            for dd in sg:
                if True:
                    add(s.S.MOD(h, dd) == s.S.MOD(e, dd))
        add(h >= e); add(h <= e); add(h >= 0); add(h >= 1); add(h > e); add(h <= it)
        add(z3.Or(h == e, z3.And(h >= 0, h < it)))
        # values assigned from H-free terms
    if 'gcd' in s.S.used:
        ab = lambda t: z3.If(t >= 0, t, -t)
        iv_ = [(h, e, x) for h, e, lv, kd, x in vars_ if kd == 'int' and not (x is not None and h.decl().name() in affine)][:5]
        for h1, e1, x1 in iv_:
            for w in (31, 63): add(h1 > -(1 << w))
        for i, (h1, e1, x1) in enumerate(iv_):
            for h2, e2, x2 in iv_[:i]:
                for p, q in ((e1, e2),):
                    add(s.S.GCD(simp(ab(h1)), simp(ab(h2))) == s.S.GCD(simp(ab(p)), simp(ab(q))))
    pv = [(h, e) for h, e, lv, kd, x in vars_ if kd == 'int' and not (x is not None and h.decl().name() in affine)]
    if len(pv) <= 8:
        for i, (h1, e1) in enumerate(pv):
            for h2, e2 in pv[:i]:
                if is_const(simp(e1 - e2)): add(simp(h1 - h2) == simp(e1 - e2))
    if len(pv) <= 6:
        for i, (h1, e1) in enumerate(pv):
            for h2, e2 in pv[:i]:
                for h3, e3 in pv:
                    if h3.eq(h1) or h3.eq(h2): continue
                    d = simp(e1 + e2 - e3)
                    if is_const(d): add(simp(h1 + h2 - h3) == d)
    counters = [it]
    for nm, e in affine.items():
        if not any(e.eq(c) for c in counters): counters.append(e)
    for h, e, lv, kd, x in vars_:
        if kd in ('flt', 'bool') and isinstance(e, z3.ExprRef): add(h == e)
    # ---- hints
    hints = []; hints2 = []
    for hh in st.hints:
        if len(hh) == 3: hints2.append(hh); continue
        k, t = hh
        if not any(t.eq(t2) and k.eq(k2) for k2, t2 in hints): hints.append((k, t))
    for h, e, lv, kd, x in vars_:
        if kd == 'int' and x is not None and h.decl().name() in affine: continue
        rows = [rowof[h.get_id()]] if h.get_id() in rowof else outer_its(st, it)
        for k1, k2, t in hints2:
            if t.sort() != h.sort(): continue
            for rr in rows:
                for c in counters: add(h == sub(t, [(k1, rr), (k2, c)]))
    for x in slots:
        if x.kind != 'arr' or not st.focus or x.ref[1] in fixed: continue
        k = x.ref[1]
        if not k[1]: continue
        lk = (k[0], k[1][:-1], k[1][-1], 'n')
        ln = next((y.h for y in slots if y.ref and y.ref == ('cell', lk)), st.mem.get(lk))
        if ln is None or len(k[1]) != 1: continue
        for f in st.focus:
            hx = s.sel(x.h, [f])
            for hk, t in hints:
                if t.sort() == hx.sort():
                    for c in counters: add(z3.Or(f >= ln, hx == sub(t, [(hk, c)])))
    if st.focus2:
        # element (r, c) of a table, being worked out in iteration r of an outer loop or already stored
        rows = outer_its(st, it)
        for r, c in st.focus2:
            for h, e, lv, kd, x in vars_:
                if x is not None and kd == 'int' and h.decl().name() in affine: continue
                for k, t in hints:
                    if t.sort() != h.sort(): continue
                    for rr in rows: add(z3.Or(rr != r, h == sub(t, [(k, it)])))
            for x in slots:
                if x.kind != 'arr' or x.ref[1] in fixed: continue
                k = x.ref[1]
                if not k[1]: continue
                lk = (k[0], k[1][:-1], k[1][-1], 'n')
                ln = next((y.h for y in slots if y.ref and y.ref == ('cell', lk)), st.mem.get(lk))
                el = x.h if len(k[1]) == 1 else s.sel(x.h, [r])
                if k[3] == 'n' and len(k[1]) == 1 and not z3.is_array(z3.Select(x.h, r)): ln = None; el = z3.Select(x.h, r); tab = True
                elif len(k[1]) == 1: tab = False
                else: tab = True
                if tab and not z3.is_array(el):
                    for hk, t in hints:
                        if t.sort() == el.sort(): add(z3.Or(it <= r, el == sub(t, [(hk, it)])))
                    continue
                if not z3.is_array(el) or ln is None: continue
                lt = s.sel(ln, [r]) if tab else ln
                ev = z3.Select(el, c)
                if z3.is_array(ev): continue
                if not tab and c.eq(r):
                    add(z3.Or(it > r, ev == z3.Select(x.entry, c)))
                    for hk, t in hints:
                        if t.sort() == ev.sort(): add(z3.Or(it <= r, ev == sub(t, [(hk, it)])))
                for hk, t in hints:
                    if t.sort() != ev.sort(): continue
                    for rr in ([None] if tab else rows):
                        add(z3.Or(it <= r if tab else rr != r, c >= lt, ev == sub(t, [(hk, it)])))
    for k, t in hints:
        if z3.is_bool(t): add(sub(t, [(k, it)]))
    for h, e, lv, kd, x in vars_:
        for k, t in hints:
            if t.sort() != h.sort(): continue
            if x is not None and kd == 'int' and h.decl().name() in affine and not s.opts.get('hint_affine'): continue
            for c in counters:
                add(h == sub(t, [(k, c)]))
            add(h == sub(t, [(k, simp(it - 1))])); add(h == sub(t, [(k, simp(it + 1))]))
            if kd == 'int':
                add(h <= sub(t, [(k, it)])); add(h >= sub(t, [(k, it)]))
    # ---- bounds from comparisons met in the body
    conds = []
    for o in outs:
        for c in o[1].conds:
            atoms(under(o[1].conds, c), conds)
            u = unwrap(s, c)
            if not u.eq(c): atoms(under(o[1].conds, u), conds)
    uc = []
    for a in conds + [nowrap(a) for a in conds]:
        if not any(a.eq(b) for b in uc): uc.append(a)
    for a in uc[:60]:
        if not ok_vars(a): continue
        if a.num_args() == 2 and z3.is_int(a.arg(0)):
            x, y = a.arg(0), a.arg(1)
            if has_h(a):
                for e in (x <= y, x >= y, x < y, x > y, x <= y + 1, x >= y - 1, x == y, x != y): add(e)
                for e in (x <= y + 1, x >= y - 1): add(z3.Or(it == 0, e))
        elif has_h(a):
            add(a); add(z3.Not(a))
        # loop-invariant side condition: entry value relation  e <= bound
    # ---- generalisation of conditions over earlier iterations
    q = z3.Int('?q')
    gsub = [(h, sub(e, [(it, q)])) for h, e in aff_sub + mod_sub] + [(it, q)]
    # a flag that still has its first value speaks about every earlier iteration
    flags = []
    fc = []
    for h, e, lv, kd, x in vars_:
        if x is None or not isinstance(e, z3.ExprRef): continue
        if kd == 'bool' and (is_true(simp(e)) or is_false(simp(e))) or kd == 'int' and is_const(simp(e)) and cval(simp(e)) in (0, 1) and h.decl().name() not in affine:
            if kd == 'int' and not all(v is not None and (z3.is_app_of(v, z3.Z3_OP_ITE) or is_const(simp(v)) or v.eq(h)) for v in lv): continue
            flags.append(h == e)
            for i, v in enumerate(lv):
                if v is not None and not v.eq(h): atoms(v if kd == 'bool' else simp(v == 1), fc); w = under(lat[i][0].conds, unwrap(s, v)); atoms(w if kd == 'bool' else simp(w == 1), fc)
    for a in fc:
        if not any(a.eq(b) for b in uc): uc.append(a)
    if s.opts.get("trace", 0) > 3: print("   FLAGS", loopname, flags, fc, [(str(h), str(e), [str(v) for v in lv]) for h, e, lv, kd, x in vars_])
    if len(flags) > 2: flags = []
    for a in uc[:40]:
        if not ok_vars(a): continue
        b = sub(a, gsub)
        if s.opts.get("trace", 0) > 3: print('   ATOM', a, '->', b, has_sel_uf(b), sel_down(b, q))
        if b.eq(a): continue
        if not has_sel_uf(b): continue
        for e in (b, z3.Not(b)):
            fa = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < it), e))
            add(fa)
            cd = sel_down(b, q)
            if cd is not None:
                fa = z3.ForAll([q], z3.Implies(z3.And(q > cd - it, q <= cd), simp_b(sub(e, [(q, cd - q)]))))
                add(fa)
            for f in flags: add(z3.Or(z3.Not(f), fa))
            c = sel_offset(b, q)
            if c is not None and 0 < c <= 4:
                # elements are looked at c places ahead: speak about the element itself, and about those before
                e2 = simp_b(sub(e, [(q, q - c)]))
                add(z3.ForAll([q], z3.Implies(z3.And(q >= c, q < it + c), e2)))
                add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < it + c), e2)))
    # ---- arrays written at a moving index
    for k, evs in wevents.items():
        if k in fixed: continue
        x = pairs_by.get(k)
        if x is None or x.kind != 'arr': continue
        cases = []
        for ix, v in evs:
            ix = [simp(sub(simp(i), aff_sub)) for i in ix]
            cases.append((ix, v))
        done = set()
        for ix, v in cases:
            lvl = None
            for l, i in enumerate(ix):
                if has_h(i) or not ok_vars(i): lvl = l; break
            if lvl is None: continue
            if not ok_vars(ix[lvl]): continue
            af = affine_in(ix[lvl], it)
            if af is None or af[1] == 0: continue
            c0, d = af
            if has_h(c0): continue
            pre = ix[:lvl]
            R = s.sel(x.h, pre); R0 = s.sel(x.entry, pre)
            for l2 in range(lvl):
                qq = z3.Int('?q'); a = s.sel(x.h, pre[:l2]); b = s.sel(x.entry, pre[:l2])
                add(z3.ForAll([qq], z3.Implies(qq != pre[l2], z3.Select(a, qq) == z3.Select(b, qq)), patterns=[z3.Select(a, qq)]))
            kk = z3.Int('?k')
            ad = abs(d)
            if d > 0:
                lo, hi = c0, simp(c0 + d * it); inr = z3.And(kk >= lo, kk < hi); itk = simp(kk - c0) if d == 1 else None
            else:
                lo, hi = simp(c0 + d * it), c0; inr = z3.And(kk > lo, kk <= hi); itk = simp(c0 - kk) if d == -1 else None
            Rk = z3.Select(R, kk); R0k = z3.Select(R0, kk)
            add(z3.ForAll([kk], z3.Implies(z3.Not(inr), Rk == R0k), patterns=[Rk]))
            # everything not yet reached
            if itk is None: continue
            if z3.is_array(Rk) and not z3.is_array(z3.Select(Rk, kk)) and hints2 and (tuple(k), lvl) not in done:
                # rows of a table: element c of the row  (hint2 gives the element by row and column)
                done.add((tuple(k), lvl))
                for k1, k2, t in hints2:
                    if t.sort() != Rk.sort().range(): continue
                    for c in range(3):
                        for rr in (kk, itk):
                            add(z3.ForAll([kk], z3.Implies(inr, z3.Select(Rk, c) == sub(t, [(k1, rr), (k2, z3.IntVal(c))])), patterns=[Rk]))
                            if itk.eq(kk): break
            if lvl == len(ix) - 1 and not z3.is_array(Rk):
                if v is not None:
                    vv = sub(v, aff_sub)
                    vv = sub(vv, [(it, itk)])
                    for w in (sub(vv, [(x.h, x.entry)]), vv):
                        w = z3.simplify(w)
                        if ok_vars(w) : add(z3.ForAll([kk], z3.Implies(inr, Rk == w), patterns=[Rk]))
                if len(lat) > 1:
                    # the paths through the body store different values: one value by cases
                    tgt = str(ix)
                    if tgt not in done:
                        done.add(tgt)
                        vals = []
                        for lst, pp in lat:
                            lv = z3.simplify(sub(s.sel(dict_get(pp, x.h), ix), aff_sub))
                            cd = []
                            for c in lst.conds:
                                c = sub(c, aff_sub)
                                if ok_vars(c) and not any(c.eq(y) for y in cd): cd.append(c)
                            vals.append((cd, lv))
                        com = [c for c in vals[0][0] if all(any(c.eq(y) for y in cd) for cd, _ in vals)]
                        m = None
                        for cd, lv in vals:
                            cd = [c for c in cd if not any(c.eq(y) for y in com)]
                            m = lv if m is None or m.eq(lv) else z3.If(z3.And(cd) if cd else z3.BoolVal(True), lv, m)
                        m = sub(m, [(it, itk)])
                        for w in (sub(m, [(x.h, x.entry)]), m):
                            w = z3.simplify(w)
                            if ok_vars(w): add(z3.ForAll([kk], z3.Implies(inr, Rk == w), patterns=[Rk]))
                for hk, t in hints:
                    if t.sort() != Rk.sort(): continue
                    add(z3.ForAll([kk], z3.Implies(inr, Rk == sub(t, [(hk, kk)])), patterns=[Rk]))
                    if not (is_const(itk) or itk.eq(kk)):
                        add(z3.ForAll([kk], z3.Implies(inr, Rk == sub(t, [(hk, itk)])), patterns=[Rk]))
    if len(cs) > 1200: cs = cs[:1200]
    return cs


def sel_offset(e, q):
    """c when every array access depending on q is at q + c"""
    cs = set()

    def go(x):
        if z3.is_app_of(x, z3.Z3_OP_SELECT):
            ix = x.arg(1)
            d = simp(ix - q)
            if is_const(d): cs.add(cval(d))
            elif any(n == q.decl().name() for n in free_consts(ix)): cs.add(None)
        for y in x.children(): go(y)
    go(e)
    if len(cs) != 1: return None
    return next(iter(cs))


def sel_down(e, q):
    """c when every array access depending on q is at c - q"""
    cs = []

    def go(x):
        if z3.is_app_of(x, z3.Z3_OP_SELECT):
            ix = x.arg(1)
            if any(n == q.decl().name() for n in free_consts(ix)):
                d = simp(ix + q)
                cs.append(None if any(n == q.decl().name() for n in free_consts(d)) else d)
        for y in x.children(): go(y)
    go(e)
    if not cs or any(c is None or not c.eq(cs[0]) for c in cs): return None
    return cs[0]


def simp_b(e): return z3.simplify(e, som=True)


def nowrap(e, memo=None):
    """the same term with unsigned reinterpretations dropped (used in candidates only)"""
    if memo is None: memo = {}
    k = e.get_id()
    if k in memo: return memo[k][1]
    if not z3.is_app(e) or e.num_args() == 0: r = e
    else:
        ch = [nowrap(c, memo) for c in e.children()]
        if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_int(e):
            d1 = simp(ch[2] - ch[1])
            if is_const(d1) and abs(cval(d1)) in (1 << 32, 1 << 64): r = ch[1] if cval(d1) > 0 else ch[2]
            else: r = e.decl()(*ch)
        else:
            r = z3.And(ch) if z3.is_and(e) else z3.Or(ch) if z3.is_or(e) else e.decl()(*ch)
    r = z3.simplify(r) if z3.is_bool(r) else r
    memo[k] = (e, r)
    return r


def unwrap(s, t):
    for _ in range(4):
        m = [(s.wraps[n][0], s.wraps[n][1]) for n in free_consts(t) if n in s.wraps]
        if not m: return t
        t = z3.simplify(z3.substitute(t, m))
    return t


def outer_its(st, it):
    r = []
    for f in st.pc:
        if z3.is_ge(f) and z3.is_const(f.arg(0)) and f.arg(0).decl().name().startswith('it!') and not f.arg(0).eq(it):
            if not any(f.arg(0).eq(x) for x in r): r.append(f.arg(0))
    return r[-2:]


def has_sel_uf(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): continue
        if z3.is_select(x): return True
        st += x.children()
    return False


def dict_get(pairs, h):
    for a, b in pairs:
        if a.eq(h): return b
    return h
