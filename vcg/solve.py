"""Discharging obligations: z3 (two configurations), then cvc5."""
import os, re, time, multiprocessing as mp
import z3
import nra


def parse_cfg(src):
    cfg = {'mode': 'real', 'stubs': [], 'opaque': []}
    txt = open(src).read()
    for n in re.findall(r'^#include "([^"]+)"', txt, re.M):
        f = os.path.join(os.path.dirname(src), n)
        if os.path.exists(f): txt += '\n' + open(f).read()
    for m in re.finditer(r'^//@(\w+)\s+(.*)$', txt, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == 'mode': cfg['mode'] = v
        elif k == 'stub':
            a, b = v.split('=>'); cfg['stubs'].append((a.strip(), b.strip(), False)); cfg['opaque'].append(a.strip())
        elif k == 'rec':
            a, b = v.split('=>'); cfg['stubs'].append((a.strip(), b.strip(), True)); cfg['opaque']
        elif k == 'default':
            a, b = v.split('=>'); cfg.setdefault('default', {})[a.strip()] = b.strip()
        elif k == 'keep':
            cfg['opaque'].append(v)
        else: cfg[k] = v
    return cfg


CONFIGS = [
    ('z3', {'smt.mbqi': False, 'smt.arith.nl': True, 'push': 1}, 2),
    ('z3', {'smt.mbqi': False, 'smt.arith.nl': False}, 4),
    ('z3', {'smt.mbqi': False, 'smt.arith.nl': True}, 8),
    ('z3', {'smt.mbqi': False, 'smt.arith.nl': True, 'smt.arith.solver': 2}, 8),
    ('z3', {'smt.mbqi': False, 'smt.arith.nl': True, 'smt.random_seed': 7, 'smt.qi.eager_threshold': 100.0}, 12),
]


def linear(pc, neg):
    """ground real facts as linear combinations of monomials"""
    s = z3.SolverFor('QF_LRA'); s.set('timeout', 1500)
    memo, mono = {}, {}

    def var(t):
        k = t.get_id()
        if k not in mono: mono[k] = (z3.FreshReal('m'), t)
        return mono[k][0]

    def conv(t):
        """linear real term"""
        if z3.is_rational_value(t): return t
        if z3.is_add(t): return z3.Sum([conv(c) for c in t.children()])
        if z3.is_mul(t):
            cs = [c for c in t.children() if z3.is_rational_value(c)]; xs = [c for c in t.children() if not z3.is_rational_value(c)]
            if not xs: return t
            xs.sort(key=lambda c: c.get_id())
            m = xs[0]
            for c in xs[1:]: m = m * c
            r = var(m)
            for c in cs: r = c * r
            return r
        return var(t)

    def form(f):
        if z3.is_not(f):
            x = form(f.arg(0)); return None if x is None else z3.Not(x)
        if z3.is_and(f) or z3.is_or(f):
            xs = [form(c) for c in f.children()]
            if any(x is None for x in xs): return None
            return (z3.And if z3.is_and(f) else z3.Or)(xs)
        if (z3.is_eq(f) or z3.is_le(f) or z3.is_ge(f) or z3.is_lt(f) or z3.is_gt(f)) and z3.is_real(f.arg(0)):
            a, b = conv(f.arg(0)), conv(f.arg(1))
            return a == b if z3.is_eq(f) else a <= b if z3.is_le(f) else a >= b if z3.is_ge(f) else a < b if z3.is_lt(f) else a > b
        return None
    for f in nra.flatten(list(pc) + [neg]):
        if z3.is_quantifier(f): continue
        g = form(z3.simplify(f, som=True, flat=True))
        if g is not None: s.add(g)
    return s.check() == z3.unsat


def attempt(axioms, o, budget=1.0, use_cvc5=True):
    t0 = time.time()
    if o.pc is None: return 'proved', 'simplifier', 0.
    neg = z3.Not(o.goal)
    last = 'unknown'
    if nra.has_real(neg) or o.nra:
        s = z3.Solver(); s.set('smt.mbqi', False); s.set('smt.auto_config', False); s.set('timeout', 700); s.push()
        for f in axioms: s.add(f)
        for f in o.pc: s.add(f)
        s.add(neg)
        if s.check() == z3.unsat: return 'proved', 'z3', time.time() - t0
        if linear(o.pc, neg): return 'proved', 'z3', time.time() - t0
        if nra.unsat(list(o.pc), neg, int(2000 * budget)): return 'proved', 'z3-nlsat', time.time() - t0
    for name, params, tmo in CONFIGS:
        s = z3.Solver()
        s.set('smt.auto_config', False)
        for k, v in params.items():
            if k != 'push': s.set(k, v)
        if params.get('push'): s.push()
        s.set('timeout', int(tmo * 1000 * budget))
        for a in axioms: s.add(a)
        for f in o.pc: s.add(f)
        s.add(neg)
        r = s.check()
        if r == z3.unsat: return 'proved', name, time.time() - t0
        if o.model is None or r == z3.sat:
            try: o.model = s.model()
            except z3.Z3Exception: pass
        if r == z3.sat: last = 'refuted'; break
        rs = s.reason_unknown()
        if 'incomplete' in rs and params.get('smt.arith.nl'):
            pass
    if use_cvc5 and last != 'refuted':
        r = cvc5_try(axioms, o, int(15 * budget))
        if r: return 'proved', 'cvc5', time.time() - t0
    return last, '-', time.time() - t0


def cvc5_try(axioms, o, tmo):
    import subprocess
    s = z3.Solver()
    for a in axioms: s.add(a)
    for f in o.pc: s.add(f)
    s.add(z3.Not(o.goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={tmo * 1000}', '--full-saturate-quant', '-'], input=txt, capture_output=True, text=True, timeout=tmo + 5)
        return p.stdout.strip().startswith('unsat')
    except Exception:
        return False


_G = {}


def _work(i):
    o = _G['obls'][i]
    try:
        return i, attempt(_G['ax'], o, _G['budget'], _G['cvc5'])
    except Exception as x:
        return i, ('error ' + str(x)[:100], '-', 0.)


def discharge(e, obls, procs=1, verbose=0, budget=1.0, cvc5=False):
    ax = e.axioms()
    todo = []
    seen = {}
    dup = []
    for i, o in enumerate(obls):
        o.nra = e.cfg.get('nra') == '1'
        if o.pc is None: o.status = 'proved'; o.backend = 'simplifier'; continue
        key = (o.goal.get_id(), tuple(f.get_id() for f in o.pc))
        if key in seen: dup.append((i, seen[key])); continue
        seen[key] = i
        todo.append(i)
    _G.update(obls=obls, ax=ax, budget=budget, cvc5=cvc5)
    if procs > 1 and len(todo) > 8:
        with mp.get_context('fork').Pool(procs) as p:
            for i, r in p.imap_unordered(_work, todo, chunksize=4):
                obls[i].status, obls[i].backend, obls[i].time = r
    else:
        for i in todo:
            _, r = _work(i)
            obls[i].status, obls[i].backend, obls[i].time = r
    for i, j in dup:
        obls[i].status = obls[j].status; obls[i].backend = obls[j].backend
    return obls
