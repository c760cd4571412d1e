"""Parser for the textual LLVM IR (18.x, opaque pointers) that clang/opt emit
for the contract translation units.  Only syntax is handled here."""
import re, struct, subprocess

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"])*")
 |(?P<gq>[@%]"[^"]*")
 |(?P<id>[@%][-a-zA-Z$._0-9]+)
 |(?P<md>![-a-zA-Z$._0-9]*)
 |(?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_][\w.]*)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


# ---- types: tuples -------------------------------------------------------
#  ('i',w) ('f',64|32|80) ('p',) ('v',) ('a',n,t) ('s',[t..],packed)
#  ('named',name) ('vec',n,t) ('label',) ('md',)

class Val:
    __slots__ = ('k', 'v', 't')

    def __init__(s, k, v, t=None):
        s.k = k; s.v = v; s.t = t

    def __repr__(s):
        return f'{s.k}:{s.v}'


class Instr:
    __slots__ = ('op', 'res', 'a', 'dbg', 'ty', 'text')

    def __init__(s, op, res, a, ty=None):
        s.op = op; s.res = res; s.a = a; s.dbg = None; s.ty = ty

    def __repr__(s):
        return f'{s.res}={s.op} {s.a}'


class Block:
    def __init__(s, name):
        s.name = name; s.ins = []


class Function:
    def __init__(s, name):
        s.name = name; s.params = []; s.blocks = {}; s.order = []; s.ret = None
        s.dbg = None


class Toks:
    def __init__(s, text):
        s.l = []
        pos = 0
        n = len(text)
        while pos < n:
            if text[pos] in ' \t':
                pos += 1; continue
            m = TOK.match(text, pos)
            if not m:
                raise ParseError('tok: ' + text[pos:pos + 40] + ' in ' + text[:200])
            s.l.append((m.lastgroup, m.group(0)))
            pos = m.end()
        s.i = 0

    def peek(s, k=0):
        j = s.i + k
        return s.l[j][1] if j < len(s.l) else None

    def kind(s, k=0):
        j = s.i + k
        return s.l[j][0] if j < len(s.l) else None

    def next(s):
        r = s.l[s.i][1]; s.i += 1
        return r

    def accept(s, x):
        if s.peek() == x:
            s.i += 1; return True
        return False

    def expect(s, x):
        if not s.accept(x):
            raise ParseError(f'expected {x} got {s.peek()} :: {" ".join(t for _, t in s.l)}')


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
               'noalias', 'returned', 'inreg', 'immarg', 'nest', 'swiftself', 'nofree', 'noext', 'inalloca',
               'allocptr', 'allocalign', 'dead_on_unwind', 'writable', 'initializes'}
FM = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
CC = {'fastcc', 'ccc', 'coldcc'}


def parse_type(t):
    x = t.next()
    if x == 'void': r = ('v',)
    elif x == 'ptr': r = ('p',)
    elif x == 'double': r = ('f', 64)
    elif x == 'float': r = ('f', 32)
    elif x == 'x86_fp80': r = ('f', 80)
    elif x == 'label': r = ('label',)
    elif x == 'metadata': r = ('md',)
    elif x == 'token': r = ('tok',)
    elif re.match(r'i\d+$', x): r = ('i', int(x[1:]))
    elif x == '[':
        n = int(t.next()); t.expect('x'); e = parse_type(t); t.expect(']'); r = ('a', n, e)
    elif x == '{':
        l = []
        if not t.accept('}'):
            while True:
                l.append(parse_type(t))
                if t.accept('}'): break
                t.expect(',')
        r = ('s', l, False)
    elif x == '<':
        if t.peek() == '{':
            r = parse_type(t); r = ('s', r[1], True); t.expect('>')
        else:
            n = int(t.next()); t.expect('x'); e = parse_type(t); t.expect('>'); r = ('vec', n, e)
    elif x[0] == '%': r = ('named', x)
    elif x == 'opaque': r = ('opaque',)
    else: raise ParseError('type ' + x)
    # function type
    if t.peek() == '(' and r is not None and t.kind() == 'p':
        # e.g. "void (ptr, ...)" in call
        save = t.i
        try:
            t.next()
            args = []
            if not t.accept(')'):
                while True:
                    if t.accept('...'):
                        args.append('...')
                    else:
                        args.append(parse_type(t))
                        skip_param_attrs(t)
                    if t.accept(')'): break
                    t.expect(',')
            return ('fn', r, args)
        except ParseError:
            t.i = save
    return r


def skip_param_attrs(t):
    d = {}
    while True:
        x = t.peek()
        if x in PARAM_ATTRS:
            t.next(); d[x] = True
            if t.peek() == '(':
                skip_paren(t)
        elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'range', 'elementtype', 'nofpclass', 'preallocated', 'captures'):
            t.next()
            if t.peek() == '(':
                b = t.i
                skip_paren(t)
                d[x] = t.l[b:t.i]
            else:
                t.next()
        else:
            return d


def skip_paren(t):
    depth = 0
    while True:
        x = t.next()
        if x == '(': depth += 1
        elif x == ')':
            depth -= 1
            if depth == 0: return


def f_hex(s, ty):
    if s.startswith('0xK'):
        h = int(s[3:], 16)
        # 80 bit extended
        e = (h >> 64) & 0x7fff; m = h & ((1 << 64) - 1)
        return m * 2.0 ** (e - 16383 - 63) * (-1 if h >> 79 else 1)
    return struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0]


def parse_val(t, ty):
    """value of known type ty"""
    k = t.kind(); x = t.next()
    if k == 'gq' or k == 'id':
        if x[0] == '%': return Val('loc', x, ty)
        return Val('glob', x[1:].strip('"'), ty)
    if k == 'num':
        if ty[0] == 'f': return Val('f', float(x), ty)
        return Val('i', int(x), ty)
    if k == 'hex': return Val('f', f_hex(x, ty), ty)
    if x == 'true': return Val('i', 1, ty)
    if x == 'false': return Val('i', 0, ty)
    if x == 'null': return Val('null', None, ty)
    if x in ('undef', 'poison'): return Val('undef', None, ty)
    if x == 'zeroinitializer': return Val('zero', None, ty)
    if x == 'none': return Val('none', None, ty)
    if k == 'str' : return Val('cstr', x, ty)
    if x == 'getelementptr':
        fl = set()
        while t.peek() in ('inbounds', 'nuw', 'nusw') or t.peek() == 'inrange':
            t.next()
            if t.peek() == '(' and t.kind(1) == 'num':
                skip_paren(t)
        t.expect('(')
        bt = parse_type(t); t.expect(',')
        vals = []
        while True:
            while t.peek() == 'inrange': t.next()
            vt = parse_type(t); vals.append(parse_val(t, vt))
            if t.accept(')'): break
            t.expect(',')
        return Val('cgep', (bt, vals), ty)
    if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        t.expect('('); vt = parse_type(t); v = parse_val(t, vt); t.expect('to'); tt = parse_type(t); t.expect(')')
        return Val('ccast', (x, v, tt), ty)
    if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
        while t.peek() in ('nuw', 'nsw'): t.next()
        t.expect('('); t1 = parse_type(t); a = parse_val(t, t1); t.expect(','); t2 = parse_type(t); b = parse_val(t, t2); t.expect(')')
        return Val('cbin', (x, a, b), ty)
    if x == '{' or x == '[' or x == '<':
        if x == '<' and t.peek() == '{': t.next()
        close = {'{': '}', '[': ']', '<': '>'}[x]
        l = []
        if not t.accept(close):
            while True:
                vt = parse_type(t); skip_param_attrs(t); l.append(parse_val(t, vt))
                if t.peek() in ('}', ']', '>'):
                    t.next()
                    if t.peek() == '>' and x == '<': t.accept('>')
                    break
                t.expect(',')
        return Val('agg', l, ty)
    raise ParseError('val ' + str(x) + ' :: ' + ' '.join(q for _, q in t.l)[:300])


def parse_tv(t):
    ty = parse_type(t)
    skip_param_attrs(t)
    if ty[0] == 'md':
        # swallow metadata operand
        depth = 0
        while t.peek() is not None:
            if t.peek() == '(': depth += 1
            if t.peek() == ')':
                if depth == 0: break
                depth -= 1
            if t.peek() == ',' and depth == 0: break
            t.next()
        return Val('md', None, ty)
    return parse_val(t, ty)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


def parse_instr(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    # strip trailing metadata attachments
    line = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', line)
    line = re.sub(r'(, ![a-zA-Z_.]+ !\{\})+\s*$', '', line)
    t = Toks(line)
    res = None
    if t.kind() in ('id', 'gq') and t.peek(1) == '=':
        res = t.next(); t.next()
    op = t.next()
    while op in ('tail', 'musttail', 'notail'):
        op = t.next()
    I = None
    if op in BIN:
        fl = set()
        while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or t.peek() in FM: fl.add(t.next())
        ty = parse_type(t); a = parse_val(t, ty); t.expect(','); b = parse_val(t, ty)
        I = Instr(op, res, (a, b, fl), ty)
    elif op == 'fneg':
        while t.peek() in FM: t.next()
        ty = parse_type(t); I = Instr(op, res, (parse_val(t, ty),), ty)
    elif op in CAST:
        while t.peek() in ('nneg', 'nuw', 'nsw'): t.next()
        ty = parse_type(t); v = parse_val(t, ty); t.expect('to'); tt = parse_type(t)
        I = Instr(op, res, (v, tt), tt)
    elif op == 'icmp' or op == 'fcmp':
        while t.peek() in FM: t.next()
        pred = t.next(); ty = parse_type(t); a = parse_val(t, ty); t.expect(','); b = parse_val(t, ty)
        I = Instr(op, res, (pred, a, b), ('i', 1))
    elif op == 'select':
        while t.peek() in FM: t.next()
        c = parse_tv(t); t.expect(','); a = parse_tv(t); t.expect(','); b = parse_tv(t)
        I = Instr(op, res, (c, a, b), a.t)
    elif op == 'freeze':
        v = parse_tv(t); I = Instr(op, res, (v,), v.t)
    elif op == 'phi':
        while t.peek() in FM: t.next()
        ty = parse_type(t); inc = []
        while True:
            t.expect('['); v = parse_val(t, ty); t.expect(','); lab = t.next(); t.expect(']')
            inc.append((v, lab))
            if not t.accept(','): break
        I = Instr(op, res, inc, ty)
    elif op == 'alloca':
        t.accept('inalloca')
        ty = parse_type(t); n = None
        while t.accept(','):
            if t.peek() == 'align': t.next(); t.next()
            elif t.peek() == 'addrspace': t.next(); skip_paren(t)
            else: n = parse_tv(t)
        I = Instr(op, res, (ty, n), ('p',))
    elif op == 'load':
        t.accept('atomic'); t.accept('volatile')
        ty = parse_type(t); t.expect(','); p = parse_tv(t)
        I = Instr(op, res, (p,), ty)
    elif op == 'store':
        t.accept('atomic'); t.accept('volatile')
        v = parse_tv(t); t.expect(','); p = parse_tv(t)
        I = Instr(op, None, (v, p), ('v',))
    elif op == 'getelementptr':
        while t.peek() in ('inbounds', 'nuw', 'nusw'): t.next()
        bt = parse_type(t); t.expect(','); p = parse_tv(t); idx = []
        while t.accept(','): idx.append(parse_tv(t))
        I = Instr(op, res, (bt, p, idx), ('p',))
    elif op == 'br':
        if t.peek() == 'label':
            t.next(); I = Instr('br', None, (None, t.next(), None))
        else:
            c = parse_tv(t); t.expect(','); t.expect('label'); a = t.next(); t.expect(','); t.expect('label'); b = t.next()
            I = Instr('br', None, (c, a, b))
    elif op == 'switch':
        c = parse_tv(t); t.expect(','); t.expect('label'); d = t.next(); t.expect('['); cs = []
        while not t.accept(']'):
            v = parse_tv(t); t.expect(','); t.expect('label'); cs.append((v.v, t.next()))
        I = Instr('switch', None, (c, d, cs))
    elif op == 'ret':
        if t.peek() == 'void': I = Instr('ret', None, (None,))
        else: I = Instr('ret', None, (parse_tv(t),))
    elif op in ('call', 'invoke'):
        while t.peek() in FM or t.peek() in CC: t.next()
        skip_param_attrs(t)
        ty = parse_type(t)
        rty = ty[1] if ty[0] == 'fn' else ty
        callee = parse_val(t, ('p',))
        t.expect('(')
        args = []
        if not t.accept(')'):
            while True:
                args.append(parse_tv(t))
                if t.accept(')'): break
                t.expect(',')
        norm = unw = None
        while t.peek() is not None and not t.peek().startswith('to'):
            if t.kind() == 'attr': t.next()
            elif t.peek() == '[': # operand bundles
                while t.next() != ']': pass
            elif t.peek() in ('nounwind', 'noreturn', 'builtin', 'nobuiltin', 'cold', 'memory', 'allocsize', 'nomerge'):
                t.next()
                if t.peek() == '(': skip_paren(t)
            else: break
        if op == 'invoke':
            t.expect('to'); t.expect('label'); norm = t.next(); t.expect('unwind'); t.expect('label'); unw = t.next()
        I = Instr(op, res, (callee, args, norm, unw), rty)
    elif op == 'landingpad':
        ty = parse_type(t); cl = []; cleanup = False
        while t.peek() is not None:
            x = t.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch': cl.append(('catch', parse_tv(t)))
            elif x == 'filter': cl.append(('filter', parse_tv(t)))
        I = Instr(op, res, (cleanup, cl), ty)
    elif op == 'resume':
        I = Instr(op, None, (parse_tv(t),))
    elif op == 'extractvalue':
        v = parse_tv(t); ix = []
        while t.accept(','): ix.append(int(t.next()))
        I = Instr(op, res, (v, ix))
    elif op == 'insertvalue':
        v = parse_tv(t); t.expect(','); e = parse_tv(t); ix = []
        while t.accept(','): ix.append(int(t.next()))
        I = Instr(op, res, (v, e, ix), v.t)
    elif op == 'unreachable':
        I = Instr(op, None, ())
    elif op in ('cmpxchg', 'atomicrmw', 'fence', 'extractelement', 'insertelement', 'shufflevector', 'va_arg'):
        I = Instr(op, res, (line,))
    else:
        raise ParseError('op ' + op + ' in ' + line)
    I.dbg = dbg
    return I


class Module:
    def __init__(s):
        s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.md = {}; s.dem = {}

    # ---- layout
    def sizeof(s, t):
        k = t[0]
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
        if k == 'f': return {64: 8, 32: 4, 80: 16}[t[1]]
        if k == 'p': return 8
        if k == 'a': return t[1] * s.sizeof(t[2])
        if k == 'vec': return t[1] * s.sizeof(t[2])
        if k == 'named': return s.sizeof(s.types[t[1]])
        if k == 's': return s.struct_layout(t)[1]
        raise ParseError('sizeof ' + str(t))

    def alignof(s, t):
        k = t[0]
        if k in ('i', 'f', 'p'): return s.sizeof(t)
        if k in ('a',): return s.alignof(t[2])
        if k == 'vec': return s.sizeof(t)
        if k == 'named': return s.alignof(s.types[t[1]])
        if k == 's':
            if t[2]: return 1
            return max([s.alignof(e) for e in t[1]] or [1])
        raise ParseError('align ' + str(t))

    def struct_layout(s, t):
        if t[0] == 'named': t = s.types[t[1]]
        off = 0; offs = []
        for e in t[1]:
            if not t[2]:
                a = s.alignof(e); off = (off + a - 1) // a * a
            offs.append(off); off += s.sizeof(e)
        if not t[2]:
            a = s.alignof(t); off = (off + a - 1) // a * a
        return offs, off

    def resolve(s, t):
        while t[0] == 'named': t = s.types[t[1]]
        return t


DEFRE = re.compile(r'^(define|declare)\b')


def parse_sig(line):
    """parse define/declare line -> (ret, name, params[(ty,name,attrs)])"""
    t = Toks(re.sub(r'\s*\{\s*$', '', line))
    t.next()
    while True:
        x = t.peek()
        if x in ('dso_local', 'linkonce_odr', 'weak_odr', 'internal', 'private', 'hidden', 'weak', 'linkonce', 'external', 'available_externally',
                 'extern_weak', 'unnamed_addr', 'local_unnamed_addr', 'default', 'protected') or x in CC:
            t.next()
        else: break
    skip_param_attrs(t)
    # return type must not swallow fn paren: name comes first
    rt = parse_type(t)
    name = t.next()[1:].strip('"')
    t.expect('(')
    ps = []
    if not t.accept(')'):
        while True:
            if t.accept('...'):
                pass
            else:
                ty = parse_type(t); at = skip_param_attrs(t)
                nm = None
                if t.kind() in ('id', 'gq'): nm = t.next()
                ps.append((ty, nm, at))
            if t.accept(')'): break
            t.expect(',')
    dbg = None
    m = re.search(r'!dbg !(\d+)', line)
    if m: dbg = int(m.group(1))
    return rt, name, ps, dbg


def parse_module(text, lazy=True):
    M = Module()
    lines = text.split('\n')
    i = 0
    bodies = {}
    while i < len(lines):
        l = lines[i]
        if not l or l[0] == ';':
            i += 1; continue
        c = l[0]
        if c == '%':
            m = re.match(r'^(%"[^"]*"|%[-\w$.]+) = type (.*)$', l)
            if m:
                M.types[m.group(1)] = parse_type(Toks(m.group(2)))
        elif c == '@':
            m = re.match(r'^@("[^"]*"|[-\w$.]+) = (.*)$', l)
            M.globals[m.group(1).strip('"')] = m.group(2)
        elif c == '!':
            m = re.match(r'^!(\d+) = (.*)$', l)
            if m: M.md[int(m.group(1))] = m.group(2)
        elif l.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l).group(1).strip('"')
            bodies[nm] = (l, lines[i + 1:j])
            i = j
        elif l.startswith('declare'):
            nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l).group(1).strip('"')
            M.decls[nm] = l
        i += 1
    M.bodies = bodies
    names = list(bodies) + list(M.decls) + [g for g in M.globals]
    dem = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    M.dem = dict(zip(names, dem))
    return M


def get_func(M, name):
    if name in M.funcs: return M.funcs[name]
    if name not in M.bodies: return None
    l, body = M.bodies[name]
    rt, nm, ps, dbg = parse_sig(l)
    F = Function(name); F.ret = rt; F.params = ps; F.dbg = dbg
    # unnamed params numbering
    cnt = 0
    P = []
    for ty, n, at in ps:
        if n is None: n = '%' + str(cnt); cnt += 1
        elif re.match(r'%\d+$', n): cnt = int(n[1:]) + 1
        P.append((ty, n, at))
    F.params = P
    cur = None
    # join multi-line switch / landingpad / invoke
    out = []
    k = 0
    while k < len(body):
        s = body[k]
        st = s.strip()
        if not st or st.startswith(';'):
            k += 1; continue
        if st.startswith('#dbg'):
            k += 1; continue
        if re.match(r'^("[^"]*"|[-\w$.]+):', s):
            out.append(('L', s.split(';')[0].strip())); k += 1; continue
        if re.match(r'^\s+switch .*\[\s*$', s):
            acc = st
            k += 1
            while body[k].strip()[0] != ']':
                acc += ' ' + body[k].strip(); k += 1
            acc += ' ' + body[k].strip(); k += 1
            out.append(('I', acc)); continue
        acc = st; k += 1
        while k < len(body) and re.match(r'^\s+(catch |cleanup|filter |to label)', body[k]):
            acc += ' ' + body[k].strip(); k += 1
        out.append(('I', acc))
    for kind, s in out:
        if kind == 'L':
            nm = s[:s.rindex(':')]
            nm = nm if nm.startswith('"') else nm
            cur = Block('%' + nm); F.blocks[cur.name] = cur; F.order.append(cur.name)
        else:
            if cur is None:
                cur = Block('%' + str(cnt)); F.blocks[cur.name] = cur; F.order.append(cur.name)
            cur.ins.append(parse_instr(s))
    M.funcs[name] = F
    analyze(F)
    return F


def succs(b):
    t = b.ins[-1]
    if t.op == 'br':
        return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [x[1] for x in t.a[2]]
    if t.op == 'invoke':
        return [t.a[2], t.a[3]]
    return []


def analyze(F):
    """natural loops: F.loops[header] = set(blocks)"""
    S = {n: succs(F.blocks[n]) for n in F.order}
    P = {n: [] for n in F.order}
    for n in F.order:
        for x in S[n]: P[x].append(n)
    entry = F.order[0]
    # reachability + rpo
    seen = set(); post = []
    st = [(entry, iter(S[entry]))]; seen.add(entry)
    while st:
        n, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(S[x]))); break
        else:
            post.append(n); st.pop()
    rpo = post[::-1]; num = {n: i for i, n in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in P[n]:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]: a = idom[a]
                            while num[b] > num[a]: b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    F.irreducible = False
    for n in rpo:
        for x in S[n]:
            if num[x] <= num[n]:
                if dom(x, n):
                    body = loops.setdefault(x, {x})
                    w = [n]
                    while w:
                        y = w.pop()
                        if y in body: continue
                        body.add(y); w += [p for p in P[y] if p in num]
                else:
                    F.irreducible = True
    F.loops = loops; F.rpo = num; F.preds = P
