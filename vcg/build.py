"""/repo headers + contract TU -> analysed LLVM IR; and native contract checker."""
import os, re, subprocess, hashlib, sys

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CON = os.path.join(HERE, 'contracts')

# std functions that (re)allocate: kept as calls, given contracts in models.py
OPAQUE = re.compile(
    r'^(?:[^(]*\s)?std::vector<.*>::(vector|~vector|push_back|emplace_back|resize|reserve|operator=|swap|clear|assign|insert|erase|pop_back)(<.*>)?\('
    r'|^std::(__cxx11::)?basic_string<.*>::(basic_string|~basic_string|operator=|append|assign|push_back|c_str|data|size|length|empty|operator\+=|compare|find|substr|operator\[\])(<.*>)?\('
    r'|^std::[a-z_]*(runtime_error|logic_error|out_of_range|invalid_argument|overflow_error|underflow_error|domain_error|length_error|range_error|exception)::'
    r'|^(?:[^(]*\s)?std::(__cxx11::)?to_string'
    r'|^(?:[^(]*\s)?std::(gcd|lcm|__gcd|__detail::__gcd)(<.*>)?\('
    r'|^(?:[^(]*\s)?fmt::(?!v9::basic_format_string<|v9::basic_string_view<|v9::basic_runtime<)'
    r'|^(?:[^(]*\s)?std::operator(<<|>>|\+|==)'
    r'|^std::(__cxx11::)?basic_[io]?stringstream<|^std::basic_[io]?stream<'
)


class BuildError(Exception):
    pass


def run(cmd, inp=None, timeout=600):
    p = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=timeout)
    return p


def compile_ir(src, tmp, defs=(), ctx_opaque=(), keep=(), mode_flags=()):
    base = os.path.join(tmp, os.path.splitext(os.path.basename(src))[0])
    cmd = ['clang++-18', '-std=c++17', '-DVF_SYM', '-DFMT_HEADER_ONLY', '-I' + REPO + '/include', '-I' + CON,
           '-O1', '-gline-tables-only', '-ffp-contract=off', '-fno-math-errno', '-Xclang', '-disable-llvm-passes',
           '-fno-discard-value-names', '-w', '-S', '-emit-llvm', src, '-o', base + '.ll', *['-D' + d for d in defs], *mode_flags]
    p = run(cmd)
    if p.returncode:
        raise BuildError('clang: ' + p.stderr[-3000:])
    t = open(base + '.ll').read()
    t = preprocess(t, ctx_opaque)
    open(base + '.p.ll', 'w').write(t)
    api = ','.join(sorted(set(re.findall(r'@(h_\w+|stub_\w+)\(', t))))
    passes = 'internalize,globaldce,function(sroa,tailcallelim),cgscc(inline),globaldce,function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify,adce,simplifycfg,loop-simplify)'
    p = run(['opt-18', '-passes=' + passes, '-inline-threshold=100000000', '-inlinecold-threshold=100000000',
             '-internalize-public-api-list=' + api, '-S', base + '.p.ll', '-o', base + '.o.ll'])
    if p.returncode:
        raise BuildError('opt: ' + p.stderr[-3000:])
    return open(base + '.o.ll').read()


def preprocess(t, extra):
    lines = t.split('\n')
    names = []
    for l in lines:
        if l.startswith('define'):
            names.append(re.search(r'@("[^"]*"|[-\w$.]+)\(', l).group(1))
    dem = run(['llvm-cxxfilt-18'], '\n'.join(n.strip('"') for n in names)).stdout.split('\n')
    D = dict(zip(names, dem))
    ex = [re.compile(e) for e in extra]
    out = []; i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('define'):
            n = re.search(r'@("[^"]*"|[-\w$.]+)\(', l).group(1)
            d = D[n]
            if not n.startswith('h_') and not n.startswith('stub_') and (OPAQUE.search(d) or any(e.search(d) for e in ex)):
                while lines[i] != '}': i += 1
                i += 1
                h = re.sub(r'^define ', 'declare ', l)
                h = re.sub(r'\b(linkonce_odr|available_externally|weak_odr|internal|dso_local|linkonce|private)\b ', '', h)
                # cut after the parameter list
                p = h.index('@' + n) + len(n) + 1
                depth = 0
                for q in range(p, len(h)):
                    if h[q] == '(': depth += 1
                    elif h[q] == ')':
                        depth -= 1
                        if depth == 0: break
                tail = h[q + 1:]
                m = re.search(r'#\d+', tail)
                out.append(h[:q + 1] + (' ' + m.group(0) if m else ''))
                continue
        if l.startswith('attributes #'):
            l = l.replace('alwaysinline ', '').replace('noinline ', '').replace('optnone ', '').replace('cold ', '')
        out.append(l); i += 1
    return '\n'.join(out)


def compile_native(src, out, san=True, opt='-O1', defs=()):
    cmd = ['clang++-18', '-std=c++17', '-DVF_NATIVE', '-DFMT_HEADER_ONLY', '-I' + REPO + '/include', '-I' + CON, opt, '-g1', '-ffp-contract=off',
           '-w', *(['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if san else []),
           src, os.path.join(CON, 'vf_main.cpp'), '-o', out, *['-D' + d for d in defs]]
    p = run(cmd)
    if p.returncode:
        raise BuildError('native: ' + p.stderr[-3000:])


if __name__ == '__main__':
    t = compile_ir(sys.argv[1], '/tmp/x')
    print(len(t))
