"""Scratch copy of /repo's current sources -> LLVM IR of each contract file."""
import os, re, subprocess, shutil, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')
LLVM = '/usr/lib/llvm-18/bin/'
CFLAGS = ['-std=c++23', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-D_GLIBCXX_USE_TBB_PAR_BACKEND=0', '-w', '-Wno-invalid-constexpr', '-fno-math-errno']
NOINLINE = re.compile(r'^define .*@(_ZNK?St7__cxx1112basic_string|_ZNSt7__cxx1119basic_|_ZStplI|_ZNK?St10filesystem|_ZSt5printI|_ZSt6formatI|_ZSt16__do_|_ZNK?7TinyDIP9Formatter|_ZNK?St6vectorI.*(?:_M_realloc_append|_M_realloc_insert|_M_check_len))')


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy_sources(dst):
    os.makedirs(dst, exist_ok=True)
    for fn in os.listdir(REPO):
        if fn.endswith(('.h', '.cpp', '.hpp')) and os.path.isfile(os.path.join(REPO, fn)):
            shutil.copy(os.path.join(REPO, fn), os.path.join(dst, fn))


def fix_constexpr(src, err):
    """clang rejects `constexpr` on functions with a std::function parameter; g++ accepts it.  Blank that keyword."""
    hit = False
    for m in re.finditer(r'^(\S+?):(\d+):\d+: error: constexpr function', err, re.M):
        fn, ln = m.group(1), int(m.group(2))
        if not os.path.abspath(fn).startswith(os.path.abspath(src)): continue
        L = open(fn).read().split('\n')
        j = ln - 1
        while j >= max(0, ln - 25):
            if re.search(r'\bconstexpr\b', L[j]):
                L[j] = re.sub(r'\bconstexpr\b', '         ', L[j], count=1)
                hit = True
                break
            j -= 1
        open(fn, 'w').write('\n'.join(L))
    return hit


class BuildError(Exception):
    pass


def to_ir(src, contract, work, extra=()):
    """contract .cpp -> optimised textual IR path"""
    for fn in os.listdir(src):
        f = os.path.join(src, fn)
        t = open(f, errors='replace').read()
        if re.search(r'\bstd\s*::\s*async\b', t): open(f, 'w').write(re.sub(r'\bstd\s*::\s*async\b', '::vk::run_now', t))   # sequential schedule
    m = re.search(r'^// IR-FLAGS: (.*)$', open(contract).read(), re.M)
    if m: extra = list(extra) + [os.path.join(HERE, x) if x == 'vk_par.h' else x for x in m.group(1).split()]
    b = os.path.basename(contract)[:-4]
    raw = os.path.join(work, b + '.raw.ll')
    opt = os.path.join(work, b + '.ll')
    for attempt in range(5):
        r = sh(['clang++-18'] + CFLAGS + list(extra) + ['-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-iquote', src, '-iquote', CONTRACTS, '-iquote', HERE, contract, '-o', raw])
        if r.returncode == 0: break
        if not fix_constexpr(src, r.stderr): raise BuildError(r.stderr[:4000])
    else:
        raise BuildError(r.stderr[:4000])
    out = []
    always = set(re.findall(r'^attributes (#\d+) = \{[^}]*\balwaysinline\b', open(raw).read(), re.M))
    for line in open(raw):
        if line.startswith('define ') and NOINLINE.match(line) and not (always & set(re.findall(r'#\d+', line))):
            line = re.sub(r'\) ((?:local_)?unnamed_addr )?(?=[^()]*\{$)', r') \1noinline ', line.rstrip('\n'), count=1) + '\n'
            line = line.replace(' alwaysinline ', ' ')
        out.append(line)
    open(raw, 'w').writelines(out)
    r = sh([LLVM + 'opt', '-S', '-passes=default<O1>', '-rotation-max-header-size=0', '-disable-loop-idiom-all', '-vectorize-loops=false', raw, '-o', opt])
    if r.returncode: raise BuildError(r.stderr[:3000])
    return opt
