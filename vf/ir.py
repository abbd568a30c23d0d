"""Front end: compiles a driver unit against the current /repo sources with
clang, dumps its LLVM IR through ir2json and loads it.  Nothing is executed."""
import hashlib, json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
TOOL = os.path.join(VERIF, '.build', 'ir2json')
CLANGXX = 'clang++'


class AnalysisBroken(Exception):
    """The analysis could not be carried out (an error of the check)."""


class RepoDoesNotCompile(Exception):
    def __init__(self, diag, where):
        Exception.__init__(self, diag, where)
        self.diag = diag
        self.where = where


def build_tool():
    src = os.path.join(VERIF, 'tool', 'ir2json.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    tmp = TOOL + '.%d' % os.getpid()
    subprocess.check_call([CLANGXX, '-O1'] + flags + ['-fno-rtti', src, '-o', tmp,
                          '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    os.replace(tmp, TOOL)


_gen = None


def gen_dir():
    """A private directory holding the generated bcl-config.h."""
    global _gen
    if _gen is None:
        import atexit, shutil
        _gen = tempfile.mkdtemp(prefix='vf-')
        atexit.register(shutil.rmtree, _gen, True)
        os.makedirs(os.path.join(_gen, 'bcl'))
        src = open(os.path.join(REPO, 'include/bcl/bcl-config.h.in')).read()
        src = re.sub(r'#\s*cmakedefine01\s+(\w+)', r'#define \1 0', src)
        src = re.sub(r'#\s*cmakedefine\s+(\w+).*', r'/* #undef \1 */', src)
        src = re.sub(r'[$@]\{?\w+[}@]', '0', src)
        open(os.path.join(_gen, 'bcl', 'bcl-config.h'), 'w').write(src)
    return _gen


BASE_FLAGS = ['-std=gnu++17', '-w', '-include', 'cstdint', '-include', 'cstdio',
              '-include', 'cstdlib', '-include', 'type_traits', '-include', 'utility',
              '-include', 'iterator', '-include', 'array', '-include', 'memory',
              '-include', 'cassert']


def flags(extra=()):
    return BASE_FLAGS + ['-I', os.path.join(REPO, 'include'), '-I', gen_dir(),
                         '-I', os.path.join(VERIF, 'drivers'), '-I', REPO] + list(extra)


def first_error(diag):
    """First error of a clang diagnostic listing, with the first location in
    /repo that the listing mentions for it."""
    lines = diag.splitlines()
    err = next((l for l in lines if ': error:' in l or ': fatal error:' in l), lines[0] if lines else '')
    where = None
    for l in lines:
        m = re.match(r'(%s/[^:]+:\d+)' % re.escape(REPO), l)
        if m:
            where = m.group(1)
            break
    if where is None and 'static assertion failed' in err:
        where = err.split(': error')[0].replace(VERIF + '/', '')   # a type level obligation of a driver
    return err, where


def compile_ir(src, extra=(), name=None):
    out = os.path.join(gen_dir(), hashlib.sha1((src + repr(extra)).encode()).hexdigest()[:12] + '.bc')
    cmd = [CLANGXX] + flags(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-g',
           '-fno-discard-value-names', '-c', '-emit-llvm', src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd='/')
    if p.returncode:
        err, where = first_error(p.stderr)
        if where:
            raise RepoDoesNotCompile(err, where)
        raise AnalysisBroken('driver %s does not compile: %s' % (src, p.stderr[:3000]))
    p = subprocess.run([TOOL, out], capture_output=True, text=True, cwd='/')
    if p.returncode:
        raise AnalysisBroken('ir2json failed on %s: %s' % (src, p.stderr[:500]))
    os.unlink(out)
    return Module(json.loads(p.stdout))


def compiles(text, extra=()):
    """Does the translation unit satisfy the compiler (syntax only)?"""
    f = os.path.join(gen_dir(), hashlib.sha1(text.encode()).hexdigest()[:12] + '.cpp')
    open(f, 'w').write(text)
    p = subprocess.run([CLANGXX] + flags(extra) + ['-fsyntax-only', f], capture_output=True, text=True, cwd='/')
    os.unlink(f)
    return p.returncode == 0, p.stderr


_OPS = ['<=>', '<<=', '>>=', '->*', '<<', '>>', '<=', '>=', '->', '<', '>', '()', '[]']


def _balanced(r):
    r = re.sub(r'operator(<=>|<<=|>>=|->\*|->|<=|>=)', '', r).replace('->', '')
    return r.count('<') == r.count('>')


def strip_name(d):
    """Qualified function name without template arguments, parameters and
    return type: 'std::queue::push'."""
    out = []
    i = 0
    n = len(d)
    depth = 0
    while i < n:
        if depth == 0 and d.startswith('operator', i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == '_')):
            j = i + 8
            for o in _OPS:
                if d.startswith(o, j) and _balanced(d[j + len(o):]):
                    # 'operator<' followed by a template argument list
                    out.append('operator' + o)
                    i = j + len(o)
                    break
            else:
                out.append('operator')
                i = j
            continue
        c = d[i]
        if c == '<':
            depth += 1
        elif c == '>' and depth:
            depth -= 1
        elif depth == 0:
            if c == '(':
                rest = d[i:]
                if rest.startswith('(anonymous namespace)'):
                    out.append('(anon)')
                    i += len('(anonymous namespace)')
                    continue
                # Skip a parenthesised parameter list; what follows '::' after
                # it (a lambda's scope) is kept.
                p = 0
                j = i
                while j < n:
                    if d[j] == '(':
                        p += 1
                    elif d[j] == ')':
                        p -= 1
                        if p == 0:
                            break
                    j += 1
                tail = d[j+1:]
                m = re.match(r'( const)?( &&?)?(::)', tail)
                if m:
                    i = j + 1 + len(m.group(0)) - 2
                    continue
                break
            out.append(c)
        i += 1
    s = re.sub(r'\[abi:\w+\]', '', ''.join(out)).rstrip()
    m = re.search(r'operator ', s)
    if m:
        head = s[:m.start()]
        return head.split(' ')[-1] + s[m.start():]
    return s.split(' ')[-1]


def params(d):
    """Text of the (last) parameter list of a demangled name."""
    d = re.sub(r'( const)?( &&?)?( \[clone.*\])?$', '', d)
    d = re.sub(r'\[abi:\w+\]', '', d)
    if not d.endswith(')'):
        return ''
    p = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')':
            p += 1
        elif d[i] == '(':
            p -= 1
            if p == 0:
                return d[i + 1:-1]
    return ''


class Fn:
    __slots__ = ('name', 'dem', 'short', 'decl', 'args', 'ret', 'blocks', 'file', 'line',
                 'nounwind', 'noreturn', 'live', 'live_mid', 'dname', 'ninst')

    def __init__(self, j):
        self.name = j['name']
        self.dem = j['demangled']
        self.short = strip_name(self.dem)
        self.decl = j['decl']
        self.args = j['args']
        self.ret = j['ret']
        self.blocks = j.get('blocks')
        f = j.get('file')
        if f and not f.startswith('/'):
            f = os.path.join(j.get('dir') or '', f)
        self.file = f
        self.line = j.get('line')
        self.dname = j.get('dname')
        self.nounwind = j['nounwind']
        self.noreturn = j['noreturn']
        self.live = None
        self.live_mid = None
        self.ninst = sum(len(b['ins']) for b in self.blocks) if self.blocks else 0


def _refs(v, out):
    if isinstance(v, list) and v:
        if v[0] == 'i' and len(v) == 2 and isinstance(v[1], int):
            out.add(v[1])
        else:
            for x in v:
                _refs(x, out)


def liveness(fn):
    """Registers live on entry of each block, after its phis were evaluated
    (phi operands are used at the end of the predecessor)."""
    if fn.live is not None:
        return fn.live
    nb = len(fn.blocks)
    use, dfs, succ = [], [], []
    phiuse = [set() for _ in range(nb)]
    phidef = [set() for _ in range(nb)]
    for bi, b in enumerate(fn.blocks):
        u, d, s = set(), set(), []
        for ins in b['ins']:
            if ins['op'] == 'phi':
                phidef[bi].add(ins['id'])
                for pb, v in ins['in']:
                    r = set()
                    _refs(v, r)
                    phiuse[pb] |= r
                continue
            r = set()
            for k in ('ops', 'gep', 'cond', 'callee', 'n'):
                if k in ins:
                    _refs(ins[k], r)
            u |= r - d
            d.add(ins['id'])
            for k in ('succ',):
                if k in ins:
                    s += ins[k]
            if 'cases' in ins:
                s += [c[1] for c in ins['cases']] + [ins['default']]
            if 'normal' in ins:
                s += [ins['normal'], ins['unwind']]
        use.append(u)
        dfs.append(d)
        succ.append(s)
    live = [set() for _ in range(nb)]
    ch = True
    while ch:
        ch = False
        for bi in range(nb - 1, -1, -1):
            o = set(phiuse[bi])
            for s in succ[bi]:
                o |= live[s] - phidef[s]
            n = use[bi] | (o - dfs[bi])
            if n != live[bi]:
                live[bi] = n
                ch = True
    fn.live = live
    return live


def live_at(fn, blk, idx):
    """Registers live in the middle of a block, before the instruction idx."""
    c = fn.live_mid = fn.live_mid if fn.live_mid is not None else {}
    r = c.get((blk, idx))
    if r is None:
        live = liveness(fn)
        r = set()
        for bi, b in enumerate(fn.blocks):
            for ins in b['ins']:
                if ins['op'] != 'phi':
                    break
                for pb, v in ins['in']:
                    if pb == blk:
                        _refs(v, r)
        for ins in fn.blocks[blk]['ins'][idx:]:
            for k in ('ops', 'gep', 'cond', 'callee', 'n'):
                if k in ins:
                    _refs(ins[k], r)
            s = list(ins.get('succ', ()))
            if 'cases' in ins:
                s += [x[1] for x in ins['cases']] + [ins['default']]
            if 'normal' in ins:
                s += [ins['normal'], ins['unwind']]
            for x in s:
                r |= live[x]
        c[(blk, idx)] = r
    return r


class Module:
    def __init__(self, j):
        self.fns = {f['name']: Fn(f) for f in j['functions']}
        self.globals = {g['name']: g for g in j['globals']}

    def repo_fns(self):
        return [f for f in self.fns.values() if not f.decl and f.file and f.file.startswith(REPO + '/')]
