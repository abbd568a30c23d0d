"""Public headers: each stands alone, in any order, in several units.

Decided by the compiler's front end (does each translation unit type check?),
by the preprocessor's output (is the text a header contributes the same whatever
was included before?) and by the linkage of the definitions in the IR."""
import concurrent.futures as cf
import glob, os, re, subprocess
from . import ir
from .runner import Result

SKIP = {'JsonObjectMacros.h'}     # the second half of Json.h


def unit(names):
    return ''.join('#include <bcl/%s>\n' % n for n in names)


def base():
    return [ir.CLANGXX, '-std=c++17', '-w', '-DBCL_C_SOCKET', '-x', 'c++', '-I', os.path.join(ir.REPO, 'include'), '-I', ir.gen_dir()]


def clang(args, text):
    p = subprocess.run(base() + args + ['-'], input=text, capture_output=True, text=True)
    return p.returncode, p.stdout, p.stderr


def where(path, line=1):
    return '%s:%d' % (os.path.join(ir.REPO, 'include/bcl', path) if '/' not in path else path, line)


def texts(names):
    """What each header of the repository contributes, without white space."""
    rc, out, err = clang(['-E'], unit(names))
    if rc:
        return None
    res = {}
    cur = None
    for l in out.splitlines():
        m = re.match(r'# \d+ "(.*?)"', l)
        if m:
            f = os.path.normpath(m.group(1))
            cur = os.path.basename(f) if f.startswith(ir.REPO + '/') else None
            continue
        if cur and l.strip():
            res.setdefault(cur, []).append(' '.join(l.split()))
    return res


def strong(ll):
    """Definitions that clash if two translation units have them."""
    for l in ll.splitlines():
        m = re.match(r'(define|@)(.*)', l)
        if not m:
            continue
        if re.search(r'\b(linkonce|linkonce_odr|weak|weak_odr|internal|private|available_externally|appending|external|extern_weak|common)\b', l.split('(')[0] if m.group(1) == 'define' else l.split('=', 1)[-1].split('"')[0]):
            continue
        n = re.search(r'@"?([\w.$]+)"?', l)
        if n and not n.group(1).startswith('llvm.'):
            yield m.group(1), n.group(1), re.search(r'!dbg !(\d+)', l)


def location(ll, dbg):
    m = dbg and re.search(r'^!%s = .*?DISubprogram\(.*?line: (\d+)' % dbg.group(1), ll, re.M)
    return int(m.group(1)) if m else 1


def run(rule):
    r = Result(rule)
    hs = sorted(os.path.basename(f) for f in glob.glob(os.path.join(ir.REPO, 'include/bcl/*.h')))
    hs = [h for h in hs if h not in SKIP]
    ir.gen_dir()

    def alone(h):
        rc, out, err = clang(['-fsyntax-only'], unit([h]))
        r.obligations += 1
        r.sites.setdefault('alone', set()).add(h)
        if rc:
            e, w = ir.first_error(err)
            r.add_violation('does-not-compile', h, re.sub(r'^\S+:\d+:\d+: ', '', e), w or where(h), err[:3000])
            return
        rc, out, err = clang(['-fsyntax-only'], unit([h, h]))
        r.obligations += 1
        r.sites.setdefault('twice', set()).add(h)
        if rc:
            e, w = ir.first_error(err)
            r.add_violation('included-twice', h, re.sub(r'^\S+:\d+:\d+: ', '', e), w or where(h), err[:3000])
            return
        rc, ll, err = clang(['-g', '-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes', '-o', '-'], unit([h]))
        if rc:
            raise ir.AnalysisBroken('no IR for ' + h)
        r.obligations += 1
        r.sites.setdefault('linkage', set()).add(h)
        for kind, name, dbg in strong(ll):
            d = subprocess.run(['c++filt', name], capture_output=True, text=True).stdout.strip() or name
            r.add_violation('multiple-definition', d, 'two translation units that include %s define it twice' % h, where(h, location(ll, dbg)))

    def pair(a, b):
        t = texts([a, b])
        r.obligations += 1
        r.sites.setdefault('order', set()).add('%s before %s' % (a, b))
        if t is None:
            r.add_violation('order-of-inclusion', b, 'cannot be preprocessed after ' + a, where(b))
            return
        for x in single[b]:
            if t.get(x) != single[b][x]:
                old, new = single[b][x], t.get(x, [])
                n = next((i for i, (p, q) in enumerate(zip(old, new)) if p != q), min(len(old), len(new)))
                r.add_violation('order-of-inclusion', x, 'has another meaning if %s is included before %s' % (a, b), where(x),
                                'included alone: %s\nafter %s: %s' % (' / '.join(old[n:n + 2]), a, ' / '.join(new[n:n + 2])))
                break

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(alone, hs))
        single = {h: texts([h]) or {} for h in hs}
        if not r.violations:
            list(ex.map(lambda p: pair(*p), [(a, b) for a in hs for b in hs if a != b]))
    if not r.violations:
        for o in (hs, hs[::-1]):
            rc, out, err = clang(['-fsyntax-only'], unit(o))
            r.obligations += 1
            if rc:
                e, w = ir.first_error(err)
                r.add_violation('order-of-inclusion', 'all headers', re.sub(r'^\S+:\d+:\d+: ', '', e), w or where(o[0]), err[:3000])
    r.units = ['include/bcl/' + h for h in hs]
    r.functions = {'(all declarations) (include/bcl/%s)' % h for h in hs}
    r.require('headers', len(hs), 15)
    if not r.violations:
        r.require('ordered pairs of headers', len(r.sites.get('order', ())), 200)
    return r
