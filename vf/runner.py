"""Verdicts, known findings, evidence."""
import json, os, re, sys, time, traceback
from . import ir

REG = {}


class Result:
    """What one analysis did: violations and coverage."""

    def __init__(self, rule):
        self.rule = rule
        self.violations = []      # (key, text, full)
        self.obligations = 0
        self.units = []
        self.functions = set()
        self.sites = {}
        self.cov = {}
        self.unmodelled = set()
        self.floor = []           # (what, count, minimum)

    def add_violation(self, kind, fn, msg, where, full=None):
        key = '%s|%s|%s' % (kind, fn, msg)
        if any(v[0] == key for v in self.violations):
            return
        text = '%s: in %s: %s: %s' % (where, fn, kind, msg)
        self.violations.append((key, text, full or text))

    def engine(self, e, unit, kinds=None, ignore=()):
        """Takes over the outcome of an abstract interpretation."""
        for v in e.violations.values():
            if kinds is not None and v.kind not in kinds or v.kind in ignore:
                continue
            where, fn = v.where()
            self.add_violation(v.kind, fn, v.msg, where, v.full())
        self.units.append(unit)
        for n in e.fns_used:
            f = e.m.fns[n]
            if f.file and os.path.normpath(f.file).startswith(ir.REPO + '/'):
                self.functions.add('%s (%s)' % (ir.strip_name(f.dem), os.path.relpath(os.path.normpath(f.file), ir.REPO)))
        for k, v in e.sites.items():
            self.sites.setdefault(k, set()).update(v)
        for k, v in e.stats.items():
            self.cov[k] = self.cov.get(k, 0) + v
        self.obligations += e.stats.get('obligations', 0)
        self.unmodelled |= e.unmodelled

    def merge(self, o):
        for key, text, full in o.violations:
            if not any(v[0] == key for v in self.violations):
                self.violations.append((key, text, full))
        self.obligations += o.obligations
        self.units += o.units
        self.functions |= o.functions
        for k, v in o.sites.items():
            self.sites.setdefault(k, set()).update(v)
        for k, v in o.cov.items():
            self.cov[k] = self.cov.get(k, 0) + v
        self.unmodelled |= o.unmodelled
        self.floor += o.floor

    def parallel(self, jobs):
        """Runs functions that return a Result, one process each, and merges."""
        if len(jobs) == 1 or os.environ.get('VF_SERIAL'):
            for j in jobs:
                self.merge(j())
            return
        import multiprocessing
        ctx = multiprocessing.get_context('fork')
        global _jobs
        _jobs = jobs
        with ctx.Pool(min(len(jobs), os.cpu_count() or 4)) as pool:
            for r in pool.imap(_job, range(len(jobs)), 1):
                if isinstance(r, Exception):
                    raise r
                self.merge(r)

    def require(self, what, count, minimum):
        self.floor.append((what, count, minimum))


_jobs = None


def _job(k):
    try:
        return _jobs[k]()
    except ir.RepoDoesNotCompile as e:
        return e
    except ir.AnalysisBroken as e:
        return e
    except Exception as e:
        return ir.AnalysisBroken(traceback.format_exc())


def prop(pid, assumptions=()):
    def d(f):
        REG[pid] = (f, list(assumptions))
        return f
    return d


def known(pid):
    out = {}
    p = os.path.join(ir.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=<(.*?)> (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(argv):
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ir.build_tool()
    f, assumptions = REG[pid]
    import plist
    level = next((p['level'] for p in plist.PROPS if p['id'] == pid), 'other')
    try:
        try:
            r = f(tier)
        except ir.RepoDoesNotCompile as e:
            r = Result('the driver that instantiates the public API of the unit must compile')
            r.add_violation('does-not-compile', 'instantiation', re.sub(r'^\S+:\d+:\d+: ', '', e.diag), e.where, e.diag)
            r.units.append('driver')
    except ir.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    kn = known(pid)
    bad = [v for v in r.violations if v[0] not in kn]
    hit = [v for v in r.violations if v[0] in kn]
    if not bad:
        for what, n, lo in r.floor:
            if n < lo:
                print('ANALYSIS-BROKEN property=%s only %d %s found, at least %d expected' % (pid, n, what, lo))
                return 2
    for key, text, full in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[key]))
    wall = time.time() - t0
    sites = {k: len(v) for k, v in r.sites.items()}
    cov = dict(r.cov)
    nobl = r.obligations or sum(sites.values()) or len(r.functions)
    cov.update({
        'rule': r.rule,
        'units': r.units,
        'functions_analysed': sorted(r.functions),
        'function_count': len(r.functions),
        'instances': sites,
        'samples': [s for k in sorted(r.sites) for s in sorted(r.sites[k])[:4]][:40] or sorted(r.functions)[:10],
        'minimum_instances': [{'what': w, 'found': n, 'minimum': lo} for w, n, lo in r.floor],
        'unmodelled_externals': sorted(r.unmodelled)[:40],
        'obligations': nobl,
        'discharged': max(0, nobl - len(r.violations)),
        'checker_cmd': 'python3 /verif/check.py %s --%s' % (pid, tier),
        'trusted_base': ['clang 18 front end and its LLVM IR', 'vf/absint.py transfer functions',
                         'models of libstdc++/libc/POSIX calls in vf/', 'the drivers in /verif/drivers'],
        'explanation': r.rule,
    })
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 3), 'violations': len(bad),
          'known_findings': len(hit)}
    os.makedirs(os.path.join(ir.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(ir.VERIF, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    if bad:
        d = os.path.join(ir.VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.txt')
        with open(path, 'w') as o:
            o.write('property %s\nrule: %s\n\n' % (pid, r.rule))
            for key, text, full in bad:
                o.write('%s\nkey=<%s>\n\n' % (full, key))
        for key, text, full in bad[:20]:
            print(text)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK property=%s functions=%d obligations=%d %s %.1fs' % (pid, len(r.functions), nobl, cov.get('states', ''), wall))
    return 0
