"""Registry: one function per property."""
import os
from . import ir
from .runner import prop, Result
from . import tq as _tq


def run_tq(rule, entries, need):
    r = Result(rule)
    m = ir.compile_ir(os.path.join(ir.VERIF, 'drivers', 'tq.cpp'))
    for e in entries:
        eng = _tq.run(m, e)
        r.engine(eng, 'drivers/tq.cpp:' + e)
    for k in need:
        r.require('specification steps of kind ' + k, int(k in r.sites.get('spec', ())), 1)
    return r


@prop('Q01')
def q01(tier):
    return run_tq('every member function keeps the queue equal to an abstract FIFO in every abstract state reachable through the API',
                  ['drv_single'], ['pop', 'size', 'front', 'back', 'write'])


@prop('Q02')
def q02(tier):
    return run_tq('copy, move, assignment and swap transfer exactly the abstract sequence and the ownership of the storage',
                  ['drv_pair'], ['copy', 'move', 'swap', 'pop', 'size'])


@prop('Q03')
def q03(tier):
    return run_tq('comparison results equal elementwise equality / lexicographical order of the abstract sequences',
                  ['drv_cmp'], ['==', '<'])


# -- IntrusiveConnection -------------------------------------------------------
SPEC = ('specification', 'assertion', 'uninitialised', 'falls-off-end', 'terminate', 'null-deref', 'wild-pointer',
        'out-of-bounds', 'container-misuse', 'deadlock', 'division-by-zero')
MEM = ('use-after-free', 'use-after-scope', 'double-free', 'mismatched-free', 'invalid-free', 'leak', 'dangling', 'data-race',
       'lock-misuse', 'null-deref', 'uninitialised', 'out-of-bounds', 'wild-pointer', 'falls-off-end', 'terminate')


def conn_job(m, entry, pieces, coarse, kinds):
    def j():
        from . import conn
        r = Result('')
        e = conn.run(m, entry, pieces, coarse)
        r.engine(e, 'drivers/conn.cpp:%s (up to %d delimiters per message%s)' % (entry, pieces, ', coarse interleaving' if coarse else ''), kinds)
        return r
    return j


def run_conn(rule, tier, kinds, entries):
    r = Result(rule)
    m = ir.compile_ir(os.path.join(ir.VERIF, 'drivers', 'conn.cpp'))
    n = {'drv_serve': 3 if tier == 'thorough' else 2, 'drv_move': 2 if tier == 'thorough' else 1, 'drv_two': 1 if tier == 'thorough' else 0}
    r.parallel([conn_job(m, e, n[e], e == 'drv_two', kinds) for e in entries])
    return r


@prop('I01')
def i01(tier):
    r = run_conn('on every interleaving each request reaches the server in order and gets exactly one response, the server\'s or REJECT, '
                 'before the receive callback returns', tier, SPEC, ['drv_serve', 'drv_move'])
    r.require('protocol events', len(r.sites.get('protocol', ())), 4)
    return r


@prop('I02')
def i02(tier):
    r = run_conn('no reachable state in which every thread is blocked; locks are released by their holder; every wait is eventually notified',
                 tier, ('deadlock', 'lock-misuse', 'falls-off-end'), ['drv_serve', 'drv_move', 'drv_two'])
    r.require('waits', len(r.sites.get('wait', ())), 1)
    r.require('notifications', len(r.sites.get('notify', ())), 3)
    return r


@prop('I03')
def i03(tier):
    r = run_conn('every access to the shared status happens before or after each conflicting access of the other thread and before its '
                 'single release', tier, MEM, ['drv_serve', 'drv_move'])
    r.require('shared accesses', len(r.sites.get('shared access', ())), 8)
    return r


@prop('I04')
def i04(tier):
    r = run_conn('moving a connection transfers it; the replaced connection is rejected and its socket can close', tier, None, ['drv_move', 'drv_two'])
    r.require('protocol events', len(r.sites.get('protocol', ())), 4)
    return r


# -- RedirectIO ------------------------------------------------------------------
def run_redirect(rule, tier, kinds, entries):
    r = Result(rule)
    m = ir.compile_ir(os.path.join(ir.VERIF, 'drivers', 'redirect.cpp'))

    def job(e):
        def j():
            from . import redirect
            q = Result('')
            q.engine(redirect.run(m, e), 'drivers/redirect.cpp:' + e, kinds)
            return q
        return j
    r.parallel([job(e) for e in entries])
    r.require('failing operations considered', len(r.sites.get('failure', ())), 5)
    return r


@prop('R01')
def r01(tier):
    return run_redirect('in every abstract state the redirected file is the one opened, it is owned by exactly one object and closed exactly once',
                        tier, MEM + ('specification', 'redirection', 'invalid-file', 'assertion', 'container-misuse'), ['drv_use', 'drv_default', 'drv_move'])


@prop('R02')
def r02(tier):
    return run_redirect('after each call of the API the diagnostics hold an error with the errno of the failure if and only if an operation failed',
                        tier, ('error-reporting',), ['drv_use', 'drv_move'])


@prop('R03')
def r03(tier):
    return run_redirect('isDiff() and diff() tell exactly what follows the mark in the target file', tier, ('changes',), ['drv_use', 'drv_move'])


# -- Diagnostic ------------------------------------------------------------------
def run_diag(rule, tier, kinds):
    r = Result(rule)
    m = ir.compile_ir(os.path.join(ir.VERIF, 'drivers', 'diag.cpp'))
    from . import diag
    for e in ('drv_kind', 'drv_plain', 'drv_one', 'drv_two'):
        n = 5 if tier == 'thorough' else 3
        r.engine(diag.run(m, e, n), 'drivers/diag.cpp:%s (up to %d insertions)' % (e, n), kinds)
    for k in ('insert', 'clear', 'swap', 'size', 'iteration', 'reverse iteration'):
        r.require('specification steps of kind ' + k, int(k in r.sites.get('spec', ())), 1)
    return r


@prop('D01')
def d01(tier):
    return run_diag('the container holds exactly the messages "<Kind> C<Code>(<Pos>): <text>" of the successful insertions in order and counts the failed ones',
                    tier, ('specification', 'format', 'uninitialised', 'assertion', 'null-deref', 'falls-off-end', 'terminate'))


@prop('D02')
def d02(tier):
    return run_diag('every message buffer holds the text and its terminator and is released exactly once by the matching operator', tier, MEM)


# -- CSocket ---------------------------------------------------------------------
def run_csocket(rule, tier, kinds, req):
    r = Result(rule)
    m = ir.compile_ir(os.path.join(ir.VERIF, 'drivers', 'csocket.cpp'))
    from . import csocket
    r.engine(csocket.run(m, 'drv_server'), 'drivers/csocket.cpp:drv_server', kinds)
    for k in ('bind', 'accept', 'thread', 'thread ends', 'receive', 'event') + req:
        r.require('specification steps of kind ' + k, int(k in r.sites.get('spec', ())), 1)
    return r


@prop('S01')
def s01(tier):
    return run_csocket('every descriptor is closed exactly once and not used afterwards; every memory access is valid and defined', tier,
                       ('descriptor', 'specification', 'container-misuse', 'falls-off-end') + MEM, ('startServer returns',))


@prop('S02')
def s02(tier):
    return run_csocket('each outcome of a system call is reported by exactly one event with the addresses of its connection, before anything else happens',
                       tier, ('event', 'signal'), ('send',))


@prop('S03')
def s03(tier):
    return run_csocket('listeners get exactly the bytes of recv(); send() transfers exactly the rest of the message', tier, ('data', 'signal', 'data-race'), ('send', 'receive listener'))


@prop('S04')
def s04(tier):
    return run_csocket('createServer() once per connection; listeners once each, in order, with the outcome', tier, ('callback',) + MEM,
                       ('createServer', 'receive listener', 'closed listener'))


@prop('S05')
def s05(tier):
    return run_csocket('accept() is reached with less than the maximum of entries only; no path blocks on an active connection or aborts', tier,
                       ('limit', 'blocking', 'assertion', 'terminate'), ('table entry',))


@prop('S06')
def s06(tier):
    return run_csocket('the arguments of socket(), setsockopt(), bind(), listen() and accept(); return only after a reported failure', tier, ('setup',), ('startServer returns',))


# -- data structures whose drivers state the specification themselves ---------------
def run_plain(rule, driver, entries, need, mod='plain', kinds=None):
    r = Result(rule)
    m = ir.compile_ir(os.path.join(ir.VERIF, 'drivers', driver + '.cpp'))

    def job(e):
        def j():
            import importlib
            q = Result('')
            q.engine(importlib.import_module('vf.' + mod).run(m, e), 'drivers/%s.cpp:%s' % (driver, e), kinds)
            return q
        return j
    r.parallel([job(e) for e in entries])
    r.require('distinct specification checks', len(r.sites.get('check', ())) + len(r.sites.get('element', ())) + len(r.sites.get('spec', ())), need)
    return r


def witness(r, what, prelude, good, bad, where):
    """Compile-fail witness: the program with 'good' must compile (else the
    witness says nothing), the program with 'bad' must not."""
    ok, err = ir.compiles(prelude + good)
    if not ok:
        e, w = ir.first_error(err)
        raise (ir.RepoDoesNotCompile(e, w) if w else ir.AnalysisBroken('witness does not compile: ' + err[:500]))
    r.obligations += 1
    r.sites.setdefault('compile-fail witness', set()).add(what)
    if ir.compiles(prelude + bad)[0]:
        r.add_violation('compiles', what, 'the program "%s" must be rejected by the compiler' % bad.strip(), where)


@prop('L01')
def l01(tier):
    return run_plain('after every operation both directions of every chain agree with the model, for all shapes of up to 4 nodes',
                     'chain', ['drv_ops', 'drv_iter', 'drv_step'], 5)


@prop('T01')
def t01(tier):
    return run_plain('every trait is set, unset and found exactly according to the sets of conflicting traits', 'trait',
                     ['drv_keys', 'drv_descriptor', 'drv_transfer'], 5)


@prop('T02')
def t02(tier):
    return run_plain('a set of traits holds exactly the descriptions of the traits that are set; each is released once', 'trait', ['drv_set', 'drv_setmove'], 5)


@prop('M01')
def m01(tier):
    r = run_plain('each key denotes its own value; visits are complete, once each and in order', 'cell', ['drv_map', 'drv_types', 'drv_typemap', 'drv_traitmap'], 5)
    pre = ('#include <bcl/cell.h>\nstruct A { using ValueType = long; }; struct B { using ValueType = char; };\n')
    use = 'long f() { bcl::StaticMap<%s> M; return M.value<A>(); }\n'
    witness(r, 'duplicate keys', pre, use % 'A, B', use % 'A, B, A', 'include/bcl/cell.h')
    witness(r, 'unknown keys', pre, use % 'B, A', use % 'B', 'include/bcl/cell.h')
    return r


@prop('M02')
def m02(tier):
    return run_plain('after the functor ran each common cell has the value of its source, the other cells are unchanged', 'cell', ['drv_functors'], 3)


@prop('G01')
def g01(tier):
    return run_plain('each tag denotes its element in the type system and at run time; visits are complete, once each and in order', 'tagged',
                     ['drv_pair', 'drv_move', 'drv_copy', 'drv_tuple', 'drv_std'], 8)


@prop('A01')
def a01(tier):
    return run_plain('the address of each element is a mixed radix number of its indices within an allocation of the product of the dimensions',
                     'marray', ['drv_f', 'drv_m', 'drv_own'], 8, 'marray')


@prop('W01')
def w01(tier):
    return run_plain('after construction, move and assignment the pointer refers to the value inside the wrapper; the adaptor walks the range',
                     'wrapper', ['drv_ptr', 'drv_adaptor'], 8)


@prop('U01')
def u01(tier):
    return run_plain('the results of the utilities are those of their specification for every value', 'util',
                     ['drv_attr', 'drv_shrink', 'drv_small', 'drv_swap', 'drv_pack', 'drv_space', 'drv_bits'], 10)


# -- Json ----------------------------------------------------------------------
@prop('J01')
def j01(tier):
    r = run_plain('for every text and position the lexer moves to exactly the token of the specification and reports exactly the specified errors',
                  'json', ['drv_lexer', 'drv_store', 'drv_check'], 5, 'json')
    s = r.sites.get('spec', set())
    r.require('kinds of tokens met', len([x for x in s if x.startswith('token ')]), 11)
    r.require('end of the text met', int('end of text' in s), 1)
    return r


@prop('J02')
def j02(tier):
    r = run_plain('for every sequence of tokens each element of the array or object is handed over (or counted, or skipped) exactly once, in order, with its key, and the result tells whether the text is correct',
                  'jsontok', ['drv_count', 'drv_skip', 'drv_traverse'], 1, 'jsontok')
    s = r.sites.get('spec', set())
    for k in ('skip', 'trav', 'count'):
        for e in ('closed', 'fail', 'eof'):
            r.require('outcome %s %s met' % (k, e), int('%s %s' % (k, e) in s), 1)
    return r


@prop('J03')
def j03(tier):
    r = run_plain('for every sequence of tokens the object is created from the type that the text names, values reach the cells of their keys, and all other texts are rejected',
                  'jsontok', ['drv_map', 'drv_parse', 'drv_parse_known'], 1, 'jsontok')
    s = r.sites.get('spec', set())
    for e in ('map closed', 'map fail', 'map eof', 'parse converted', 'parse more', 'parse named', 'parse fail', 'parse eof'):
        r.require('outcome %s met' % e, int(e in s), 1)
    return r


@prop('J04')
def j04(tier):
    r = run_plain('for strings of any length and characters the written text is the escaped string between quotes, and unescaping gives what the escape sequences of the string stand for',
                  'jsonesc', ['drv_unparse', 'drv_unparse_c', 'drv_unparse_null', 'drv_unescape', 'drv_parse', 'drv_parse_c', 'drv_parse_char', 'drv_char'], 1, 'jsonesc')
    s = r.sites.get('spec', set())
    for c in (9, 10, 11, 12, 13, 34, 92, 'other'):
        r.require('character %s met' % c, int('char %s' % c in s), 1)
    r.require('strings of any length', int('folded' in s), 1)
    from .jsonesc import lemma
    r.require('characters restored from what they are written as, inside one token', lemma(), 256)
    return r


@prop('J05')
def j05(tier):
    r = run_plain('for every token a conversion to a number, boolean or optional value succeeds exactly if the contents are such a value in range, with that value; the written text is the value',
                  'jsonval', ['drv_int', 'drv_float', 'drv_bool', 'drv_optional', 'drv_write', 'drv_write_float', 'drv_write_optional'], 1, 'jsonval')
    s = r.sites.get('spec', set())
    for b in (32, 64):
        for cl in ('none', 'negative', 'small', 'unsigned', 'long', 'big negative', 'unsigned long', 'huge'):
            r.require('number of %d bits, %s met' % (b, cl), int('a number of %d bits, the text is %s' % (b, cl) in s), 1)
    for w in ('true', 'false', 'null'):
        for t in ('a boolean value', 'an optional number'):
            r.require('%s, %s met' % (t, w), int('%s, the text is %s' % (t, w) in s or t == 'a boolean value' and w == 'null'), 1)
    return r


@prop('J06')
def j06(tier):
    r = run_plain('arrays and containers get exactly the converted elements under their keys, fail exactly if that is impossible or a conversion fails, and release everything then',
                  'jsoncont', ['drv_pointer', 'drv_pointer_const', 'drv_chars', 'drv_vector', 'drv_set', 'drv_map', 'drv_multimap'], 1, 'jsoncont')
    s = r.sites.get('spec', set())
    for k, es in dict(array=('success', 'failure', 'failure 7', 'failure 8'), vector=('success', 'failure', 'failure 7', 'failure 8'), characters=('success', 'failure'),
                      set=('success', 'failure', 'failure 8'), map=('success', 'failure', 'failure 8'), multimap=('success', 'failure')).items():
        for e in es:
            r.require('%s: %s met' % (k, e), int('%s %s' % (k, e) in s), 1)
    return r


@prop('J07')
def j07(tier):
    r = run_plain('the text of a container or object consists of the texts of its elements, with their keys, in order, separated by commas, behind the text in front',
                  'jsonout', ['drv_vector', 'drv_set', 'drv_map', 'drv_multimap', 'drv_pointer', 'drv_pointer_const', 'drv_cells', 'drv_object', 'drv_value', 'drv_quote'], 1, 'jsonout')
    s = r.sites.get('spec', set())
    for k in (1, 2, 3):
        for n in range(4):
            r.require('container %d with %d elements met' % (k, n), int('written %d %d' % (k, n) in s), 1)
    for k in (0, 4, 5, 6, 7, 8, 9):
        r.require('object %d met' % k, int(any(x.startswith('written %d ' % k) for x in s)), 1)
    return r


@prop('J08')
def j08(tier):
    r = run_plain('an object of each size described with the macros has exactly the described cells, types (static_assert) and names',
                  'jsonobj', ['drv_names0', 'drv_names1', 'drv_init', 'drv_object'], 8, 'jsonobj')
    r.require('names of cells and objects', len(r.sites.get('name', ())), 60)
    with open(os.path.join(ir.VERIF, 'drivers', 'jsonobj.cpp')) as f:
        n = f.read().count('static_assert(')
    r.sites['witness'] = {'static_assert %d' % k for k in range(n)}
    r.obligations += n
    r.require('static_assert witnesses', n, 1000)
    return r


@prop('H01')
def h01(tier):
    from .headers import run
    return run('each header type checks alone, contributes the same text after every other header, and has no definition with strong external linkage')


# -- Equation ------------------------------------------------------------------
def run_eq(rule, entries, need):
    return run_plain(rule, 'equation', entries, need, 'equation')


@prop('E01')
def e01(tier):
    return run_eq('rows hold what was added, exactly the equations whose guards hold are instantiated', ['drv_row', 'drv_instantiate', 'drv_print'], 20)


@prop('E02')
def e02(tier):
    r = run_eq('the solutions satisfy each equation as an identity of polynomials; their coefficients have no common divisor',
               ['drv_one', 'drv_two', 'drv_apart', 'drv_three', 'drv_cycle'], 12)
    r.require('calls of euclidGCD()', len(r.sites.get('call', ())), 1)
    return r


@prop('E03')
def e03(tier):
    r = run_eq('the result is the GCD with its coefficients if that holds for the recursive call', ['drv_gcd'], 2)
    s = r.sites.get('spec', ())
    r.require('base met', int('base' in s), 1)
    r.require('recursion or loop met', int(any(k in s for k in ('recursion', 'loop', 'bounded'))), 1)
    return r


@prop('E04')
def e04(tier):
    return run_eq('each equation of the solution has the same values after the change', ['drv_reverse'], 10)
