"""log: levels, filters, file names."""
import z3
from sym import *
from engine import *
from base import *
from props import strings
from props.fromstr import word

L = 'fitoria::log::'
NAMES = ['trace', 'debug', 'info', 'warning', 'error', 'fatal']      # values 0..5
OFF, COUNT = 6, 7


def tolevel_post(cx, r):
    X, v = cx.X, cx.args[0]
    hit = [word(X, v, w) for w in NAMES]
    return [('"%s" in any case gives its level' % w, z3.Implies(hit[i], r == i)) for i, w in enumerate(NAMES)] + [
        ('only such a text gives %s' % w, z3.Implies(r == i, hit[i])) for i, w in enumerate(NAMES)] + [
        ('every other text gives off', z3.And(r >= 0, r <= OFF))]


def tostring_post(cx, r):
    X, lv = cx.X, cx.args[0]
    return [('the name of level %d' % i, z3.Implies(lv == i, X.streq(r, X.as_view(X.litstr(w.upper()))))) for i, w in enumerate(NAMES)] + [
        ('no other level has one of these names', z3.Implies(lv >= OFF, X.streq(r, X.as_view(X.litstr('UNKNOWN')))))]


TOLEVEL = Contract(L + 'to_level', post=tolevel_post, name='to_level')
TOSTRING = Contract(L + 'to_string', post=tostring_post, name='to_string(level)')


# ---- filter: the set of allowed levels, stored as bits
def flags(rec):
    return list(rec.f.values())[0]


def allows(rec, q):
    return z3.And(q != OFF, tbit(flags(rec), q))


def lv_in(q):
    return z3.And(q >= 0, q < OFF)


# listed(arr,k,q): q is among the first k elements
listed = z3.Function('listed', z3.ArraySort(I, I), I, I, B)


def listed_defs(arr, k, q):
    return [z3.ForAll([q], z3.Not(listed(arr, 0, q)), patterns=[listed(arr, 0, q)]),
            z3.ForAll([q], z3.Implies(k >= 0, listed(arr, k + 1, q) == z3.Or(listed(arr, k, q), z3.Select(arr, k) == q)), patterns=[listed(arr, k + 1, q)])]


def ctor_post(cx, r):
    X, il = cx.X, cx.args[0]
    q = z3.Int('q')
    for f in listed_defs(il.arr, iv(-1), q):
        X.assume(f)
    return [('a level passes exactly when it is listed', z3.ForAll([q], z3.Implies(lv_in(q), tbit(flags(cx.this1), q) == listed(il.arr, il.n, q)), patterns=[tbit(flags(cx.this1), q)]))]


def filt_pool(lc):
    X = lc.X
    q = z3.Int('q')
    if X.verifying is CTOR:
        il = X.cx.args[0]
        lc.fact(lambda s: listed_defs(il.arr, s.k, q))
        for c in lc.ints():
            lc.add('%s holds the levels seen so far' % c.name, lambda s, c=c: z3.ForAll([q], z3.Implies(lv_in(q), tbit(s.get(c), q) == listed(il.arr, s.k, q)), patterns=[tbit(s.get(c), q), listed(il.arr, s.k, q)]))
    if X.verifying in (ATLEAST, ALL, FROMENV):
        for c in lc.ints():
            for d in lc.ints():
                if c is not d:
                    e0 = lc.e(d)
                    lc.add('%s holds the levels from %s on' % (c.name, d.name), lambda s, c=c, d=d, e0=e0: z3.ForAll(
                        [q], z3.Implies(q >= 0, tbit(s.get(c), q) == z3.And(q >= e0, q < s.get(d))), patterns=[tbit(s.get(c), q)]))


CTOR = Contract(L + 'filter::(ctor)', post=ctor_post, name='filter::filter({levels})',
                match=lambda X, f: len(f['params']) == 1 and not f.get('mvctor') and not f.get('cpctor'))
ALLOWED = Contract(L + 'filter::is_allowed', post=lambda cx, r: [('exactly the levels of the set pass, off never does', z3.Implies(cx.args[0] <= OFF, r == allows(cx.this0, cx.args[0])))],
                   name='filter::is_allowed')


def atleast(cx, r, lo):
    X, q = cx.X, z3.Int('q')
    return [('exactly the levels from the given one up pass', z3.ForAll([q], z3.Implies(lv_in(q), tbit(flags(r), q) == (q >= lo)), patterns=[tbit(flags(r), q)]))]


ATLEAST = Contract(L + 'filter::at_least', post=lambda cx, r: atleast(cx, r, cx.args[0]), name='filter::at_least')
ALL = Contract(L + 'filter::all', post=lambda cx, r: atleast(cx, r, iv(0)), name='filter::all')


def env_post(cx, r):
    X, q = cx.X, z3.Int('q')
    e = X.env_text
    t = lambda w: word(X, X.as_view(e), w)
    unset = X.env_unset
    lo = iv(OFF)
    for i, w in reversed(list(enumerate(NAMES))):
        lo = z3.If(t(w), i, lo)
    return [('CPP_LOG names the least level that passes; unset or unknown: none', z3.ForAll([q], z3.Implies(lv_in(q), tbit(flags(r), q) == z3.And(z3.Not(unset), q >= lo)), patterns=[tbit(flags(r), q)]))]


def env_setup(X, fn):
    X.env_text, X.env_unset = X.fresh('env', Str), X.fresh('unset', B)
    X.assume(z3.And(slen(X.env_text) >= 0, slen(X.env_text) <= (1 << 60)))
    return None, [], {}


def getenv(X, c):
    if X.litcodes(X.vterm(c.v(0))) != [ord(ch) for ch in 'CPP_LOG']:
        raise Unsupported('another environment variable is read')
    if X.branch(X.env_unset):
        return NullP()
    return SPtr(X.ztext(X.env_text), iv(0))


FROMENV = Contract(L + 'filter::from_env', post=env_post, name='filter::from_env', setup=env_setup)

# ---- formatter pieces
fsep = z3.Function('fsep', Str, I, I, I)


def filename_post(cx, r):
    X = cx.X
    style, p = cx.args
    j = z3.Int('jf')
    sep = lambda i: z3.Or(sat(p.base, i) == ord('/'), sat(p.base, i) == ord('\\'))
    some = z3.Exists([j], z3.And(j >= p.off, j < p.off + p.n, sep(j)), patterns=[sat(p.base, j)])
    return [('the whole path for the full style', z3.Implies(style != 1, z3.And(r.base == p.base, r.off == p.off, r.n == p.n))),
            ('the result ends where the path ends', z3.And(r.base == p.base, r.off >= p.off, r.n >= 0, r.off + r.n == p.off + p.n)),
            ('the file name holds no separator', z3.Implies(style == 1, z3.ForAll([j], z3.Implies(z3.And(j >= r.off, j < r.off + r.n), z3.Not(sep(j))), patterns=[sat(p.base, j)]))),
            ('the file name starts the path or follows a separator', z3.Implies(style == 1, z3.Or(r.off == p.off, sep(r.off - 1))))]


FILENAME = Contract(L + 'get_file_name', post=filename_post, name='get_file_name')
NEWLINE = Contract(L + 'get_newline', name='get_newline', post=lambda cx, r: [
    ('style %d' % i, z3.Implies(cx.args[0] == i, cx.X.streq(r, cx.X.as_view(cx.X.litstr(w))))) for i, w in enumerate(['\n', '\r\n', '\r'])])

U = Unit_('log', contracts=[TOLEVEL, TOSTRING, CTOR, ALLOWED, ATLEAST, ALL, FROMENV, FILENAME, NEWLINE],
          targets=[Target(c) for c in (TOLEVEL, TOSTRING, CTOR, ALLOWED, ATLEAST, ALL, FROMENV, FILENAME, NEWLINE)],
          axioms=bit_axioms(), pools={'*': [filt_pool]}, handlers={'std::getenv': getenv, 'getenv': getenv})
L01 = [U]
UNITS = L01

# ---- http/version.hpp
H = 'fitoria::http::'
VT = [('0.9', 9), ('1.0', 10), ('1.1', 11), ('2.0', 20), ('3.0', 30)]    # enumerators 1..5, 0 = unknown
VSTR = Contract(H + 'to_string', name='to_string(version)', post=lambda cx, r: [
    ('name of version %s' % w, z3.Implies(cx.args[0] == i + 1, cx.X.streq(r, cx.X.as_view(cx.X.litstr(w))))) for i, (w, _) in enumerate(VT)] + [
    ('every other value is unknown', z3.Implies(z3.Or(cx.args[0] < 1, cx.args[0] > 5), cx.X.streq(r, cx.X.as_view(cx.X.litstr('unknown')))))])
VTO = Contract(H + 'detail::to_impl_version', name='to_impl_version', post=lambda cx, r: [
    ('number of version %s' % w, z3.Implies(cx.args[0] == i + 1, r == n)) for i, (w, n) in enumerate(VT)] + [
    ('an unknown version is sent as 1.1', z3.Implies(z3.Or(cx.args[0] < 1, cx.args[0] > 5), r == 11))])
VFROM = Contract(H + 'detail::from_impl_version', name='from_impl_version', post=lambda cx, r: [
    ('version %s from its number' % w, z3.Implies(cx.args[0] == n, r == i + 1)) for i, (w, n) in enumerate(VT)] + [
    ('any other number is unknown', z3.Implies(z3.And([cx.args[0] != n for _, n in VT]), r == 0))])
V01 = [Unit_('version', contracts=[VSTR, VTO, VFROM], targets=[Target(VSTR), Target(VTO), Target(VFROM)])]
