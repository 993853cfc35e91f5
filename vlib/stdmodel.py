"""Assumed contracts of the C++ standard library and fmt (listed in every evidence file)."""
import z3
from sym import *
from engine import *
from interp import *

H = {}


def h(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


# ---------------------------------------------------------------- models of types
def m_view(X, tid, t, name):
    b = X.fresh(name, Str)
    X.assume(slen(b) >= 0)
    X.assume(slen(b) <= (1 << 62))
    return View(b, iv(0), slen(b))


def m_string(X, tid, t, name):
    b = X.fresh(name, Str)
    X.assume(slen(b) >= 0)
    X.assume(slen(b) <= (1 << 62))
    return b


def m_vector(X, tid, t, name):
    et = X.targ(t, 0)
    n = X.fresh(name + '_n', I)
    X.assume(z3.And(n >= 0, n <= (1 << 60)))
    el = X.mk(et, name + '_el')
    return Vec(n, lift_const(el, lambda s: X.fresh(name + '_arr', s)), et)


def m_optional(X, tid, t, name):
    a = t['ta'][0]
    at = X.prog.t(a['t'])
    return Opt(X.fresh(name + '_has', B), X.mk(a['t'], name + '_val'))


def m_tuple(X, tid, t, name):
    ts = tuple_targs(t)
    return Rec(t['q'], {str(i): X.mk(x, '%s_%d' % (name, i)) for i, x in enumerate(ts)})


def tuple_targs(t):
    ts = t['ta']
    if ts and 'pack' in ts[0]:
        ts = ts[0]['pack']
    return [x['t'] for x in ts]


def m_pair(X, tid, t, name):
    return Rec(t['q'], {'first': X.mk(t['ta'][0]['t'], name + '_1'), 'second': X.mk(t['ta'][1]['t'], name + '_2')})


def m_ordering(X, tid, t, name):
    v = X.fresh(name, I)
    X.assume(z3.And(v >= -1, v <= 1))
    return v


def m_normal_iter(X, tid, t, name):
    raise Unsupported('fresh container iterator')


def m_ilist(X, tid, t, name):
    return m_vector(X, tid, t, name)


MODELS = {
    'std::basic_string_view': m_view,
    'std::basic_string': m_string,
    'std::vector': m_vector,
    'std::initializer_list': m_ilist,
    'fitoria::optional': m_optional,
    'std::optional': m_optional,
    'std::tuple': m_tuple,
    'std::pair': m_pair,
    'std::strong_ordering': m_ordering,
}

NPOS = (1 << 64) - 1


# ---------------------------------------------------------------- moves / utilities
@h('std::move', 'std::forward', 'std::as_const')
def _move(X, c):
    return c.args[0]


@h('std::addressof', 'std::__addressof')
def _addressof(X, c):
    a = c.args[0]
    if isinstance(a, TextLV):
        return SPtr(a.base, a.idx, a.et)
    return Ptr(a)


@h('std::swap')
def _swap(X, c):
    a, b = c.args
    va, vb = X.read(a), X.read(b)
    X.write(a, vb)
    X.write(b, va)
    return UNIT


@h('std::exchange')
def _exchange(X, c):
    old = X.read(c.args[0])
    X.write(c.args[0], c.v(1))
    return old


@h('std::min')
def _min(X, c):
    a, b = c.v(0), c.v(1)
    return ValLV(z3.If(b < a, b, a))


@h('std::max')
def _max(X, c):
    a, b = c.v(0), c.v(1)
    return ValLV(z3.If(a < b, b, a))


def copy_or_move(X, e, fn):
    src = X.ev(e['a'][0])
    if not isl(src):
        return src
    v = X.read(src)
    if fn.get('mvctor') and isinstance(src, LV):
        X.write(src, X.moved(v))
    return v


# ---------------------------------------------------------------- <cctype>
def tolower_t(c):
    # glibc, C locale: the table entries for -128..-2 are those of 128..254
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, z3.If(z3.And(c >= -128, c <= -2), c + 256, c))


def toupper_t(c):
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, z3.If(z3.And(c >= -128, c <= -2), c + 256, c))


def isspace_t(c):
    return z3.Or(c == 32, z3.And(c >= 9, c <= 13))


def isalnum_t(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))


def _cc(name, f, boolean):
    def g(X, c):
        v = c.v(0)
        X.prove('argument of %s is in the C library domain [-128,255]' % name, z3.And(v >= -128, v <= 255))
        if not boolean:
            return f(v)
        r = X.fresh(name, I)
        X.assume((r != 0) == f(v))
        return r
    H[name] = g
    H['std::' + name] = g


_cc('tolower', tolower_t, False)
_cc('toupper', toupper_t, False)
_cc('isspace', isspace_t, True)
_cc('isalnum', isalnum_t, True)
_cc('isdigit', lambda c: z3.And(c >= 48, c <= 57), True)
_cc('isalpha', lambda c: z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)), True)
_cc('isxdigit', lambda c: z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102)), True)


# ---------------------------------------------------------------- string_view
SV = 'std::basic_string_view::'


@h('ctor:std::basic_string_view')
def sv_ctor(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    a = e['a']
    if not a:
        return View(sempty, iv(0), iv(0))
    args = X.eval_args(fn, a)
    v0 = X.read(args[0]) if isl(args[0]) else args[0]
    if len(a) == 1:
        if isinstance(v0, tuple):
            v0 = SPtr(v0[1], iv(0))
        if isinstance(v0, (SPtr, View)) or isinstance(v0, z3.ExprRef):
            if isinstance(v0, StrArr):
                raise Unsupported('char array to string_view')
            return X.as_view(v0)
        raise Unsupported('string_view from %s' % type(v0).__name__)
    if len(a) == 2:
        v1 = X.read(args[1]) if isl(args[1]) else args[1]
        if isinstance(v0, SPtr):
            if isinstance(v1, SPtr):
                X.same_base(v0, v1)
                n = simp(v1.idx - v0.idx)
            else:
                n = v1
            X.prove('view range is valid', z3.And(v0.idx >= 0, n >= 0, v0.idx + n <= slen(v0.base)))
            return View(v0.base, v0.idx, n)
        if isinstance(v0, StrIt):
            s = v0.text(X)
            if isinstance(v1, StrIt):
                n = simp(v1.idx - v0.idx)
            else:
                n = v1
            X.prove('view range is valid', z3.And(v0.idx >= 0, n >= 0, v0.idx + n <= slen(s)))
            return View(s, v0.idx, n)
    raise Unsupported('string_view constructor')


@h('default:std::basic_string_view')
def sv_default(X, tid, t):
    return View(sempty, iv(0), iv(0))


@h(SV + 'size', SV + 'length')
def _(X, c):
    return c.self().n


@h(SV + 'empty')
def _(X, c):
    return c.self().n == 0


@h(SV + 'data')
def _(X, c):
    v = c.self()
    return SPtr(v.base, v.off, None)


def char_tid(X, c):
    return None


def elem_et(X, fn):
    """element type id of a string/view class method"""
    t = X.prog.t(fn['rect'])
    return t['ta'][0]['t']


@h(SV + 'begin', SV + 'cbegin')
def _(X, c):
    v = c.self()
    return SPtr(v.base, v.off, elem_et(X, c.fn))


@h(SV + 'end', SV + 'cend')
def _(X, c):
    v = c.self()
    return SPtr(v.base, simp(v.off + v.n), elem_et(X, c.fn))


@h(SV + 'rbegin', SV + 'crbegin')
def _(X, c):
    v = c.self()
    return RevIt(SPtr(v.base, simp(v.off + v.n), elem_et(X, c.fn)))


@h(SV + 'rend', SV + 'crend')
def _(X, c):
    v = c.self()
    return RevIt(SPtr(v.base, v.off, elem_et(X, c.fn)))


@h(SV + 'front')
def _(X, c):
    v = c.self()
    X.prove('front() of a non-empty view', v.n > 0)
    return TextLV(v.base, v.off, elem_et(X, c.fn))


@h(SV + 'back')
def _(X, c):
    v = c.self()
    X.prove('back() of a non-empty view', v.n > 0)
    return TextLV(v.base, simp(v.off + v.n - 1), elem_et(X, c.fn))


@h(SV + 'operator[]')
def _(X, c):
    v = c.self()
    i = c.v(0)
    X.prove('view index is within bounds', z3.And(i >= 0, i < v.n))
    return TextLV(v.base, simp(v.off + i), elem_et(X, c.fn))


@h(SV + 'at')
def _(X, c):
    v = c.self()
    i = c.v(0)
    if not X.branch(z3.And(i >= 0, i < v.n)):
        raise CppThrow(None, 'out_of_range')
    return TextLV(v.base, simp(v.off + i), elem_et(X, c.fn))


@h(SV + 'remove_prefix')
def _(X, c):
    v, n = c.self(), c.v(0)
    X.prove('remove_prefix within size', n <= v.n)
    X.write(c.this, View(v.base, simp(v.off + n), simp(v.n - n)))
    return UNIT


@h(SV + 'remove_suffix')
def _(X, c):
    v, n = c.self(), c.v(0)
    X.prove('remove_suffix within size', n <= v.n)
    X.write(c.this, View(v.base, v.off, simp(v.n - n)))
    return UNIT


@h(SV + 'operator=')
def _(X, c):
    X.write(c.this, X.as_view(c.v(0)))
    return c.this


def dflt(c, i, d):
    return c.v(i) if i < len(c.args) else d


@h(SV + 'substr')
def _(X, c):
    v, p, n = c.self(), c.v(0), c.v(1)
    if not X.branch(p <= v.n):
        raise CppThrow(None, 'out_of_range')
    if X.quick(n >= v.n - p):
        m = v.n - p
    elif X.quick(n <= v.n - p):
        m = n
    else:
        m = z3.If(n < v.n - p, n, v.n - p)
    return View(v.base, simp(v.off + p), simp(m))


def needle(X, c, i=0):
    a = c.v(i)
    if isinstance(a, z3.ExprRef) and a.sort() == I:
        return ('c', a)
    return ('s', X.as_view(a))


def match_at(X, v, i, nd):
    """formula: needle occurs in view v at index i (within v)"""
    return match_abs(X, v, simp(v.off + i), nd)


def match_abs(X, v, q, nd):
    """formula: needle occurs at absolute position q of the base of v"""
    if nd[0] == 'c':
        return sat(v.base, q) == nd[1]
    w = nd[1]
    codes = lit_codes(X, w)
    if codes is not None:
        return z3.And([sat(v.base, q + k if k else q) == (x if x < 128 else x - 256) for k, x in enumerate(codes)])
    j = z3.Int('jm')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w.n), sat(v.base, q + j) == sat(w.base, w.off + j)))


def lit_codes(X, w):
    if z3.is_int_value(simp(w.off)) and simp(w.off).as_long() == 0 and z3.is_int_value(simp(w.n)):
        codes = X.litcodes(w.base)
        if codes is not None:
            return codes[:simp(w.n).as_long()]
    return None


def nlen(nd):
    return iv(1) if nd[0] == 'c' else nd[1].n


def in_set(X, ch, nd):
    if nd[0] == 'c':
        return ch == nd[1]
    w = nd[1]
    codes = lit_codes(X, w)
    if codes is not None:
        return z3.Or([ch == (x if x < 128 else x - 256) for x in codes]) if codes else z3.BoolVal(False)
    return inset(X.vterm(w), ch)


inset = z3.Function('inset', Str, I, B)      # character occurs in sequence


EXTRA_AXIOMS = []


def axioms():
    return own_axioms() + [a for f in EXTRA_AXIOMS for a in f()]


def own_axioms():
    s = z3.Const('s', Str)
    i, c = z3.Ints('i c')
    w = z3.Function('inset_w', Str, I, I)
    return [
        z3.ForAll([s, c], z3.Implies(inset(s, c), z3.And(w(s, c) >= 0, w(s, c) < slen(s), sat(s, w(s, c)) == c)), patterns=[inset(s, c)]),
        z3.ForAll([s, c, i], z3.Implies(z3.And(i >= 0, i < slen(s), sat(s, i) == c), inset(s, c)), patterns=[z3.MultiPattern(inset(s, c), sat(s, i))]),
    ]


def find_first(X, v, start, hit, width):
    """least p >= start (relative) with hit(absolute position) and p+width <= n, as (found, p)"""
    p = X.fresh('pos', I)
    found = X.fresh('found', B)
    q = z3.Int('qf')
    lim = v.n - width
    X.assume(z3.Implies(found, z3.And(p >= start, p <= lim, hit(simp(v.off + p)))))
    X.assume(z3.Implies(z3.Not(found), p == v.n))
    X.assume(z3.ForAll([q], z3.Implies(z3.And(q >= v.off + start, q <= v.off + lim, z3.Implies(found, q < v.off + p)), z3.Not(hit(q)))))
    return found, p


@h(SV + 'find', SV + 'find_first_of', SV + 'find_first_not_of')
def _(X, c):
    v = c.self()
    nd = needle(X, c)
    start = c.v(1) if len(c.args) > 1 else iv(0)
    if c.q.endswith('::find'):
        hit, w = (lambda q: match_abs(X, v, q, nd)), nlen(nd)
    elif c.q.endswith('first_of') and not c.q.endswith('not_of'):
        hit, w = (lambda q: in_set(X, sat(v.base, q), nd)), iv(1)
    else:
        hit, w = (lambda q: z3.Not(in_set(X, sat(v.base, q), nd))), iv(1)
    found, p = find_first(X, v, start, hit, w)
    if X.branch(found):
        return p
    return iv(NPOS)


@h(SV + 'rfind', SV + 'find_last_of', SV + 'find_last_not_of')
def _(X, c):
    v = c.self()
    nd = needle(X, c)
    if c.q.endswith('rfind'):
        hit, w = (lambda q: match_abs(X, v, q, nd)), nlen(nd)
    elif c.q.endswith('not_of'):
        hit, w = (lambda q: z3.Not(in_set(X, sat(v.base, q), nd))), iv(1)
    else:
        hit, w = (lambda q: in_set(X, sat(v.base, q), nd)), iv(1)
    lim = v.n - w
    if len(c.args) > 1 and not X.quick(c.v(1) >= v.n):
        m = c.v(1)
        lim = z3.If(m < lim, m, lim)
    p = X.fresh('pos', I)
    found = X.fresh('found', B)
    q = z3.Int('qf')
    X.assume(z3.Implies(found, z3.And(p >= 0, p <= lim, hit(simp(v.off + p)))))
    X.assume(z3.ForAll([q], z3.Implies(z3.And(q >= v.off, q <= v.off + lim, z3.Implies(found, q > v.off + p)), z3.Not(hit(q)))))
    if X.branch(found):
        return p
    return iv(NPOS)


@h(SV + 'contains')
def _(X, c):
    v = c.self()
    nd = needle(X, c)
    f, p = find_first(X, v, iv(0), lambda q: match_abs(X, v, q, nd), nlen(nd))
    return f


def starts(X, v, nd):
    return z3.And(v.n >= nlen(nd), match_at(X, v, iv(0), nd))


def ends(X, v, nd):
    return z3.And(v.n >= nlen(nd), match_at(X, v, v.n - nlen(nd), nd))


@h(SV + 'starts_with')
def _(X, c):
    return starts(X, c.self(), needle(X, c))


@h(SV + 'ends_with')
def _(X, c):
    return ends(X, c.self(), needle(X, c))


@h('raw:std::operator==')
def _eq(X, e, fn):
    ps = [X.prog.t(X.prog.strip(p['t'])) for p in fn['params']]
    qs = [p.get('q') for p in ps]
    strs = ('std::basic_string', 'std::basic_string_view')
    if any(q in strs for q in qs):
        args = X.eval_args(fn, e['a'])
        vs = [X.read(a) if isl(a) else a for a in args]
        return X.streq(vs[0], vs[1])
    if qs[0] == 'std::strong_ordering':
        a = X.rv(e['a'][0])
        b = X.rv(e['a'][1]) if qs[1] == 'std::strong_ordering' else iv(0)
        return a == b
    if qs[0] == 'std::vector' or qs[0] == 'std::tuple':
        args = X.eval_args(fn, e['a'])
        a, b = [X.read(x) for x in args]
        return veq(X, a, b)
    if qs[0] in ('std::byte',):
        return NotImplemented
    h2 = X.handlers.get('eq:' + str(qs[0]))
    if h2:
        args = X.eval_args(fn, e['a'])
        return h2(X, *[X.read(a) if isl(a) else a for a in args])
    raise Unsupported('std::operator== on %s' % qs)


def veq(X, a, b):
    """boolean: two structured values are equal (vector equality by quantifier)"""
    r = X.fresh('eq', B)
    fs = X.eqf(a, b, skolem=False)
    X.assume(r == z3.And([f for _, f in fs]))
    return r


@h('raw:std::operator<=>')
def _tw(X, e, fn):
    ps = [X.prog.t(X.prog.strip(p['t'])) for p in fn['params']]
    raise Unsupported('std::operator<=> on %s' % [p.get('q') for p in ps])


def _ordcmp(name, f):
    def g(X, e, fn):
        ps = [X.prog.t(X.prog.strip(p['t'])).get('q') for p in fn['params']]
        if 'std::strong_ordering' in ps:
            a, b = [X.rv(x) if q == 'std::strong_ordering' else iv(0) for x, q in zip(e['a'], ps)]
            return f(a, b)
        raise Unsupported(name)
    H['raw:std::' + name] = g


_ordcmp('operator<', lambda a, b: a < b)
_ordcmp('operator>', lambda a, b: a > b)
_ordcmp('operator<=', lambda a, b: a <= b)
_ordcmp('operator>=', lambda a, b: a >= b)
for nm, k in (('less', -1), ('equal', 0), ('equivalent', 0), ('greater', 1)):
    H['gvar:std::strong_ordering::' + nm] = (lambda k: lambda X, v: iv(k))(k)


@h('ctor:std::strong_ordering')
def _(X, e, fn, tid, t):
    return X.rv(e['a'][0])


# ---------------------------------------------------------------- std::string
ST = 'std::basic_string::'


class StrIt(V):
    """iterator into a (mutable) std::string object"""
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx

    def leaves(self):
        return [self.idx]

    def rebuild(self, l):
        return StrIt(self.lv, l[0])

    def text(self, X):
        return X.read(self.lv)


@h('default:std::basic_string')
def _(X, tid, t):
    return sempty


@h('ctor:std::basic_string')
def st_ctor(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    a = [x for x in e['a'] if X.prog.t(X.prog.strip(x['t'])).get('q') != 'std::allocator']
    if not a:
        return sempty
    vs = []
    for x in a:
        v = X.ev(x)
        if isl(v):
            v = X.read(v)
        if isinstance(v, tuple):
            v = SPtr(v[1], iv(0))
        vs.append(v)
    v0 = vs[0]
    if len(vs) == 1:
        if isinstance(v0, InitArr):
            return chars(X, v0.vals)
        return X.vterm(v0)
    if isinstance(v0, SPtr):
        v1 = vs[1]
        if isinstance(v1, SPtr):
            X.same_base(v0, v1)
            n = simp(v1.idx - v0.idx)
        else:
            n = v1
        X.prove('string range is valid', z3.And(v0.idx >= 0, n >= 0, v0.idx + n <= slen(v0.base)))
        return X.sub(v0.base, v0.idx, n)
    if isinstance(v0, z3.ExprRef) and v0.sort() == I:
        t_ = srep(v0, vs[1])
        X.assume(slen(t_) == v0)
        return t_
    if isinstance(v0, View) and len(vs) == 2 and isinstance(vs[1], z3.ExprRef):
        raise Unsupported('string(view,pos)')
    raise Unsupported('std::string constructor')


def chars(X, vals):
    s = sempty
    for v in vals:
        s = X.cat(s, X.unit(v))
    return s


@h(ST + '(conv)', ST + 'operator basic_string_view')
def _(X, c):
    s = c.self()
    return View(s, iv(0), slen(s))


@h(ST + 'size', ST + 'length')
def _(X, c):
    return slen(c.self())


@h(ST + 'empty')
def _(X, c):
    return slen(c.self()) == 0


@h(ST + 'c_str', ST + 'data')
def _(X, c):
    return SPtr(c.self(), iv(0), elem_et(X, c.fn))


@h(ST + 'begin', ST + 'cbegin')
def _(X, c):
    if c.fn.get('const'):
        return SPtr(c.self(), iv(0), elem_et(X, c.fn))
    return StrIt(c.this, iv(0))


@h(ST + 'end', ST + 'cend')
def _(X, c):
    if c.fn.get('const'):
        return SPtr(c.self(), slen(c.self()), elem_et(X, c.fn))
    return StrIt(c.this, slen(c.self()))


@h(ST + 'pop_back')
def str_pop_back(X, c):
    t = c.self()
    X.prove('pop_back() of a non-empty string', slen(t) > 0)
    X.write(c.this, X.sub(t, iv(0), simp(slen(t) - 1)))
    return UNIT


@h(ST + 'push_back')
def _(X, c):
    X.write(c.this, X.cat(c.self(), X.unit(c.v(0))))
    return UNIT


@h(ST + 'append', ST + 'operator+=')
def _(X, c):
    vs = [c.v(i) for i in range(len(c.args))]
    s = c.self()
    v0 = vs[0]
    if len(vs) == 1:
        if isinstance(v0, z3.ExprRef) and v0.sort() == I:
            X.write(c.this, X.cat(s, X.unit(v0)))
        else:
            X.write(c.this, X.cat(s, X.vterm(v0)))
        return c.this
    if isinstance(v0, SPtr):
        n = simp(vs[1].idx - v0.idx) if isinstance(vs[1], SPtr) else vs[1]
        X.prove('appended range is valid', z3.And(n >= 0, v0.idx >= 0, v0.idx + n <= slen(v0.base)))
        X.write(c.this, X.cat(s, X.sub(v0.base, v0.idx, n)))
        return c.this
    raise Unsupported('string append form')


@h(ST + 'clear')
def _(X, c):
    X.write(c.this, sempty)
    return UNIT


@h(ST + 'reserve', ST + 'shrink_to_fit')
def _(X, c):
    return UNIT


@h(ST + 'resize')
def _(X, c):
    s, n = c.self(), c.v(0)
    if len(c.args) > 1:
        fill = c.v(1)
    else:
        fill = iv(0)
    if X.branch(n <= slen(s)):
        X.write(c.this, X.sub(s, iv(0), n))
    else:
        r = srep(simp(n - slen(s)), fill)
        X.assume(slen(r) == n - slen(s))
        X.write(c.this, X.cat(s, r))
    return UNIT


@h(ST + 'operator=', ST + 'assign')
def _(X, c):
    v = c.v(0)
    if isinstance(v, tuple):
        v = SPtr(v[1], iv(0))
    if len(c.args) == 1:
        X.write(c.this, X.vterm(v))
        if c.fn.get('mvasg') and isinstance(c.args[0], LV):
            X.write(c.args[0], X.moved(v))
        return c.this
    raise Unsupported('string assign form')


@h(ST + 'operator[]')
def _(X, c):
    s, i = c.self(), c.v(0)
    X.prove('string index is within bounds', z3.And(i >= 0, i < slen(s)))
    return c.this.i(i) if isinstance(c.this, LV) else TextLV(s, i, elem_et(X, c.fn))


@h(ST + 'front')
def _(X, c):
    s = c.self()
    X.prove('front() of a non-empty string', slen(s) > 0)
    return c.this.i(iv(0)) if isinstance(c.this, LV) else TextLV(s, iv(0), elem_et(X, c.fn))


@h(ST + 'back')
def _(X, c):
    s = c.self()
    X.prove('back() of a non-empty string', slen(s) > 0)
    return c.this.i(slen(s) - 1) if isinstance(c.this, LV) else TextLV(s, slen(s) - 1, elem_et(X, c.fn))


@h(ST + 'substr')
def _(X, c):
    s, p, n = c.self(), c.v(0), c.v(1)
    if not X.branch(p <= slen(s)):
        raise CppThrow(None, 'out_of_range')
    if X.quick(n >= slen(s) - p):
        m = slen(s) - p
    else:
        m = z3.If(n < slen(s) - p, n, slen(s) - p)
    return X.sub(s, p, simp(m))


for _n in ('starts_with', 'ends_with', 'find', 'find_first_of', 'find_first_not_of', 'rfind', 'find_last_of', 'find_last_not_of', 'contains'):
    def _mk(n):
        def g(X, c):
            s = c.self()
            c2 = Call(X, c.fn, ValLV(View(s, iv(0), slen(s))), c.args, c.node)
            return H[SV + n](X, c2)
        return g
    H[ST + _n] = _mk(_n)


@h('raw:std::operator+')
def _plus(X, e, fn):
    qs = [X.prog.t(X.prog.strip(p['t'])).get('q') for p in fn['params']]
    if 'std::basic_string' in qs:
        args = X.eval_args(fn, e['a'])
        ts = []
        for a in args:
            v = X.read(a) if isl(a) else a
            if isinstance(v, z3.ExprRef) and v.sort() == I:
                ts.append(X.unit(v))
            else:
                ts.append(X.vterm(v))
        return X.cat(ts[0], ts[1])
    raise Unsupported('std::operator+ on %s' % qs)


# ---------------------------------------------------------------- __normal_iterator (string / vector / span)
NI = '__gnu_cxx::__normal_iterator::'


@h(NI + 'operator*')
def _(X, c):
    return it_deref(X, c.self())


@h(NI + 'operator->')
def _(X, c):
    return Ptr(it_deref(X, c.self()))


def it_deref(X, it):
    if isinstance(it, StrIt):
        s = it.text(X)
        X.prove('string iterator is dereferenceable', z3.And(it.idx >= 0, it.idx < slen(s)))
        return it.lv.i(it.idx)
    if isinstance(it, RevIt):
        return it_deref(X, it_add(X, it.it, iv(-1)))
    return X.deref(it)


def it_add(X, it, n):
    if isinstance(it, StrIt):
        return StrIt(it.lv, simp(it.idx + n))
    if isinstance(it, RevIt):
        return RevIt(it_add(X, it.it, -n))
    return X.padd(it, n)


H['padd:StrIt'] = it_add
H['deref:StrIt'] = it_deref


@h(NI + 'operator++', NI + 'operator--', 'std::reverse_iterator::operator++', 'std::reverse_iterator::operator--')
def _(X, c):
    it = c.self()
    d = 1 if c.q.endswith('++') else -1
    new = it_add(X, it, iv(d))
    X.write(c.this, new)
    if len(c.fn['params']) == 1:
        return it
    return c.this


@h(NI + 'operator+', NI + 'operator-', 'std::reverse_iterator::operator+', 'std::reverse_iterator::operator-')
def _(X, c):
    n = c.v(0)
    return it_add(X, c.self(), n if c.q.endswith('+') else -n)


@h(NI + 'operator+=', NI + 'operator-=')
def _(X, c):
    n = c.v(0)
    X.write(c.this, it_add(X, c.self(), n if c.q.endswith('+=') else -n))
    return c.this


@h(NI + 'operator[]')
def _(X, c):
    return it_deref(X, it_add(X, c.self(), c.v(0)))


@h('std::reverse_iterator::operator*')
def _(X, c):
    return it_deref(X, c.self())


@h('std::reverse_iterator::base', NI + 'base')
def _(X, c):
    s = c.self()
    return s.it if isinstance(s, RevIt) else s


@h('ctor:std::reverse_iterator')
def _(X, e, fn, tid, t):
    v = X.rv(e['a'][0])
    return v if isinstance(v, RevIt) else RevIt(v)


@h('ctor:__gnu_cxx::__normal_iterator')
def _(X, e, fn, tid, t):
    return X.rv(e['a'][0])


def it_cmp(X, a, b):
    """integer difference of two iterators"""
    if isinstance(a, RevIt):
        return it_cmp(X, b.it, a.it)
    if isinstance(a, SPtr):
        if isinstance(b, StrIt):
            return a.idx - b.idx
        X.same_base(a, b)
        return a.idx - b.idx
    if isinstance(a, (VIter, StrIt)):
        return a.idx - b.idx
    raise Unsupported('iterator difference of %s' % type(a).__name__)


def _itop(op, f):
    def g(X, c):
        a, b = c.v(0), c.v(1)
        return f(it_cmp(X, a, b))
    for ns in ('__gnu_cxx::', 'std::'):
        H[ns + 'operator' + op] = g


for _op, _f in (('==', lambda d: d == 0), ('!=', lambda d: d != 0), ('-', lambda d: d), ('<', lambda d: d < 0), ('>', lambda d: d > 0),
                ('<=', lambda d: d <= 0), ('>=', lambda d: d >= 0)):
    def _mk2(op, f):
        def g(X, c):
            return f(it_cmp(X, c.v(0), c.v(1)))
        H['__gnu_cxx::operator' + op] = g
    _mk2(_op, _f)


def _tw_it(X, c):
    d = it_cmp(X, c.v(0), c.v(1))
    return z3.If(d < 0, iv(-1), z3.If(d == 0, iv(0), iv(1)))


H['__gnu_cxx::operator<=>'] = _tw_it


@h('std::distance')
def _(X, c):
    return it_cmp(X, c.v(1), c.v(0))


@h('std::next', 'std::prev')
def _(X, c):
    n = c.v(1) if len(c.args) > 1 else iv(1)
    return it_add(X, c.v(0), n if c.q == 'std::next' else -n)


# ---------------------------------------------------------------- back_inserter
@h('std::back_inserter')
def _(X, c):
    return BackIns(c.args[0])


@h('ctor:std::back_insert_iterator')
def _(X, e, fn, tid, t):
    v = X.rv(e['a'][0])
    return v


@h('std::back_insert_iterator::operator*', 'std::back_insert_iterator::operator++')
def _(X, c):
    if len(c.fn['params']) == 1:
        return c.self()
    return c.this


@h('std::back_insert_iterator::operator=')
def _(X, c):
    src = c.args[0]
    a = c.self()
    v = c.v(0)
    if isinstance(v, BackIns) or (fnq(X, c.fn['params'][0]['t']) == 'std::back_insert_iterator'):
        X.write(c.this, v)
        return c.this
    cur = X.read(a.lv)
    if isinstance(cur, Vec):
        X.write(a.lv, vpush(X, cur, v))
    else:
        X.write(a.lv, X.cat(cur, X.unit(v)))
    return c.this


def fnq(X, tid):
    return X.prog.t(X.prog.strip(tid)).get('q')


# ---------------------------------------------------------------- std::vector
VE = 'std::vector::'


def vpush(X, vec, v):
    if isinstance(v, InitArr):
        v = X.arr_to_vec(v, v.et)
    return Vec(simp(vec.n + 1), map2leaf(vec.arr, v, lambda a, x: z3.Store(a, vec.n, x)), vec.et)


@h('default:std::vector')
def _(X, tid, t):
    et = X.targ(t, 0)
    el = X.mk(et, 'el')
    return Vec(iv(0), lift_const(el, lambda s: X.fresh('arr0', s)), et)


@h('ctor:std::vector')
def _(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    a = [x for x in e['a'] if X.prog.t(X.prog.strip(x['t'])).get('q') != 'std::allocator']
    if not a:
        return H['default:std::vector'](X, tid, t)
    if len(a) == 1:
        v = X.ev(a[0])
        if isl(v):
            v = X.read(v)
        if isinstance(v, InitArr):
            return X.arr_to_vec(v, X.targ(t, 0))
        if isinstance(v, Vec):
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            et = X.targ(t, 0)
            el = X.zero(et)
            return Vec(v, mapleaf(el, lambda x: z3.K(I, x)), et)
    raise Unsupported('std::vector constructor')


@h(VE + 'size')
def _(X, c):
    return c.self().n


@h(VE + 'empty')
def _(X, c):
    return c.self().n == 0


@h(VE + 'clear')
def _(X, c):
    v = c.self()
    X.write(c.this, Vec(iv(0), v.arr, v.et))
    return UNIT


@h(VE + 'reserve')
def _(X, c):
    return UNIT


@h(VE + 'push_back')
def _(X, c):
    v = c.self()
    x = c.v(0)
    X.write(c.this, vpush(X, v, x))
    pt = X.prog.t(c.fn['params'][0]['t'])
    if pt['k'] == 'rref' and isinstance(c.args[0], LV):
        X.write(c.args[0], X.moved(x))
    return UNIT


@h(VE + 'begin', VE + 'cbegin')
def _(X, c):
    return VIter(c.this, iv(0))


@h(VE + 'end', VE + 'cend')
def _(X, c):
    return VIter(c.this, c.self().n)


@h(VE + 'rbegin')
def _(X, c):
    return RevIt(VIter(c.this, c.self().n))


@h(VE + 'rend')
def _(X, c):
    return RevIt(VIter(c.this, iv(0)))


def velem(X, c, i):
    if isinstance(c.this, LV):
        return c.this.i(i)
    return ValLV(X.sel(c.self(), ('i', i)))


@h(VE + 'operator[]')
def _(X, c):
    i = c.v(0)
    X.prove('vector index is within bounds', z3.And(i >= 0, i < c.self().n))
    return velem(X, c, i)


@h(VE + 'at')
def _(X, c):
    i = c.v(0)
    if not X.branch(z3.And(i >= 0, i < c.self().n)):
        raise CppThrow(None, 'out_of_range')
    return velem(X, c, i)


@h(VE + 'front')
def _(X, c):
    X.prove('front() of a non-empty vector', c.self().n > 0)
    return velem(X, c, iv(0))


@h(VE + 'back')
def _(X, c):
    X.prove('back() of a non-empty vector', c.self().n > 0)
    return velem(X, c, simp(c.self().n - 1))


@h(VE + 'pop_back')
def _(X, c):
    v = c.self()
    X.prove('pop_back() of a non-empty vector', v.n > 0)
    X.write(c.this, Vec(simp(v.n - 1), v.arr, v.et))
    return UNIT


def vshift(X, v, pos, cnt):
    """remove cnt elements at pos"""
    def f(a):
        r = X.fresh('shift', a.sort())
        i = z3.Int('ish')
        X.assume(z3.ForAll([i], z3.Select(r, i) == z3.If(i < pos, z3.Select(a, i), z3.Select(a, i + cnt)), patterns=[z3.Select(r, i)]))
        return r
    return Vec(simp(v.n - cnt), mapleaf(v.arr, f), v.et)


@h(VE + 'erase')
def _(X, c):
    v = c.self()
    it = c.v(0)
    if len(c.args) == 1:
        X.prove('erased position is valid', z3.And(it.idx >= 0, it.idx < v.n))
        X.write(c.this, vshift(X, v, it.idx, iv(1)))
        return VIter(c.this, it.idx)
    it2 = c.v(1)
    X.prove('erased range is valid', z3.And(it.idx >= 0, it.idx <= it2.idx, it2.idx <= v.n))
    X.write(c.this, vshift(X, v, it.idx, simp(it2.idx - it.idx)))
    return VIter(c.this, it.idx)


@h(VE + 'operator=')
def _(X, c):
    v = c.v(0)
    if isinstance(v, InitArr):
        v = X.arr_to_vec(v, v.et)
    X.write(c.this, v)
    if c.fn.get('mvasg') and isinstance(c.args[0], LV):
        X.write(c.args[0], X.moved(v))
    return c.this


# ---------------------------------------------------------------- std::array
IL = 'std::initializer_list::'


@h(IL + 'begin')
def _(X, c):
    return VIter(c.this, iv(0))


@h(IL + 'end')
def _(X, c):
    return VIter(c.this, c.self().n)


@h(IL + 'size')
def _(X, c):
    return c.self().n


@h('std::array::operator[]')
def _(X, c):
    return X.index(c.this, c.v(0), c.node)


@h('std::array::size')
def _(X, c):
    v = c.self()
    return iv(len(v.vals)) if isinstance(v, Table) else v.n


# ---------------------------------------------------------------- tuple / pair
@h('ctor:std::tuple', 'ctor:std::pair')
def _(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    args = X.eval_args(fn, e['a'])
    vs = [X.read(a) if isl(a) else a for a in args]
    names = ['first', 'second'] if t['q'] == 'std::pair' else [str(i) for i in range(len(tuple_targs(t)))]
    tts = [t['ta'][0]['t'], t['ta'][1]['t']] if t['q'] == 'std::pair' else tuple_targs(t)
    if len(vs) == 1 and isinstance(vs[0], Rec) and vs[0].q == t['q']:
        src = vs[0]
        vs = [src.f[k] for k in src.f]
    if not vs:
        return X.zero(tid)
    return Rec(t['q'], {n: convert(X, v, None, tt) for n, v, tt in zip(names, vs, tts)})


def convert(X, v, ft, tt):
    """implicit conversion of an already evaluated value to type tt (std / modelled types only)"""
    t = X.prog.t(X.prog.strip(tt))
    q = t.get('q')
    if q in ('fitoria::optional', 'std::optional') and not isinstance(v, Opt):
        if isinstance(v, Nullopt):
            return Opt(z3.BoolVal(False), X.mk(t['ta'][0]['t'], 'noval'))
        return Opt(z3.BoolVal(True), convert(X, v, None, t['ta'][0]['t']))
    if q == 'std::basic_string_view' and not isinstance(v, View):
        return X.as_view(v)
    if q == 'std::basic_string' and not isinstance(v, z3.ExprRef):
        return X.vterm(v)
    if t['k'] in ('int', 'enum') and isinstance(v, z3.ExprRef) and v.sort() == I:
        return X.wrap(v, X.prog.strip(tt))
    if isinstance(v, Rec) and v.q in ('std::tuple', 'std::pair') and q == v.q:
        tts = tuple_targs(t) if q == 'std::tuple' else [t['ta'][0]['t'], t['ta'][1]['t']]
        return Rec(q, {k: convert(X, x, None, y) for (k, x), y in zip(v.f.items(), tts)})
    if q == 'fitoria::mime::name_view' and isinstance(v, (View, z3.ExprRef)):
        return Rec(q, {'impl_': X.as_view(v)}, t['id'])
    return v


@h('std::get')
def _(X, c):
    ta = c.fn['ta'][0]
    i = int(ta['i'])
    v = c.v(0)
    name = list(v.f.keys())[i]
    a = c.args[0]
    return X.member(a, name)


@h('std::make_pair', 'std::make_tuple')
def _(X, c):
    t = X.prog.t(c.fn['ret'])
    vs = [c.v(i) for i in range(len(c.args))]
    names = ['first', 'second'] if t['q'] == 'std::pair' else [str(i) for i in range(len(vs))]
    return Rec(t['q'], dict(zip(names, vs)))


# ---------------------------------------------------------------- optional (contract of fitoria::optional, verified by O01)
class Nullopt(V):
    def leaves(self):
        return []

    def rebuild(self, l):
        return self


@h('ctor:fitoria::nullopt_t', 'ctor:std::nullopt_t')
def _(X, e, fn, tid, t):
    return Nullopt()


H['gvar:fitoria::nullopt'] = lambda X, v: Nullopt()
H['gvar:std::nullopt'] = lambda X, v: Nullopt()


@h('default:fitoria::optional', 'default:std::optional')
def opt_default(X, tid, t):
    return Opt(z3.BoolVal(False), X.mk(t['ta'][0]['t'], 'noval'))


@h('ctor:fitoria::optional', 'ctor:std::optional')
def opt_ctor(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    if not e['a']:
        return opt_default(X, tid, t)
    vs = []
    for i, a in enumerate(e['a']):
        v = X.ev(a)
        src = v
        if isl(v):
            v = X.read(v)
            pt = X.prog.t(fn['params'][i]['t']) if i < len(fn['params']) else None
            if pt and pt['k'] == 'rref' and isinstance(src, LV) and a.get('vk') == 'x':
                X.write(src, X.moved(v))
        if isinstance(v, tuple):
            v = SPtr(v[1], iv(0))
        vs.append(v)
    if isinstance(vs[0], Nullopt):
        return opt_default(X, tid, t)
    vt = t['ta'][0]['t']
    if len(vs) == 1:
        if isinstance(vs[0], Opt):
            return Opt(vs[0].has, convert(X, vs[0].val, None, vt))
        return Opt(z3.BoolVal(True), convert_obj(X, vs[0], vt))
    raise Unsupported('optional in-place constructor')


def convert_obj(X, v, tt):
    v = convert(X, v, None, tt)
    if isinstance(v, InitArr):
        v = X.arr_to_vec(v, v.et)
    return v


for _o in ('fitoria::optional::', 'std::optional::'):
    def _m(_o):
        @h(_o + 'has_value', _o + '(conv)', _o + 'operator bool')
        def _(X, c):
            return c.self().has

        @h(_o + 'operator*')
        def _(X, c):
            X.prove('optional is engaged when dereferenced', c.self().has)
            return c.this.step('o') if isinstance(c.this, LV) else ValLV(c.self().val)

        @h(_o + 'operator->')
        def _(X, c):
            X.prove('optional is engaged when dereferenced', c.self().has)
            return Ptr(c.this.step('o') if isinstance(c.this, LV) else ValLV(c.self().val))

        @h(_o + 'value')
        def _(X, c):
            if not X.branch(c.self().has):
                raise CppThrow(None, 'bad_optional_access')
            return c.this.step('o') if isinstance(c.this, LV) else ValLV(c.self().val)

        @h(_o + 'value_or')
        def _(X, c):
            if X.branch(c.self().has):
                return c.self().val
            return convert(X, c.v(0), None, c.fn['ret'])

        @h(_o + 'operator=')
        def _(X, c):
            v = c.v(0)
            t = X.prog.t(c.fn['rect'])
            if isinstance(v, Nullopt):
                X.write(c.this, opt_default(X, None, t))
            elif isinstance(v, Opt):
                X.write(c.this, v)
            else:
                X.write(c.this, Opt(z3.BoolVal(True), convert(X, v, None, t['ta'][0]['t'])))
            return c.this

        @h(_o + 'reset')
        def _(X, c):
            v = c.self()
            X.write(c.this, Opt(z3.BoolVal(False), v.val))
            return UNIT

        @h(_o + 'emplace')
        def _(X, c):
            t = X.prog.t(c.fn['rect'])
            if len(c.args) != 1:
                raise Unsupported('emplace')
            X.write(c.this, Opt(z3.BoolVal(True), convert(X, c.v(0), None, t['ta'][0]['t'])))
            return c.this.step('o')
    _m(_o)


# ---------------------------------------------------------------- algorithms
def text_range(X, a, b):
    """(kind, base, lo, n, at) of an iterator range"""
    if isinstance(a, SPtr):
        X.same_base(a, b)
        return lambda i: TextLV(a.base, a.idx + i, a.et), b.idx - a.idx, a
    if isinstance(a, StrIt):
        return lambda i: a.lv.i(a.idx + i), b.idx - a.idx, a
    if isinstance(a, VIter):
        return lambda i: (a.lv.i(a.idx + i) if isinstance(a.lv, LV) else ValLV(X.sel(a.lv.val, ('i', a.idx + i)))), b.idx - a.idx, a
    if isinstance(a, RevIt):
        at, n, _ = text_range(X, b.it, a.it)
        return lambda i: at(n - 1 - i), n, a
    raise Unsupported('algorithm over %s' % type(a).__name__)


def pure_fn(X, f, args):
    """evaluate a callable on symbolic elements as one pure expression (no forks, no writes)"""
    g = z3.BoolVal(True)
    def run():
        v = X.call_value(f, args)
        return X.read(v) if isl(v) else v
    st0 = X.st.clone()
    tr = (set(), X.st.nloc)
    X.trackers.append(tr)
    try:
        res = X.explore(run, st0)
    finally:
        X.trackers.pop()
    if tr[0]:
        raise Unsupported('algorithm callback writes memory')
    n0 = len(st0.pc)
    res = [r for r in res]
    if any(r[0] != 'normal' for r in res):
        raise Unsupported('algorithm callback may throw')
    out = None
    for kind, v, s2 in reversed(res):
        facts = s2.pc[n0:]
        if out is None:
            out = v
        else:
            out = z3.If(z3.And(facts), v, out)
    if len(res) == 1:
        return out, res[0][2].pc[n0:]
    return out, []


def elem_expr(X, at, f, extra=None):
    """build i -> value of f(elem(i)) by evaluating once on a symbolic index and substituting"""
    i = X.fresh('ei', I)
    lv = at(i)
    e = X.read(lv) if isl(lv) else lv
    # element range facts must not constrain the outside world: keep local
    v, facts = pure_fn(X, f, [ValLV(e) if not isl(lv) else lv])
    v = X_tobool(v)
    return lambda j: (z3.substitute(v, (i, j)), [z3.substitute(x, (i, j)) for x in facts])


def X_tobool(v):
    if v.sort() == I:
        return v != 0
    return v


def quant_pred(X, c):
    at, n, _ = text_range(X, c.v(0), c.v(1))
    npc = len(X.st.pc)
    f = c.args[2]
    j = X.fresh('qi', I)
    lv = at(j)
    X.read(lv)
    v, facts = pure_fn(X, f, [lv])
    if facts:
        # facts define auxiliary symbols (isalnum results): existential witnesses per element -> make them functions
        v, facts = skolemise(X, v, facts, j)
    v = X_tobool(v)
    # drop element range fact about the arbitrary index (it is re-added when elements are read)
    def P(i):
        return z3.substitute(v, (j, i)), [z3.substitute(x, (j, i)) for x in facts]
    return P, n


def skolemise(X, v, facts, j):
    """replace fresh Int/Bool constants created while evaluating the callback by functions of the index, inlining
    definitions of the shape (r != 0) == phi"""
    sub = []
    rest = []
    for f in facts:
        if z3.is_eq(f):
            l, r = f.arg(0), f.arg(1)
            if z3.is_bool(l) and z3.is_distinct(l) and z3.is_int_value(l.arg(1)) and l.arg(1).as_long() == 0 and z3.is_const(l.arg(0)):
                sub.append((l.arg(0), r))
                continue
            if z3.is_not(l) and z3.is_eq(l.arg(0)) and z3.is_const(l.arg(0).arg(0)):
                sub.append((l.arg(0).arg(0), r))
                continue
        rest.append(f)
    for r, phi in sub:
        v = z3.substitute(v, (r, z3.If(phi, iv(1), iv(0))))
    names = {r.decl().name() for r, _ in sub}
    rest = [f for f in rest if not (mentions(f) & names)]
    return z3.simplify(v), rest


def newer(name, mark):
    """the constant was created after the mark"""
    n = name.rsplit('!', 1)
    return len(n) == 2 and n[1].isdigit() and int(n[1]) > mark


def mentions(t):
    out, stack = set(), [t]
    while stack:
        x = stack.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        if z3.is_app(x):
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return out


@h('std::all_of', 'std::any_of', 'std::none_of')
def _(X, c):
    P, n = quant_pred(X, c)
    r = X.fresh('alg', B)
    i = z3.Int('ia')
    w = X.fresh('wit', I)
    neg = c.q.endswith('any_of')
    good = (lambda i: P(i)[0]) if c.q.endswith('all_of') else (lambda i: z3.Not(P(i)[0]))
    o = origin(c.v(0))
    allg = z3.ForAll([i], z3.Implies(z3.And(i >= o, i < o + n), z3.simplify(good(i - o))))
    res = X.fresh('allr', B)
    X.assume(z3.Implies(res, allg))
    X.assume(z3.Implies(z3.Not(res), z3.And(w >= 0, w < n, z3.Not(good(w)))))
    return z3.Not(res) if neg else res


@h('std::find_if', 'std::find_if_not', 'std::find')
def _(X, c):
    if c.q == 'std::find':
        at, n, _ = text_range(X, c.v(0), c.v(1))
        key = c.v(2)
        hit = lambda i: z3.And([f for _, f in X.eqf(X.read(at(i)), key, skolem=False)])
    else:
        P, n = quant_pred(X, c)
        hit = (lambda i: P(i)[0]) if c.q == 'std::find_if' else (lambda i: z3.Not(P(i)[0]))
    p = X.fresh('fpos', I)
    i = z3.Int('ia')
    X.assume(z3.And(p >= 0, p <= n))
    X.assume(z3.Implies(p < n, hit(p)))
    o = origin(c.v(0))
    X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= o, i < o + p), z3.simplify(z3.Not(hit(i - o))))))
    return it_add_raw(c.v(0), p)


def origin(it):
    """absolute index of an iterator (so that quantified facts match on plain element accesses)"""
    if isinstance(it, (SPtr, StrIt, VIter)):
        return it.idx
    return iv(0)


def it_add_raw(it, n):
    if isinstance(it, SPtr):
        return SPtr(it.base, simp(it.idx + n), it.et)
    if isinstance(it, StrIt):
        return StrIt(it.lv, simp(it.idx + n))
    if isinstance(it, VIter):
        return VIter(it.lv, simp(it.idx + n))
    if isinstance(it, RevIt):
        return RevIt(it_add_raw(it.it, -n))
    raise Unsupported('iterator')


@h('std::equal')
def _(X, c):
    a1, n1, _ = text_range(X, c.v(0), c.v(1))
    if len(c.args) < 4 or (len(c.args) == 4 and not isinstance(c.v(3), (SPtr, VIter, StrIt, RevIt))):
        # three-iterator form: the second range has no end
        raise Unsupported('std::equal without the end of the second range')
    a2, n2, _ = text_range(X, c.v(2), c.v(3))
    j = X.fresh('qi', I)
    if len(c.args) == 5:
        X.read(a1(j))
        v, facts = pure_fn(X, c.args[4], [a1(j), a2(j)])
        if facts:
            v, facts = skolemise(X, v, facts, j)
        v = X_tobool(v)
    else:
        v = z3.And([f for _, f in X.eqf(X.read(a1(j)), X.read(a2(j)), skolem=False)])
    i, w = z3.Int('ia'), X.fresh('wit', I)
    r = X.fresh('equalr', B)
    P = lambda t: z3.substitute(v, (j, t))
    X.assume(z3.Implies(r, z3.And(n1 == n2, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n1), P(i))))))
    X.assume(z3.Implies(z3.Not(r), z3.Or(n1 != n2, z3.And(w >= 0, w < n1, z3.Not(P(w))))))
    return r


@h('std::lexicographical_compare_three_way')
def _(X, c):
    a1, n1, _ = text_range(X, c.v(0), c.v(1))
    a2, n2, _ = text_range(X, c.v(2), c.v(3))
    j = X.fresh('qi', I)
    if len(c.args) == 5:
        X.read(a1(j))
        v, facts = pure_fn(X, c.args[4], [a1(j), a2(j)])
    else:
        x, y = X.read(a1(j)), X.read(a2(j))
        v = z3.If(x < y, iv(-1), z3.If(x == y, iv(0), iv(1)))
    i = z3.Int('ia')
    r, p = X.fresh('lex', I), X.fresh('lexpos', I)
    P = lambda t: z3.substitute(v, (j, t))
    m = z3.If(n1 < n2, n1, n2)
    X.assume(z3.And(p >= 0, p <= m))
    X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < p), P(i) == 0)))
    X.assume(z3.Implies(p == m, r == z3.If(n1 < n2, iv(-1), z3.If(n1 == n2, iv(0), iv(1)))))
    X.assume(z3.Implies(p < m, z3.And(P(p) != 0, r == P(p))))
    return r


@h('std::transform')
def _(X, c):
    a1, n1, _ = text_range(X, c.v(0), c.v(1))
    out = c.v(2)
    j = X.fresh('qi', I)
    np = len(X.st.pc)
    X.read(a1(j))
    rng = X.st.pc[np:]
    mark = X.st.ctr
    v, facts = pure_fn(X, c.args[3], [a1(j)])
    v, facts = skolemise(X, v, facts, j)
    facts = [f for f in rng + facts if not z3.is_quantifier(f)]
    for t_ in [v] + facts:
        if any(newer(nm, mark) for nm in mentions(t_)):
            raise Unsupported('transform callback with a result that is not a function of the element')
    if isinstance(out, StrIt):
        s = out.text(X)
        X.prove('transform output range is large enough', z3.And(out.idx >= 0, out.idx + n1 <= slen(s)))
        r = X.fresh('tr', Str)
        i = z3.Int('ia')
        X.assume(slen(r) == slen(s))
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < slen(s)), sat(r, i) == z3.If(
            z3.And(i >= out.idx, i < out.idx + n1), z3.substitute(v, (j, i - out.idx)), sat(s, i))), patterns=[sat(r, i)]))
        if facts:
            X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= out.idx, i < out.idx + n1), z3.And([z3.substitute(f, (j, i - out.idx)) for f in facts])), patterns=[sat(r, i)]))
        X.write(out.lv, r)
        return StrIt(out.lv, simp(out.idx + n1))
    raise Unsupported('transform output')


# ---------------------------------------------------------------- exceptions (value opaque)
for _x in ('std::invalid_argument', 'std::runtime_error', 'std::out_of_range', 'std::logic_error', 'std::bad_alloc', 'std::exception', 'std::system_error'):
    H['ctor:' + _x] = lambda X, e, fn, tid, t: Rec(t['q'], {})


@h('std::getenv', 'getenv')
def _(X, c):
    if X.branch(X.fresh('unset', B)):
        return NullP()
    b = X.fresh('env', Str)
    X.assume(z3.And(slen(b) >= 0, slen(b) <= (1 << 60)))
    return SPtr(X.ztext(b), iv(0))


@h('__assert_fail')
def _(X, c):
    X.prove('assertion does not fail', False)
    raise PathDead()


# ---------------------------------------------------------------- exceptions (the message is not modelled)
@h(*['ctor:std::' + n for n in ('length_error', 'logic_error', 'runtime_error', 'out_of_range', 'invalid_argument', 'domain_error', 'range_error', 'overflow_error', 'exception')])
def _(X, e, fn, tid, t):
    return Rec(t['q'], {})
