"""web/query_map.hpp and web/path_info.hpp: a map from names to texts, in step with the documented operations."""
import z3
from sym import *
from engine import *
from interp import *
from base import *
import stdmodel, mapmodel, loops
from stdmodel import H as SH

QM = 'fitoria::web::query_map::'
PI = 'fitoria::web::path_info::'


class OptRef(Opt):
    """optional<T&>: presence, the value referred to now, and the object"""
    __slots__ = ('ref',)

    def __init__(self, has, val, ref=None):
        Opt.__init__(self, has, val)
        self.ref = ref

    def rebuild(self, l):
        return OptRef(l[0], l[1], self.ref)


def refto(X, t):
    at = X.prog.t(t['ta'][0]['t'])
    return at['to'] if at['k'] == 'lref' else None


def o_default(X, tid, t):
    to = refto(X, t)
    return OptRef(z3.BoolVal(False), X.mk(to, 'noval')) if to is not None else stdmodel.opt_default(X, tid, t)


def o_ctor(X, e, fn, tid, t):
    to = refto(X, t)
    if to is None or fn.get('cpctor') or fn.get('mvctor') or not e['a']:
        return stdmodel.opt_ctor(X, e, fn, tid, t)
    v = X.ev(e['a'][0])
    if isl(v):
        x = X.read(v)
        if isinstance(x, Opt):
            return x
        if not isinstance(x, stdmodel.Nullopt):
            return OptRef(z3.BoolVal(True), x, v)
    elif isinstance(v, Opt):
        return v
    elif not isinstance(v, stdmodel.Nullopt):
        raise Unsupported('optional reference to a temporary')
    return o_default(X, tid, t)


OH = {'ctor:fitoria::optional': o_ctor, 'default:fitoria::optional': o_default}


def themap(v):
    m = [x for x in v.f.values() if isinstance(x, MapV)]
    if len(m) != 1:
        raise Unsupported('the map member')
    return m[0]


def karg(cx, i=0):
    return cx.X.vterm(cx.args[i])


def entry(m, k):
    return mapleaf(m.arr, lambda a: z3.Select(a, k))


def has(m, k):
    return z3.Select(m.dom, k)


def val(m, k):
    return entry(m, k).f['second']


def only_k(cx, k):
    m0, m1 = themap(cx.this0), themap(cx.this1)
    x = cx.X.fresh('xo', Str)
    return ('other names are unaffected', z3.Implies(x != k, z3.And(has(m1, x) == has(m0, x), z3.Implies(has(m0, x), val(m1, x) == val(m0, x)))))


def grow(m0, m1, k):
    return m1.n == m0.n + z3.If(has(m0, k), iv(0), iv(1))


def is_val(X, r, v):
    return X.vterm(r) == v


def q_set(cx, r):
    k = karg(cx)
    m0, m1 = themap(cx.this0), themap(cx.this1)
    return [('the name is present', has(m1, k)), ('with the given value', val(m1, k) == cx.X.vterm(cx.args[1])), ('the size counts the names', grow(m0, m1, k)), only_k(cx, k)]


def q_get(cx, r):
    return get_spec(cx, r, karg(cx))


def get_spec(cx, r, k, here=None):
    m = themap(cx.this0)
    ok = isinstance(r, OptRef) and isinstance(r.ref, LV) and refers(cx, r.ref, k)
    return [('refers to the value in the map', z3.Implies(r.has, z3.BoolVal(bool(ok)))), ('a value exactly when the name is present', r.has == has(m, k)), ('the stored value', z3.Implies(r.has, is_val(cx.X, r.val, val(m, k))))]


def q_erase(cx, r):
    k = karg(cx)
    m0, m1 = themap(cx.this0), themap(cx.this1)
    return [('a value exactly when the name was present', r.has == has(m0, k)), ('the removed value', z3.Implies(r.has, is_val(cx.X, r.val, val(m0, k)))),
            ('the name is gone', z3.Not(has(m1, k))), ('the size counts the names', m1.n == m0.n - z3.If(has(m0, k), iv(1), iv(0))), only_k(cx, k)]


def q_at(cx, r):
    X, k = cx.X, karg(cx)
    m = themap(cx.this0)
    return [('returns only for a present name', has(m, k)), ('the stored value', X.vterm(X.read(r)) == val(m, k))]


def refers(cx, r, k):
    return isinstance(r, LV) and isinstance(cx.this, LV) and r.loc == cx.this.loc and any(s[0] == 'k' and (s[1].eq(k) or cx.X.quick(s[1] == k)) for s in r.path)


def q_idx(cx, r):
    X, k = cx.X, karg(cx)
    m0, m1 = themap(cx.this0), themap(cx.this1)
    return [('the name is present', has(m1, k)), ('an existing value is kept', z3.Implies(has(m0, k), val(m1, k) == val(m0, k))),
            ('a new value is empty', z3.Implies(z3.Not(has(m0, k)), slen(val(m1, k)) == 0)), ('refers to the value in the map', z3.BoolVal(refers(cx, r, k))),
            ('the size counts the names', grow(m0, m1, k)), only_k(cx, k)]


CONTAINS = lambda q: Contract(q + 'contains', post=lambda cx, r: [('exactly for the stored names', r == has(themap(cx.this0), karg(cx)))], name=short(q) + 'contains')
SIZE = lambda q: Contract(q + 'size', post=lambda cx, r: [('number of names', r == themap(cx.this0).n)], name=short(q) + 'size')
EMPTY = lambda q: Contract(q + 'empty', post=lambda cx, r: [('exactly with no name', r == (themap(cx.this0).n == 0))], name=short(q) + 'empty')


def short(q):
    return q.split('::')[-2] + '::'


# ---- query_map::from: the last pair with the name wins
lastp = z3.Function('lastp', z3.ArraySort(I, Str), z3.ArraySort(I, B), I, Str, I)


def lastdef(P, j, x):
    k, hv = P.arr.f['key'], P.arr.f['has_value']
    return z3.Implies(j >= 0, lastp(k, hv, j + 1, x) == z3.If(z3.And(z3.Select(hv, j), z3.Select(k, j) == x), j, lastp(k, hv, j, x)))


def last_ax():
    k, h = z3.Const('lk', z3.ArraySort(I, Str)), z3.Const('lh', z3.ArraySort(I, B))
    x, j = z3.Const('lx', Str), z3.Int('lj')
    L = lastp(k, h, j + 1, x)
    return [z3.ForAll([k, h, x], lastp(k, h, iv(0), x) == -1, patterns=[lastp(k, h, iv(0), x)])]


def params_of(cx):
    return cx.args[0]


def q_from(cx, r):
    X, P = cx.X, params_of(cx)
    x = X.fresh('xn', Str)
    L = lastp(P.arr.f['key'], P.arr.f['has_value'], P.n, x)
    m = themap(r)
    return [('holds exactly the names given with a value', has(m, x) == (L >= 0)), ('with the value of their last occurrence', z3.Implies(L >= 0, val(m, x) == z3.Select(P.arr.f['value'], L)))]


def from_pool(lc):
    X = lc.X
    if X.verifying is not FROM:
        return
    P = X.cx.args[0]
    a = P.arr.f
    x = z3.Const('xl', Str)
    for c in lc.cells:
        if isinstance(c.val, MapV):
            def fact(s):
                L1 = lastp(a['key'], a['has_value'], s.k + 1, x)
                L = lastp(a['key'], a['has_value'], s.k, x)
                return [z3.ForAll([x], lastdef(P, s.k, x), patterns=[L1]), z3.ForAll([x], lastdef(P, s.k - 1, x), patterns=[L])]
            lc.fact(fact)

            def inv(s, c=c, w=0):
                L = lastp(a['key'], a['has_value'], s.k, x)
                m = s.get(c)
                f = [z3.And(has(m, x) == (L >= 0), L >= -1, L < s.k + 1), z3.Implies(L >= 0, val(m, x) == z3.Select(a['value'], L))][w]
                return z3.ForAll([x], f, patterns=[has(m, x), L])
            lc.add('the map holds the names so far', lambda s: inv(s))
            lc.add('with the values of their last occurrences', lambda s: inv(s, w=1))


def m_params(X, tid, t, name):
    """boost::urls::params_view: a sequence of decoded (key, value, has_value)"""
    A = lambda n, s: X.fresh(name + '_' + n, z3.ArraySort(I, s))
    n = X.fresh(name + '_n', I)
    X.assume(z3.And(n >= 0, n < 1 << 60))
    return Vec(n, Rec('boost::urls::param', {'key': A('key', Str), 'value': A('value', Str), 'has_value': A('hv', B)}), None)


def h_pb(end):
    return lambda X, c: VIter(c.this, c.self().n if end else iv(0))


def pit_inc(X, c):
    it = c.self()
    X.prove('increment of a parameter iterator before the end', it.idx < X.read(it.lv).n)
    X.write(c.this, VIter(it.lv, simp(it.idx + 1)))
    return c.this


def pit_deref(X, c):
    it = c.self()
    v = X.read(it.lv)
    X.prove('dereferenced parameter iterator is not end()', z3.And(it.idx >= 0, it.idx < v.n))
    return mapleaf(v.arr, lambda a: z3.Select(a, it.idx))


PB = 'boost::urls::params_base::'
PH = dict(OH)
PH.update({PB + 'begin': h_pb(False), PB + 'end': h_pb(True), PB + 'iterator::operator++': pit_inc, PB + 'iterator::operator*': pit_deref,
           PB + 'iterator::operator!=': lambda X, c: c.self().idx != c.v(0).idx, PB + 'iterator::operator==': lambda X, c: c.self().idx == c.v(0).idx})
# ---- iteration: each entry once, in some order
DA = z3.ArraySort(Str, B)
ordk = z3.Function('ordk', DA, I, Str)
ordp = z3.Function('ordp', DA, Str, I)
VA = z3.ArraySort(Str, Str)
joined = z3.Function('joined', DA, VA, I, Str)       # the first j pairs, each followed by "&"


def order_facts(m):
    i, x = z3.Int('oi'), z3.Const('ox', Str)
    d = m.dom
    return [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m.n), z3.And(z3.Select(d, ordk(d, i)), ordp(d, ordk(d, i)) == i)), patterns=[ordk(d, i)]),
            z3.ForAll([x], z3.Implies(z3.Select(d, x), z3.And(ordp(d, x) >= 0, ordp(d, x) < m.n, ordk(d, ordp(d, x)) == x)), patterns=[ordp(d, x)])]


def h_mb(end):
    def f(X, c):
        m = c.self()
        for g in order_facts(m):
            X.assume(g)
        return VIter(c.this, m.n if end else iv(0))
    return f


def mit_deref(X, c):
    it = c.self()
    if not isinstance(it, VIter):
        return mapmodel.it_lv(X, it)
    m = X.read(it.lv)
    X.prove('dereferenced map iterator is not end()', z3.And(it.idx >= 0, it.idx < m.n))
    k = ordk(m.dom, it.idx)
    X.assume(mapleaf(m.arr, lambda a: z3.Select(a, k)).f['first'] == k)   # a pair of a map is stored under its own key
    return mapmodel.lvk(it.lv, k)


def mit_inc(X, c):
    it = c.self()
    X.prove('increment of a map iterator before the end', it.idx < X.read(it.lv).n)
    X.write(c.this, VIter(it.lv, simp(it.idx + 1)))
    return c.this


def mit_eq(X, a, b):
    if isinstance(a, VIter) and isinstance(b, VIter):
        return a.idx == b.idx
    return mapmodel.it_eq(X, a, b)


TH = dict(OH)
for _n in ('begin', 'cbegin', 'end', 'cend'):
    TH['std::unordered_map::' + _n] = h_mb(_n.endswith('end'))
for _n in ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
    TH[_n + '::operator*'] = mit_deref
    TH[_n + '::operator->'] = lambda X, c: Ptr(mit_deref(X, c))
    TH[_n + '::operator++'] = mit_inc
for _n in ('std::__detail::_Node_iterator_base', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
    TH['eq:' + _n] = mit_eq
TH['std::__detail::operator=='] = lambda X, c: mit_eq(X, c.v(0), c.v(1))
TH['std::__detail::operator!='] = lambda X, c: z3.Not(mit_eq(X, c.v(0), c.v(1)))


def jdef(X, m, j):
    J = lambda i: joined(m.dom, m.arr.f['second'], i)
    k = ordk(m.dom, j)
    piece = scat(scat(scat(scat(J(j), k), X.litstr('=')), val(m, k)), X.litstr('&'))
    return z3.And(J(iv(0)) == sempty, z3.Implies(j >= 0, J(j + 1) == piece))


def q_str(cx, r):
    X = cx.X
    m = themap(cx.this0)
    J = joined(m.dom, m.arr.f['second'], m.n)
    X.assume(jdef(X, m, m.n - 1))
    R = X.vterm(r)
    return [('empty for an empty map', z3.Implies(m.n == 0, slen(R) == 0)), ('one "name=value" per entry, separated by "&"', z3.Implies(m.n > 0, seqeq(scat(R, X.litstr('&')), J)))]


def str_pool(lc):
    X = lc.X
    if X.verifying is not TOSTR:
        return
    m = themap(X.cx.this0)
    J = lambda i: joined(m.dom, m.arr.f['second'], i)
    lc.fact(lambda s: [jdef(X, m, s.k), jdef(X, m, s.k - 1)])
    for c in lc.strs():
        lc.add('%s holds the pairs so far' % c.name, lambda s, c=c: s.term(s.get(c)) == J(s.k))
        lc.add('%s spells the pairs so far' % c.name, lambda s, c=c: seqeq(s.term(s.get(c)), J(s.k)))
        lc.add('%s spells the pairs so far without the last separator' % c.name, lambda s, c=c: z3.If(s.k == 0, slen(s.term(s.get(c))) == 0, seqeq(scat(s.term(s.get(c)), X.litstr('&')), J(s.k))))


TOSTR = Contract(QM + 'to_string', post=q_str, name='query_map::to_string')
QGET = Contract(QM + 'get', post=q_get, name='query_map::get')
FROM = Contract(QM + 'from', post=q_from, name='query_map::from')
QCON = [Contract(QM + 'set', frame=False, post=q_set, name='query_map::set'), QGET, Contract(QM + 'erase', frame=False, post=q_erase, name='query_map::erase'),
        Contract(QM + 'at', post=q_at, throws=lambda cx: z3.Not(has(themap(cx.this0), karg(cx))), name='query_map::at'),
        Contract(QM + 'operator[]', frame=False, post=q_idx, name='query_map::operator[]'), CONTAINS(QM), SIZE(QM), EMPTY(QM),
        Contract(QM + 'clear', frame=False, post=lambda cx, r: [('no name is left', themap(cx.this1).n == 0), ('no name is present', z3.Not(has(themap(cx.this1), cx.X.fresh('xc', Str))))], name='query_map::clear')]
MIN = {QM + 'get': 4, QM + 'at': 2}
Q01 = [Unit_('query_map', boost=True, targets=[Target(c, min=MIN.get(c.q, 1)) for c in QCON], handlers=OH),
       Unit_('query_map', boost=True, targets=[Target(FROM)], handlers=PH, models={'boost::urls::params_view': m_params}, axioms=last_ax(), pools={'*': [from_pool]}),
       Unit_('query_map', boost=True, targets=[Target(TOSTR)], handlers=TH, pools={'*': [str_pool]})]

# ---- path_info: the names in the order they first occur, each with the value of its last occurrence
KA = z3.ArraySort(I, Str)
firstp = z3.Function('firstp', KA, I, Str, I)      # index of the first of the first j pairs with the name, -1 if none
prev = z3.Function('prevp', KA, I, Str, I)         # index of the last of the first j pairs with the name, -1 if none
nd = z3.Function('ndist', KA, I, I)                # number of names among the first j pairs
kpos = z3.Function('kpos', KA, Str, I)


def occ_ax():
    k, x, j = z3.Const('pk', KA), z3.Const('px', Str), z3.Int('pj')
    return [z3.ForAll([k, x], firstp(k, iv(0), x) == -1, patterns=[firstp(k, iv(0), x)]), z3.ForAll([k, x], prev(k, iv(0), x) == -1, patterns=[prev(k, iv(0), x)]),
            z3.ForAll([k], nd(k, iv(0)) == 0, patterns=[nd(k, iv(0))])]


def occ_def(k, j, x):
    e = z3.Select(k, j) == x
    f, p = firstp(k, j, x), prev(k, j, x)
    return z3.Implies(j >= 0, z3.And(firstp(k, j + 1, x) == z3.If(f >= 0, f, z3.If(e, j, iv(-1))), prev(k, j + 1, x) == z3.If(e, j, p)))


def nd_def(k, j):
    return z3.Implies(j >= 0, nd(k, j + 1) == nd(k, j) + z3.If(firstp(k, j, z3.Select(k, j)) >= 0, iv(0), iv(1)))


def parts(v):
    ks = [x for x in v.f.values() if isinstance(x, Vec)]
    if len(ks) != 1:
        raise Unsupported('the list of keys')
    return ks[0], themap(v)


def p_inv(v, pos):
    """type invariant: the keys are the names of the map, each once"""
    K, m = parts(v)
    i, x = z3.Int('ki'), z3.Const('kx', Str)
    k = z3.Select(K.arr, i)
    px = pos(K.arr, x)
    return [('as many keys as names', K.n == m.n),
            ('every key is a name, and no other key is the same', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K.n), z3.And(has(m, k), pos(K.arr, k) == i)), patterns=[k])),
            ('every name is a key', z3.ForAll([x], z3.Implies(has(m, x), z3.And(px >= 0, px < K.n, z3.Select(K.arr, px) == x)), patterns=[has(m, x)])),
            ('entries are stored under their names', z3.ForAll([x], z3.Implies(has(m, x), entry(m, x).f['first'] == x), patterns=[has(m, x)]))]


def pairs_of(cx):
    P = cx.args[2]
    if not isinstance(P, Vec):
        raise Unsupported('the list of parameters')
    return P.n, P.arr.f['first'], P.arr.f['second']


def strs_of(v):
    return [x for x in v.f.values() if isinstance(x, z3.ExprRef) and x.sort() == Str]


def p_ctor(cx, r):
    X = cx.X
    n, k, vs = pairs_of(cx)
    v = cx.this1
    K, m = parts(v)
    x, j = X.fresh('xn', Str), X.fresh('j', I)
    X.assume(z3.And(occ_def(k, n - 1, x), nd_def(k, n - 1)))
    L, F = prev(k, n, x), firstp(k, n, x)
    ss = strs_of(v)
    kj = z3.Select(K.arr, j)
    return [('keeps the pattern and the path', z3.And(ss[0] == X.vterm(cx.args[0]), ss[1] == X.vterm(cx.args[1]))),
            ('holds exactly the names given', has(m, x) == (L >= 0)), ('with the value of their last occurrence', z3.Implies(L >= 0, val(m, x) == z3.Select(vs, L))),
            ('lists the names in the order of their first occurrence', z3.Implies(F >= 0, z3.And(nd(k, F) < K.n, z3.Select(K.arr, nd(k, F)) == x))),
            ('lists nothing else', z3.Implies(z3.And(j >= 0, j < K.n), z3.And(firstp(k, n, kj) >= 0, nd(k, firstp(k, n, kj)) == j))),
            ('lists each name once', K.n == nd(k, n))] + p_inv(v, lambda a, x: nd(k, firstp(k, n, x)))


def p_pool(lc):
    X = lc.X
    if X.verifying is not PCTOR:
        return
    n, k, vs = pairs_of(X.cx)
    x, i = z3.Const('xl', Str), z3.Int('il')
    lc.fact(lambda s: [z3.ForAll([x], occ_def(k, s.k, x), patterns=[firstp(k, s.k + 1, x)]), z3.ForAll([x], occ_def(k, s.k, x), patterns=[prev(k, s.k + 1, x)]), nd_def(k, s.k)])
    for c in lc.cells:
        if isinstance(c.val, MapV):
            def inv(s, w, c=c):
                m = s.get(c)
                L, F = prev(k, s.k, x), firstp(k, s.k, x)
                f = [z3.And(has(m, x) == (L >= 0), has(m, x) == (F >= 0), L >= -1, L < s.k + 1, F >= -1, F < s.k + 1), z3.Implies(L >= 0, val(m, x) == z3.Select(vs, L)), z3.Implies(has(m, x), entry(m, x).f['first'] == x)][w]
                return z3.ForAll([x], f, patterns=[has(m, x), L, F])
            for w in range(3):
                lc.add('the map follows the pairs so far (%d)' % w, lambda s, w=w, inv=inv: inv(s, w))
            lc.add('one entry per name', lambda s, c=c: s.get(c).n == nd(k, s.k))
        if isinstance(c.val, Vec):
            lc.add('one key per name', lambda s, c=c: s.get(c).n == nd(k, s.k))

            def kinv(s, c=c):
                F = firstp(k, s.k, x)
                return z3.ForAll([x], z3.Implies(F >= 0, z3.And(nd(k, F) >= 0, nd(k, F) < s.get(c).n, z3.Select(s.get(c).arr, nd(k, F)) == x)), patterns=[F])
            lc.add('every name so far is listed at its place', kinv)

            def kinv2(s, c=c):
                K = s.get(c)
                ki = z3.Select(K.arr, i)
                F = firstp(k, s.k, ki)
                return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < K.n), z3.And(F >= 0, nd(k, F) == i)), patterns=[ki])
            lc.add('every key listed is a name so far', kinv2)


def pinv(cx):
    return p_inv(cx.this0, kpos)


def ikey(cx):
    K, m = parts(cx.this0)
    return z3.Select(K.arr, cx.args[0])


def iok(cx):
    K, m = parts(cx.this0)
    return z3.And(cx.args[0] >= 0, cx.args[0] < K.n)


def pi_get(cx, r):
    return get_spec(cx, r, karg(cx))


def pi_geti(cx, r):
    K, m = parts(cx.this0)
    k = ikey(cx)
    ok = isinstance(r, OptRef) and isinstance(r.ref, LV) and refers(cx, r.ref, k)
    return [('a value exactly for an index of a key', r.has == iok(cx)), ('refers to the value in the map', z3.Implies(r.has, z3.BoolVal(bool(ok)))),
            ('the value of that key', z3.Implies(r.has, is_val(cx.X, r.val, val(m, k))))]


def pi_ati(cx, r):
    X = cx.X
    return [('returns only for an index of a key', iok(cx)), ('the value of that key', X.vterm(X.read(r)) == val(parts(cx.this0)[1], ikey(cx)))]


def found(cx, r, k, ok):
    if not isinstance(r, MIter):
        raise Unsupported('the iterator found')
    return [('end() exactly when there is none', r.isend == z3.Not(ok)), ('the entry asked for', z3.Implies(ok, r.key == k)), ('an iterator of the map', z3.BoolVal(isinstance(r.lv, LV) and r.lv.loc == cx.this.loc))]


def pi_keys(cx, r):
    K, m = parts(cx.this0)
    i = cx.X.fresh('i', I)
    return [('the number of keys', r.n == K.n), ('the keys in order', z3.Implies(z3.And(i >= 0, i < K.n), z3.Select(r.arr, i) == z3.Select(K.arr, i)))]


def pi_str(j):
    return lambda cx, r: [('the text given', cx.X.vterm(cx.X.read(r) if isl(r) else r) == strs_of(cx.this0)[j])]


np = lambda n: (lambda X, f: len(f['params']) == n)


def isidx(prog, f):
    return prog.t(prog.strip(f['params'][0]['t']))['k'] == 'int'


def pkind(sort):
    return lambda X, f: X is None or isidx(X.prog, f) == (sort == 'int')


def tgt(c):
    """overloads told apart by the type of their parameter"""
    k = c.name[c.name.find('('):] if '(' in c.name else ''
    return Target(c, match=(lambda p, f: isidx(p, f) == (k == '(index)')) if k else None)


IT = PI + 'const_iterator_impl::'


def it_setup(X, fn):
    """an iterator into some path_info"""
    rec = X.prog.rec[fn['rec']]
    p, f, i = None, {}, X.fresh('at', I)
    for fl in rec['fields']:
        t = X.prog.t(fl['t'])
        if t['k'] == 'ptr':
            lv = X.alloc(X.mk(t['to'], 'parent'), t['to'])
            p = X.read(lv)
            f[fl['n']] = Ptr(lv)
    if p is None:
        raise Unsupported('the parent of an iterator')
    K, m = parts(p)
    for fl in rec['fields']:
        if fl['n'] not in f:
            f[fl['n']] = VIter(lv.f([q for q, y in p.f.items() if y is K][0]), i)
    this = X.alloc(Rec(rec['q'], f), fn['rect'])
    args = [X.mk(q['t'], 'a') for q in fn['params']]
    X.assume(z3.And(i >= 0, i <= K.n))
    for _, g in p_inv(p, kpos):
        X.assume(g)
    return this, args, {}


def it_parts(X, v):
    ptr = [x for x in v.f.values() if isinstance(x, Ptr)][0]
    it = [x for x in v.f.values() if isinstance(x, VIter)][0]
    return ptr, it, X.read(ptr.lv)


def it_here(d):
    def pre(cx):
        _, it, p = it_parts(cx.X, cx.this0)
        return [('not at the end' if d else 'not at the beginning', it.idx < parts(p)[0].n if d else it.idx > 0)]
    return pre


def it_deref(cx, r):
    X = cx.X
    if isinstance(r, Ptr):
        r = r.lv
    ptr, it, p = it_parts(X, cx.this0)
    K, m = parts(p)
    k = z3.Select(K.arr, it.idx)
    e = X.read(r)
    return [('the entry of the key at this place', z3.And(e.f['first'] == k, X.vterm(e.f['second']) == val(m, k))), ('inside the map', z3.BoolVal(isinstance(r, LV) and r.loc == ptr.lv.loc))]


def it_step(d):
    def post(cx, r):
        X = cx.X
        _, i0, _ = it_parts(X, cx.this0)
        pt, i1, _ = it_parts(X, cx.this1)
        g = [('moves by one', i1.idx == i0.idx + d), ('stays in its container', z3.BoolVal(pt.lv.loc == it_parts(X, cx.this0)[0].lv.loc and i1.lv.loc == i0.lv.loc))]
        if len(cx.fn['params']) == 1:
            g.append(('returns the old place', it_parts(X, X.read(r) if isl(r) else r)[1].idx == i0.idx))
        else:
            g.append(('returns itself', z3.BoolVal(isl(r) and r.loc == cx.this.loc)))
        return g
    return post


def it_be(end):
    def post(cx, r):
        X = cx.X
        K, m = parts(cx.this0)
        ptr, it, _ = it_parts(X, r)
        return [('at the ' + ('end' if end else 'beginning'), it.idx == (K.n if end else iv(0))), ('of this object', z3.BoolVal(ptr.lv.loc == cx.this.loc and isinstance(it.lv, LV) and it.lv.loc == cx.this.loc))]
    return post


PCTOR = Contract(PI + '(ctor)', post=p_ctor, match=np(3), name='path_info::path_info(pattern, path, parameters)')
PDEF = Contract(PI + '(ctor)', post=lambda cx, r: [('no parameters', z3.And(parts(cx.this1)[0].n == 0, parts(cx.this1)[1].n == 0)), ('no text', z3.And([slen(x) == 0 for x in strs_of(cx.this1)]))] + p_inv(cx.this1, kpos), match=np(0), name='path_info::path_info()')
PGET = Contract(PI + 'get', post=pi_get, match=pkind('key'), name='path_info::get(key)')
PCON = [PGET, Contract(PI + 'get', pre=pinv, post=pi_geti, match=pkind('int'), name='path_info::get(index)'),
        Contract(PI + 'at', post=q_at, match=pkind('key'), throws=lambda cx: z3.Not(has(themap(cx.this0), karg(cx))), name='path_info::at(key)'),
        Contract(PI + 'at', pre=pinv, post=pi_ati, match=pkind('int'), throws=lambda cx: z3.Not(iok(cx)), name='path_info::at(index)'),
        Contract(PI + 'find', post=lambda cx, r: found(cx, r, karg(cx), has(themap(cx.this0), karg(cx))), match=pkind('key'), name='path_info::find(key)'),
        Contract(PI + 'find', pre=pinv, post=lambda cx, r: found(cx, r, ikey(cx), iok(cx)), match=pkind('int'), name='path_info::find(index)'),
        CONTAINS(PI), SIZE(PI), EMPTY(PI), Contract(PI + 'keys', post=pi_keys, name='path_info::keys'),
        Contract(PI + 'match_pattern', post=pi_str(0), name='path_info::match_pattern'), Contract(PI + 'match_path', post=pi_str(1), name='path_info::match_path')]
PIT = [Contract(IT + 'operator*', setup=it_setup, pre=it_here(True), post=it_deref, name='path_info iterator *'), Contract(IT + 'operator->', setup=it_setup, pre=it_here(True), post=it_deref, name='path_info iterator ->')]
for _n, _d in (('++', 1), ('--', -1)):
    PIT.append(Contract(IT + 'operator' + _n, setup=it_setup, pre=it_here(_d > 0), post=it_step(_d), modifies=lambda cx: [cx.this], frame=False, name='path_info iterator ' + _n))
for _n in ('begin', 'cbegin', 'end', 'cend'):
    PIT.append(Contract(PI + _n, post=it_be(_n.endswith('end')), name='path_info::' + _n))
A01 = [Unit_('query_map', boost=True, targets=[Target(PCTOR, min=2), Target(PDEF)], handlers=OH, pools={'*': [p_pool]}, axioms=occ_ax()),
       Unit_('query_map', boost=True, targets=[tgt(c) for c in PCON + PIT], handlers=OH)]
UNITS = Q01 + A01
