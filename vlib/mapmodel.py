"""Assumed contracts of std::map and std::unordered_map: a finite map from normalised keys to (key, value) entries."""
import z3
from sym import *
from engine import *
from interp import *
import stdmodel
from stdmodel import H, h, MODELS, tolower_t, copy_or_move, convert

fold = z3.Function('fold', Str, Str)     # ASCII lower case


def fold_axioms():
    s = z3.Const('s', Str)
    i = z3.Int('i')
    return [z3.ForAll([s], slen(fold(s)) == slen(s), patterns=[fold(s)]),
            z3.ForAll([s, i], z3.Implies(z3.And(i >= 0, i < slen(s)), sat(fold(s), i) == tolower_t(sat(s, i))), patterns=[sat(fold(s), i)])]


# key classes: how a key value becomes a term; equal terms = equivalent keys
NORM = {}


def norm(X, v, kt):
    if isinstance(v, tuple):
        v = SPtr(v[1], iv(0))
    q = X.prog.t(X.prog.strip(kt)).get('q')
    f = NORM.get(q)
    if f:
        return f(X, v)
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, (View, SPtr)):
        return X.vterm(v)
    raise Unsupported('map key of class %s' % q)


def ksort(X, kt):
    t = X.prog.t(X.prog.strip(kt))
    q = t.get('q')
    if q in NORM or q in ('std::basic_string', 'std::basic_string_view'):
        return Str
    if t['k'] in ('int', 'enum') or q == 'std::type_index':
        return I
    raise Unsupported('map key of class %s' % q)


def mktypes(t):
    return t['ta'][0]['t'], t['ta'][1]['t']


def template(X, t, name):
    kt, vt = mktypes(t)
    return Rec('std::pair', {'first': X.mk(kt, name + '_k'), 'second': X.mk(vt, name + '_v')})


def m_map(X, tid, t, name):
    kt, vt = mktypes(t)
    K = ksort(X, kt)
    arr = mapleaf(template(X, t, name), lambda l: X.fresh(name + '_m', z3.ArraySort(K, l.sort())))
    dom = X.fresh(name + '_dom', z3.ArraySort(K, B))
    n = X.fresh(name + '_n', I)
    m = MapV(dom, arr, n, kt, vt, K)
    assume_wf(X, m)
    return m


def assume_wf(X, m):
    x = z3.Const('xk', m.norm)
    X.assume(z3.And(m.n >= 0, m.n < (1 << 60)))
    X.assume(z3.ForAll([x], z3.Implies(z3.Select(m.dom, x), m.n > 0), patterns=[z3.Select(m.dom, x)]))
    w = X.fresh('xw', m.norm)
    X.assume(z3.Implies(m.n > 0, z3.Select(m.dom, w)))


def empty(X, tid, t):
    kt, vt = mktypes(t)
    K = ksort(X, kt)
    arr = mapleaf(template(X, t, 'm0'), lambda l: X.fresh('m0', z3.ArraySort(K, l.sort())))
    return MapV(z3.K(K, z3.BoolVal(False)), arr, iv(0), kt, vt, K)


def put(X, m, k, key, val):
    """entry for normalised key k (the stored key is kept when present)"""
    old = mapleaf(m.arr, lambda a: z3.Select(a, k))
    isin = z3.Select(m.dom, k)
    nk = map2leaf(old.f['first'], key, lambda a, b: z3.If(isin, a, b)) if key is not None else old.f['first']
    arr = m.arr
    ent = Rec('std::pair', {'first': nk, 'second': val})
    arr = map2leaf(arr, ent, lambda a, e: z3.Store(a, k, e))
    return MapV(z3.Store(m.dom, k, z3.BoolVal(True)), arr, simp(m.n + z3.If(isin, iv(0), iv(1))), m.kt, m.vt, m.norm)


def keyval(X, v, kt):
    """stored key object from an argument"""
    return convert(X, v, None, kt)


def default_value(X, vt):
    return X.zero(vt)


MAPS = ('std::map', 'std::unordered_map')


def node(c, k, isend=False):
    return MIter(c.this, z3.BoolVal(isend) if isinstance(isend, bool) else isend, k)


def lvk(lv, k):
    if isinstance(lv, ValLV):
        return ValLV(mapleaf(lv.val.arr, lambda a: z3.Select(a, k)))
    return lv.step('k', k)


def _reg(Q):
    MODELS[Q] = m_map
    H['default:' + Q] = empty
    q = Q + '::'

    @h('ctor:' + Q)
    def _(X, e, fn, tid, t):
        if fn.get('cpctor') or fn.get('mvctor'):
            r = copy_or_move(X, e, fn)
            if fn.get('mvctor'):
                src = X.ev(e['a'][0]) if False else None
            return r
        if not e['a']:
            return empty(X, tid, t)
        raise Unsupported('map constructor')

    @h(q + 'size')
    def _(X, c):
        return c.self().n

    @h(q + 'empty')
    def _(X, c):
        return c.self().n == 0

    @h(q + 'clear')
    def _(X, c):
        m = c.self()
        X.write(c.this, MapV(z3.K(m.norm, z3.BoolVal(False)), m.arr, iv(0), m.kt, m.vt, m.norm))
        return UNIT

    @h(q + 'contains', q + 'count')
    def _(X, c):
        m = c.self()
        r = z3.Select(m.dom, norm(X, c.v(0), m.kt))
        return r if c.fn['name'] == 'contains' else z3.If(r, iv(1), iv(0))

    @h(q + 'find')
    def _(X, c):
        m = c.self()
        k = norm(X, c.v(0), m.kt)
        return MIter(c.this, simp(z3.Not(z3.Select(m.dom, k))), k)

    @h(q + 'end', q + 'cend')
    def _(X, c):
        return MIter(c.this, z3.BoolVal(True), X.fresh('endk', c.self().norm))

    @h(q + 'at')
    def _(X, c):
        m = c.self()
        k = norm(X, c.v(0), m.kt)
        if not X.branch(z3.Select(m.dom, k)):
            raise CppThrow(None, 'out_of_range')
        return lvk(c.this, k).f('second') if isinstance(c.this, LV) else ValLV(lvk(c.this, k).val.f['second'])

    @h(q + 'operator[]')
    def _(X, c):
        m = c.self()
        kv = c.v(0)
        k = norm(X, kv, m.kt)
        if not X.branch(z3.Select(m.dom, k)):
            X.write(c.this, put(X, m, k, keyval(X, kv, m.kt), default_value(X, m.vt)))
        mvsrc(X, c, 0)
        return c.this.step('k', k).f('second')

    def insert(X, c, key, val, assign):
        m = c.self()
        k = norm(X, key, m.kt)
        new = not X.branch(z3.Select(m.dom, k)) if True else None
        if new or assign:
            X.write(c.this, put(X, m, k, keyval(X, key, m.kt), convert(X, val, None, m.vt)))
        return Rec('std::pair', {'first': MIter(c.this, z3.BoolVal(False), k), 'second': z3.BoolVal(bool(new))})

    @h(q + 'insert')
    def _(X, c):
        if len(c.args) != 1:
            raise Unsupported('map insert form')
        p = c.v(0)
        if isinstance(p, Rec) and list(p.f) == ['first', 'second']:
            return insert(X, c, p.f['first'], p.f['second'], False)
        raise Unsupported('map insert form')

    @h(q + 'insert_or_assign')
    def _(X, c):
        if len(c.args) != 2:
            raise Unsupported('map insert form')
        r = insert(X, c, c.v(0), c.v(1), True)
        mvsrc(X, c, 0), mvsrc(X, c, 1)
        return r

    @h(q + 'try_emplace', q + 'emplace')
    def _(X, c):
        if len(c.args) != 2:
            raise Unsupported('map emplace form')
        return insert(X, c, c.v(0), c.v(1), False)

    @h(q + 'erase')
    def _(X, c):
        m = c.self()
        a = c.v(0)
        if len(c.args) != 1:
            raise Unsupported('map erase form')
        if isinstance(a, MIter):
            X.prove('erased iterator is not end()', z3.Not(a.isend))
            k = a.key
            X.prove('erased iterator refers to an element', z3.Select(m.dom, k))
            nn, ret = m.n - 1, MIter(c.this, X.fresh('nxend', B), X.fresh('nxk', m.norm))
        else:
            k = norm(X, a, m.kt)
            isin = z3.Select(m.dom, k)
            nn, ret = m.n - z3.If(isin, iv(1), iv(0)), z3.If(isin, iv(1), iv(0))
        m2 = MapV(z3.Store(m.dom, k, z3.BoolVal(False)), m.arr, simp(nn), m.kt, m.vt, m.norm)
        assume_wf(X, m2)
        X.write(c.this, m2)
        return ret

    @h(q + 'operator=')
    def _(X, c):
        v = c.v(0)
        X.write(c.this, v)
        if c.fn.get('mvasg') and isinstance(c.args[0], LV):
            X.write(c.args[0], X.moved(v))
        return c.this


def mvsrc(X, c, i):
    """an rvalue string argument may be moved from"""
    p = c.fn['params'][i]['t'] if i < len(c.fn['params']) else None
    if p is not None and X.prog.t(p)['k'] == 'rref' and isinstance(c.args[i], LV):
        v = X.read(c.args[i])
        if isinstance(v, z3.ExprRef) and v.sort() == Str:
            X.write(c.args[i], X.moved(v))


for _q in MAPS:
    _reg(_q)


def it_lv(X, it):
    X.prove('dereferenced map iterator is not end()', z3.Not(it.isend))
    return lvk(it.lv, it.key)


for _it in ('std::_Rb_tree_iterator::', 'std::_Rb_tree_const_iterator::', 'std::__detail::_Node_iterator::', 'std::__detail::_Node_const_iterator::'):
    H[_it + 'operator*'] = lambda X, c: it_lv(X, c.self())
    H[_it + 'operator->'] = lambda X, c: Ptr(it_lv(X, c.self()))
    H['ctor:' + _it[:-2]] = lambda X, e, fn, tid, t: X.rv(e['a'][0])
H['deref:MIter'] = it_lv


def it_eq(X, a, b):
    if not isinstance(a, MIter) or not isinstance(b, MIter):
        raise Unsupported('comparison of map iterators')
    ea, eb = simp(a.isend), simp(b.isend)
    if z3.is_true(eb):
        return ea
    if z3.is_true(ea):
        return eb
    return z3.Or(z3.And(ea, eb), z3.And(z3.Not(ea), z3.Not(eb), a.key == b.key))


for _it in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator_base', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
    H['eq:' + _it] = it_eq
H['std::__detail::operator=='] = lambda X, c: it_eq(X, c.v(0), c.v(1))
H['std::__detail::operator!='] = lambda X, c: z3.Not(it_eq(X, c.v(0), c.v(1)))
