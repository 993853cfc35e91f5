"""core/strings.hpp: contracts shared by every property that goes through it."""
import z3
from sym import *
from engine import *
from base import *
from stdmodel import tolower_t, isspace_t, inset, StrIt
import loops

j_ = z3.Int('jq')


def low(b, i):
    return tolower_t(sat(b, i))


def chk(t):
    """character range"""
    return z3.And(t >= -128, t <= 127)


# ---- case-insensitive comparison
def eq_post(cx, r):
    X = cx.X
    a, b = X.as_view(cx.args[0]), X.as_view(cx.args[1])
    w = X.fresh('eqw', I)
    j = z3.Int('jq')
    same = z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), low(a.base, a.off + j) == low(b.base, b.off + j))))
    return [('true only for equal-length texts equal up to ASCII case', z3.Implies(r, same)),
            ('false only for texts that differ beyond ASCII case', z3.Implies(same, r))]


def eq_spec(X, a, b):
    j = z3.Int('jq')
    return z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), low(a.base, a.off + j) == low(b.base, b.off + j))))


def lexrel(a, b, r, p):
    """r is the lexicographic comparison of lower(a), lower(b); p the first difference / common length"""
    j = z3.Int('jq')
    m = z3.If(a.n < b.n, a.n, b.n)
    return [p >= 0, p <= m,
            z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), low(a.base, a.off + j) == low(b.base, b.off + j))),
            z3.Implies(p == m, r == z3.If(a.n < b.n, iv(-1), z3.If(a.n == b.n, iv(0), iv(1)))),
            z3.Implies(p < m, z3.And(low(a.base, a.off + p) != low(b.base, b.off + p),
                                     r == z3.If(low(a.base, a.off + p) < low(b.base, b.off + p), iv(-1), iv(1))))]


# first position where two windows differ beyond case, as a function (exists for all texts)
fdiff = z3.Function('fdiff', Str, I, I, Str, I, I, I)


def fdiff_fact(a, b):
    p = fdiff(a.base, a.off, a.n, b.base, b.off, b.n)
    m = z3.If(a.n < b.n, a.n, b.n)
    j = z3.Int('jq')
    return p, z3.And(p >= 0, p <= m,
                     z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), low(a.base, a.off + j) == low(b.base, b.off + j))),
                     z3.Implies(p < m, low(a.base, a.off + p) != low(b.base, b.off + p)))


def tw_post(cx, r):
    X = cx.X
    a, b = X.as_view(cx.args[0]), X.as_view(cx.args[1])
    p, f = fdiff_fact(a, b)
    X.assume(f)
    return [('lexicographic order of the lower-cased texts', z3.And(lexrel(a, b, r, p)))]


def first_difference_pool(lc):
    """loop walking two windows in step: everything before is equal up to case"""
    X = lc.X
    if X.verifying not in CONTRACTS:
        return
    cs = lc.of(SPtr)
    j = z3.Int('jq')
    for a in cs:
        for b in cs:
            if a is b or a.val.base.eq(b.val.base):
                continue
            a0, b0 = lc.e(a), lc.e(b)
            lc.add('prefix equal %s %s' % (a.name, b.name), lambda s, a=a, b=b, a0=a0, b0=b0: z3.ForAll(
                [j], z3.Implies(z3.And(j >= 0, j < s.k), low(a0.base, a0.idx + j) == low(b0.base, b0.idx + j))))
    ex = X.frame().vars
    views = []
    for v in ex.values():
        if isinstance(v, LV):
            try:
                x = X.read(v)
            except Unsupported:
                continue
            if isinstance(x, View):
                views.append(x)
    for a in views:
        for b in views:
            if a is not b:
                lc.add('views equal before k', lambda s, a=a, b=b: z3.ForAll(
                    [j], z3.Implies(z3.And(j >= 0, j < s.k), low(a.base, a.off + j) == low(b.base, b.off + j))))
                lc.add('k within', lambda s, a=a, b=b: z3.And(s.k <= a.n, s.k <= b.n))


# ---- trimming
# tlo/thi(s,lo,hi): the trimmed window of s[lo,hi)
tlo = z3.Function('tlo', Str, I, I, I)
thi = z3.Function('thi', Str, I, I, I)


def trim_axioms():
    s = z3.Const('s', Str)
    a, b, q = z3.Ints('a b q')
    L, H_ = tlo(s, a, b), thi(s, a, b)
    A = z3.ForAll
    return [A([s, a, b], z3.Implies(a <= b, z3.And(a <= L, L <= H_, H_ <= b, z3.Implies(L < H_, z3.And(z3.Not(ws(sat(s, L))), z3.Not(ws(sat(s, H_ - 1))))))), patterns=[L]),
            A([s, a, b], z3.Implies(a <= b, z3.And(a <= L, L <= H_, H_ <= b)), patterns=[H_]),
            A([s, a, b, q], z3.Implies(z3.And(a <= q, q < b, z3.Or(q < L, q >= H_)), ws(sat(s, q))), patterns=[z3.MultiPattern(L, sat(s, q))])]


def win(base, lo, hi):
    """the trimmed window as a View"""
    return View(base, tlo(base, lo, hi), thi(base, lo, hi) - tlo(base, lo, hi))


def ws(c):
    return isspace_t(c)


def trim_facts(v, r, left, right):
    """r is v with all leading (left) / trailing (right) white space removed"""
    j = z3.Int('jq')
    fs = [('result is a window of the argument', z3.And(r.base == v.base, r.n >= 0, r.off >= v.off, r.off + r.n <= v.off + v.n))]
    if not left:
        fs.append(('the front is kept', r.off == v.off))
    else:
        fs.append(('only white space is dropped in front', z3.ForAll([j], z3.Implies(z3.And(j >= v.off, j < r.off), ws(sat(v.base, j))))))
        fs.append(('no white space is left in front', z3.Implies(r.n > 0, z3.Not(ws(sat(v.base, r.off))))))
    if not right:
        fs.append(('the back is kept', r.off + r.n == v.off + v.n))
    else:
        fs.append(('only white space is dropped at the back', z3.ForAll([j], z3.Implies(z3.And(j >= r.off + r.n, j < v.off + v.n), ws(sat(v.base, j))))))
        fs.append(('no white space is left at the back', z3.Implies(r.n > 0, z3.Not(ws(sat(v.base, r.off + r.n - 1))))))
    if left and right:
        w = win(v.base, v.off, v.off + v.n)
        fs.append(('the window is the trimmed one', z3.And(r.n == w.n, z3.Implies(r.n > 0, r.off == w.off))))
    return fs


def trim_con(q, left, right, one):
    def ret(cx):
        X = cx.X
        v = cx.args[0]
        return View(v.base, X.fint('to'), X.fint('tn'))

    def match(X, fn):
        return len(fn['params']) == (1 if one else 2)

    def match_used(X, fn):
        return match(X, fn)
    return Contract(q, post=lambda cx, r: trim_facts(cx.args[0], r, left, right), mkret=ret, match=match_used,
                    name=q + ('(sv)' if one else '(sv,is_space)'), setup=None if one else pred_setup)


def pred_setup(X, fn):
    """the predicate parameter is is_space (the only instantiation in the library)"""
    sv = X.mk(fn['params'][0]['t'], 'sv')
    f = X.prog.find('fitoria::is_space', body=True)
    if not f:
        raise Unsupported('is_space not found')
    return None, [sv, FnV(f[0]['id'])], {}


def space_pool(lc):
    X = lc.X
    if X.verifying not in CONTRACTS:
        return
    j = z3.Int('jq')
    for c in lc.of(View):
        e0 = lc.e(c)
        lc.add('%s dropped front is space' % c.name, lambda s, c=c, e0=e0: z3.ForAll(
            [j], z3.Implies(z3.And(j >= e0.off, j < s.get(c).off), ws(sat(e0.base, j)))))
        lc.add('%s dropped back is space' % c.name, lambda s, c=c, e0=e0: z3.ForAll(
            [j], z3.Implies(z3.And(j >= s.get(c).off + s.get(c).n, j < e0.off + e0.n), ws(sat(e0.base, j)))))
    # index-style loops: everything between the initial and the current index is white space
    views = []
    for v in X.frame().vars.values():
        if isinstance(v, LV):
            x = lc.entry.store.get(v.loc)
            if isinstance(x, View) and not v.path:
                views.append(x)
    for c in lc.ints():
        e0 = lc.e(c)
        for x in views:
            lc.add('%s..: space in front' % c.name, lambda s, c=c, e0=e0, x=x: z3.ForAll(
                [j], z3.Implies(z3.And(j >= x.off + e0, j < x.off + s.get(c)), ws(sat(x.base, j)))))
            lc.add('%s..: space at back' % c.name, lambda s, c=c, e0=e0, x=x: z3.ForAll(
                [j], z3.Implies(z3.And(j >= x.off + s.get(c), j < x.off + e0), ws(sat(x.base, j)))))
            lc.add('%s within view' % c.name, lambda s, c=c, x=x: s.get(c) <= x.n)
    for c in lc.of(SPtr):
        e0 = lc.e(c)
        lc.add('%s..: space in front' % c.name, lambda s, c=c, e0=e0: z3.ForAll(
            [j], z3.Implies(z3.And(j >= e0.idx, j < s.get(c).idx), ws(sat(e0.base, j)))))
        lc.add('%s..: space at back' % c.name, lambda s, c=c, e0=e0: z3.ForAll(
            [j], z3.Implies(z3.And(j >= s.get(c).idx, j < e0.idx), ws(sat(e0.base, j)))))


LTRIM = trim_con('fitoria::ltrim', True, False, True)
RTRIM = trim_con('fitoria::rtrim', False, True, True)
TRIM = trim_con('fitoria::trim', True, True, True)
LTRIM2 = trim_con('fitoria::ltrim', True, False, False)
RTRIM2 = trim_con('fitoria::rtrim', False, True, False)
TRIM2 = trim_con('fitoria::trim', True, True, False)


# ---- splitting
# nxt(s,d,p,e): least q in [p,e) whose character is a delimiter, else e
nxt = z3.Function('nxt', Str, Str, I, I, I)
# bnd(s,d,o,e,k): first position of piece k of the window [o,e)
bnd = z3.Function('bnd', Str, Str, I, I, I, I)
# npc(s,d,o,e): number of pieces
npc = z3.Function('npc', Str, Str, I, I, I)


def split_axioms():
    s, d = z3.Consts('s d', Str)
    p, e, q, o, k = z3.Ints('p e q o k')
    A = z3.ForAll
    N = nxt(s, d, p, e)
    return trim_axioms() + [
        A([s, d, p, e], z3.Implies(p <= e, z3.And(N >= p, N <= e, z3.Implies(N < e, inset(d, sat(s, N))))), patterns=[N]),
        A([s, d, p, e, q], z3.Implies(z3.And(q >= p, q < N), z3.Not(inset(d, sat(s, q)))), patterns=[z3.MultiPattern(N, sat(s, q))]),
        A([s, d, o, e], bnd(s, d, o, e, 0) == o, patterns=[bnd(s, d, o, e, 0)]),
    ]


def bnd_step(s, d, o, e, k):
    """definition of piece k+1 while piece k is not the last"""
    b = bnd(s, d, o, e, k)
    return z3.And(bnd(s, d, o, e, 0) == o, z3.Implies(z3.And(k >= 0, nxt(s, d, b, e) < e), bnd(s, d, o, e, k + 1) == nxt(s, d, b, e) + 1))


def nxt_is(s, d, p, e, q):
    """lemma instance: a delimiter at q with none before is the next one"""
    return nxt(s, d, p, e) == q


def istrim(r, base, lo, hi):
    return z3.And([f for _, f in trim_facts(View(base, lo, hi - lo), r, True, True)])


def split_post(cx, r):
    X = cx.X
    v = cx.args[0]
    d = X.vterm(cx.args[1])
    e = v.off + v.n
    n = r.n
    j = X.fresh('sj', I)
    N = lambda k: nxt(v.base, d, bnd(v.base, d, v.off, e, k), e)
    Bk = lambda k: bnd(v.base, d, v.off, e, k)
    el = X.sel(r, ('i', j))
    fs = [('at least one token', n >= 1),
          ('the last token ends where the text ends', N(n - 1) == e),
          ('every earlier token ends at a delimiter', z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n - 1), N(j_) < e)))]
    if cx.proving:
        for nm, f in trim_facts(View(v.base, Bk(j), N(j) - Bk(j)), el, True, True):
            fs.append(('token j is the trimmed j-th delimiter-free piece: ' + nm, z3.Implies(z3.And(j >= 0, j < n), f)))
    else:
        # the part callers need: the token is the trimmed window (tlo, thi have the other facts as axioms)
        j = z3.Int('jt')
        el = X.sel(r, ('i', j))
        w = win(v.base, Bk(j), N(j))
        g = z3.Implies(z3.And(j >= 0, j < n), z3.And(el.n == w.n, el.n >= 0, el.off >= Bk(j), el.off + el.n <= N(j), Bk(j) >= v.off, N(j) <= e, z3.Implies(el.n > 0, el.off == w.off)))
        fs.append(('token j is the trimmed j-th delimiter-free piece', z3.ForAll([j], g, patterns=[el.n, el.off])))
        fs += [('definition of the pieces', bnd_step(v.base, d, v.off, e, iv(k))) for k in range(2)]
        # the clauses above determine the number of pieces; npc names it
        fs.append(('name of the number of pieces', n == npc(v.base, d, v.off, e)))
    return fs


def split_ret(cx):
    X = cx.X
    v = cx.args[0]
    return Vec(X.fint('ntok'), View(z3.K(I, v.base), X.fresh('to', z3.ArraySort(I, I)), X.fresh('tn', z3.ArraySort(I, I))))


def split_pool(lc):
    X = lc.X
    vecs = [c for c in lc.cells if isinstance(c.val, Vec)]
    args = getattr(X.cx, 'args', None)
    if X.verifying is not SPLIT:
        return
    v0 = X.cx.args[0]
    d = X.vterm(X.cx.args[1])
    e = v0.off + v0.n
    base = v0.base
    Bk = lambda k: bnd(base, d, v0.off, e, k)
    N = lambda k: nxt(base, d, Bk(k), e)
    lc.fact(lambda s: [bnd_step(base, d, v0.off, e, s.k - 1), bnd_step(base, d, v0.off, e, s.k)])
    lc.add('earlier pieces end at a delimiter', lambda s: z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < s.k), N(j_) < e)))
    lc.add('piece start within', lambda s: z3.And(Bk(s.k) >= v0.off, Bk(s.k) <= e))
    for c in lc.of(View):
        lc.add('%s starts at piece k' % c.name, lambda s, c=c: s.get(c).off == Bk(s.k))
    for c in lc.ints():
        e0 = lc.e(c)
        lc.add('%s is piece start' % c.name, lambda s, c=c: v0.off + s.get(c) == Bk(s.k))
        lc.add('%s is next delimiter (absolute) or npos' % c.name, lambda s, c=c: s.get(c) == z3.If(N(s.k) < e, N(s.k) - v0.off, iv((1 << 64) - 1)))
        lc.add('%s is next delimiter (relative) or npos' % c.name, lambda s, c=c: s.get(c) == z3.If(N(s.k) < e, N(s.k) - Bk(s.k), iv((1 << 64) - 1)))
        lc.add('%s is next delimiter (absolute) or end' % c.name, lambda s, c=c: s.get(c) == N(s.k) - v0.off)
    for c in vecs:
        j = z3.Int('jt')
        names = [nm for nm, _ in trim_facts(View(base, iv(0), iv(0)), View(base, iv(0), iv(0)), True, True)]
        for i, nm in enumerate(names):
            lc.add('%s tokens so far: %s' % (c.name, nm), lambda s, c=c, i=i: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.k),
                   trim_facts(View(base, Bk(j), N(j) - Bk(j)), X.sel(s.get(c), ('i', j)), True, True)[i][1])))


SPLIT = Contract('fitoria::split_of', post=split_post, mkret=split_ret, name='fitoria::split_of')
EQ = Contract('fitoria::cmp_eq_ci', post=eq_post, name='fitoria::cmp_eq_ci')
TW = Contract('fitoria::cmp_tw_ci', post=tw_post, name='fitoria::cmp_tw_ci')
CONTRACTS = [EQ, TW, LTRIM, RTRIM, TRIM, LTRIM2, RTRIM2, TRIM2, SPLIT]
TARGETS = [Target(c) for c in CONTRACTS]
POOLS = {'*': [space_pool, first_difference_pool], 'fitoria::split_of': [split_pool]}


def pools(*extra):
    """these pools plus others, for units that use the contracts of this file"""
    return {'*': [space_pool, first_difference_pool, split_pool] + list(extra)}


def deps(*more):
    return list(more) + CONTRACTS


# ---- laws
def views(X, n):
    return [View(X.fresh('s%d' % i, Str), iv(0), slen(z3.Const('s%d!%d' % (i, X.st.ctr), Str))) for i in range(n)]


def order_lemma(X):
    vs = []
    for nm in 'abc':
        t = X.fresh(nm, Str)
        X.assume(slen(t) >= 0)
        vs.append(View(t, iv(0), slen(t)))
    a, b, c = vs

    def tw(x, y, nm):
        r, p = X.fresh(nm, I), X.fresh(nm + 'p', I)
        for f in lexrel(x, y, r, p):
            X.assume(f)
        return r, p
    ab, pab = tw(a, b, 'ab')
    ba, pba = tw(b, a, 'ba')
    bc, pbc = tw(b, c, 'bc')
    ac, pac = tw(a, c, 'ac')
    aa, paa = tw(a, a, 'aa')
    E = eq_spec(X, a, b)
    yield 'the order is reflexive', aa == 0
    yield 'the order is antisymmetric', ab == -ba
    yield 'the order is transitive', z3.Implies(z3.And(ab <= 0, bc <= 0), z3.And(ac <= 0, z3.Implies(ac == 0, z3.And(ab == 0, bc == 0))))
    yield 'equality agrees with the order', (ab == 0) == E
    yield 'equality is symmetric', E == eq_spec(X, b, a)
    yield 'equality is transitive', z3.Implies(z3.And(E, eq_spec(X, b, c)), eq_spec(X, a, c))


def trim_lemma(X):
    t = X.fresh('t', Str)
    X.assume(slen(t) >= 0)
    v = View(t, iv(0), slen(t))
    r1 = View(t, X.fint('o'), X.fint('n'))
    r2 = View(t, X.fint('o'), X.fint('n'))
    for _, f in trim_facts(v, r1, True, True):
        X.assume(f)
    for _, f in trim_facts(r1, r2, True, True):
        X.assume(f)
    yield 'trim is idempotent', z3.And(r1.n == r2.n, z3.Implies(r1.n > 0, r1.off == r2.off))
    r3 = View(t, X.fint('o'), X.fint('n'))
    for _, f in trim_facts(v, r3, True, True):
        X.assume(f)
    yield 'trim is a function of the text', z3.And(r1.n == r3.n, z3.Implies(r1.n > 0, r1.off == r3.off))


def U_(cons, lemmas=()):
    return Unit_('strings', contracts=CONTRACTS, targets=[Target(c) for c in cons], axioms=split_axioms(), pools=POOLS, lemmas=lemmas)


S01 = [U_([EQ, TW], [Lemma('cmp_tw_ci is a total order and cmp_eq_ci its equality', order_lemma)])]
S02 = [U_([LTRIM, RTRIM, TRIM, LTRIM2, RTRIM2, TRIM2, SPLIT], [Lemma('trim laws', trim_lemma)])]
UNITS = S01 + S02
