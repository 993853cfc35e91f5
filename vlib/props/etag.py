"""http/header/entity_tag.hpp, if_none_match.hpp."""
import z3
from sym import *
from engine import *
from base import *
from props import strings
from props.strings import win, tlo, thi

Q = 'fitoria::http::header::entity_tag::'
QN = 'fitoria::http::header::if_none_match::'


def etagc(c):
    """RFC 9110 etagc: %x21 / %x23-7E / obs-text; c is a signed char"""
    return z3.Or(c == 0x21, z3.And(c >= 0x23, c <= 0x7e), z3.And(c >= -128, c <= -1))


class Tag:
    """the entity tag written in base[lo,hi)"""
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi
        self.weak = z3.And(hi - lo >= 2, sat(base, lo) == ord('W'), sat(base, lo + 1) == ord('/'))
        self.p = z3.If(self.weak, lo + 2, lo)
        self.a, self.b = self.p + 1, hi - 1
        self.quoted = z3.And(hi - self.p >= 2, sat(base, self.p) == 34, sat(base, hi - 1) == 34)
        q = z3.Int('qe')
        self.clean = z3.ForAll([q], z3.Implies(z3.And(q >= self.a, q < self.b), etagc(sat(base, q))), patterns=[sat(base, q)])
        self.ok = z3.And(self.quoted, self.clean)

    def value(self):
        return View(self.base, self.a, self.b - self.a)


def parse_post(cx, r):
    X = cx.X
    v = cx.args[0]
    t = Tag(v.base, v.off, v.off + v.n)
    return [('accepted only with quotes around', z3.Implies(r.has, t.quoted)),
            ('accepted only with valid characters', z3.Implies(r.has, t.clean)),
            ('rejected only outside the grammar', z3.Implies(z3.Not(r.has), z3.Not(t.ok))),
            ('weak exactly with W/', z3.Implies(r.has, r.val.f['strong_'] == z3.Not(t.weak))),
            ('the value is what stands between the quotes', z3.Implies(r.has, X.streq(r.val.f['value_'], t.value())))]


PARSE = Contract(Q + 'parse', post=parse_post, name='entity_tag::parse')


def parse_pool(lc):
    """characters visited so far are valid"""
    X = lc.X
    q = z3.Int('qe')
    if X.verifying is not PARSE:
        return
    v = X.cx.args[0]
    for c in lc.of(SPtr):
        e0 = lc.e(c)
        lc.add('%s: valid so far' % c.name, lambda s, c=c, e0=e0: z3.ForAll([q], z3.Implies(z3.And(q >= e0.idx, q < s.get(c).idx), etagc(sat(e0.base, q))), patterns=[sat(e0.base, q)]))
    for c in lc.ints():
        e0 = lc.e(c)
        for x in loc_views(lc):
            lc.add('%s: valid so far' % c.name, lambda s, c=c, e0=e0, x=x: z3.ForAll([q], z3.Implies(z3.And(q >= x.off + e0, q < x.off + s.get(c)), etagc(sat(x.base, q))), patterns=[sat(x.base, q)]))


def loc_views(lc):
    r = []
    for v in lc.X.frame().vars.values():
        if isinstance(v, LV) and not v.path:
            x = lc.entry.store.get(v.loc)
            if isinstance(x, View):
                r.append(x)
    return r


def to_string_post(cx, r):
    X = cx.X
    o = cx.this0
    val, strong = o.f['value_'], o.f['strong_']
    n = slen(val)
    i = X.fresh('si', I)
    k = z3.If(strong, iv(1), iv(3))
    return [('length', slen(r) == n + 1 + k), ('opening', z3.And(sat(r, k - 1) == 34, z3.Implies(z3.Not(strong), z3.And(sat(r, 0) == ord('W'), sat(r, 1) == ord('/'))))),
            ('value inside', z3.Implies(z3.And(i >= 0, i < n), sat(r, k + i) == sat(val, i)) if cx.proving else
             z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), sat(r, k + i) == sat(val, i)))), ('closing', sat(r, k + n) == 34)]


TOSTR = Contract(Q + 'to_string', post=to_string_post, name='entity_tag::to_string')


def eq_post(cx, r):
    X = cx.X
    a, b = cx.args
    return [('equal exactly with the same kind and value', r == z3.And(a.f['strong_'] == b.f['strong_'], seqeq(a.f['value_'], b.f['value_'])))]


def is_tag(X, fn):
    return X is None or all(X.prog.t(X.prog.strip(p['t'])).get('q') == 'fitoria::http::header::entity_tag' for p in fn['params'])


EQ = Contract('fitoria::http::header::operator==', post=eq_post, name='entity_tag::operator==', match=is_tag)
WEAK = Contract(Q + 'weakly_equal_to', post=lambda cx, r: [('equal exactly with the same value', r == seqeq(cx.this0.f['value_'], cx.args[0].f['value_']))], name='entity_tag::weakly_equal_to')
MKS = Contract(Q + 'make_strong', post=lambda cx, r: [('strong, with the value', z3.And(r.f['strong_'], seqeq(r.f['value_'], cx.args[0])))], name='entity_tag::make_strong')
MKW = Contract(Q + 'make_weak', post=lambda cx, r: [('weak, with the value', z3.And(z3.Not(r.f['strong_']), seqeq(r.f['value_'], cx.args[0])))], name='entity_tag::make_weak')


def roundtrip(X):
    """parse(to_string(t)) == t for every tag whose value has valid characters only"""
    val, text = X.fresh('val', Str), X.fresh('text', Str)
    strong = X.fresh('strong', B)
    q = z3.Int('qv')
    n = slen(val)
    X.assume(n >= 0)
    X.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), etagc(sat(val, q))), patterns=[sat(val, q)]))
    k = z3.If(strong, iv(1), iv(3))
    X.assume(slen(text) == n + 1 + k)
    X.assume(z3.And(sat(text, k - 1) == 34, z3.Implies(z3.Not(strong), z3.And(sat(text, 0) == ord('W'), sat(text, 1) == ord('/'))), sat(text, k + n) == 34))
    X.assume(z3.ForAll([q], z3.Implies(z3.And(q >= k, q < k + n), sat(text, q) == sat(val, q - k)), patterns=[sat(text, q)]))
    t = Tag(text, iv(0), slen(text))
    X.assume(ssub(text, t.a, t.b - t.a) == ssub(text, t.a, t.b - t.a))
    yield 'the text is accepted', t.ok
    yield 'weakness is kept', t.weak == z3.Not(strong)
    yield 'the value is kept', seqeq(ssub(text, t.a, t.b - t.a), val)


H02 = [Unit_('etag', contracts=[PARSE, TOSTR], targets=[Target(PARSE), Target(TOSTR), Target(EQ), Target(WEAK), Target(MKS), Target(MKW)],
             pools={'*': [parse_pool]}, lemmas=[Lemma('serialising and parsing round-trips', roundtrip)])]


# ---------------------------------------------------------------- If-None-Match
qpar = z3.Function('qpar', Str, I, I, B)      # odd number of quotes in s[p,i)
qn = z3.Function('qn', Str, I, I, I)          # first comma in [p,e) outside quotes opened after p, else e
qb = z3.Function('qb', Str, I, I, I, I)       # start of list element k of the window [o,e)
tok = z3.Function('tagok', Str, I, I, I, B)


def inm_axioms():
    s = z3.Const('s', Str)
    p, i, e, o, k = z3.Ints('p i e o k')
    A = z3.ForAll
    N = qn(s, p, e)
    comma = lambda x: z3.And(sat(s, x) == ord(','), z3.Not(qpar(s, p, x)))
    return strings.split_axioms() + [
        A([s, p], z3.Not(qpar(s, p, p)), patterns=[qpar(s, p, p)]),
        A([s, p, e], z3.Implies(p <= e, z3.And(N >= p, N <= e, z3.Implies(N < e, comma(N)))), patterns=[N]),
        A([s, p, e, i], z3.Implies(z3.And(i >= p, i < N), z3.Not(comma(i))), patterns=[z3.MultiPattern(N, qpar(s, p, i))]),
        A([s, o, e], qb(s, o, e, 0) == o, patterns=[qb(s, o, e, 0)])]


class Inm:
    def __init__(self, X, v):
        self.X, self.v, self.base = X, v, v.base
        w = win(v.base, v.off, v.off + v.n)
        self.o, self.e = w.off, thi(v.base, v.off, v.off + v.n)
        self.full = self.o < self.e
        self.any = z3.And(w.n == 1, sat(v.base, w.off) == ord('*'))

    def b(self, k):
        return qb(self.base, self.o, self.e, k)

    def n(self, k):
        return qn(self.base, self.b(k), self.e)

    def tag(self, k):
        return Tag(self.base, tlo(self.base, self.b(k), self.n(k)), thi(self.base, self.b(k), self.n(k)))

    def ok(self, k):
        return tok(self.base, self.o, self.e, k)

    def defs(self, k):
        """definition of element k and of the next start"""
        return [self.b(iv(0)) == self.o, self.ok(k) == self.tag(k).ok, z3.Implies(z3.And(k >= 0, self.n(k) < self.e), self.b(k + 1) == self.n(k) + 1)]


def inm_post(cx, r):
    X = cx.X
    sp = Inm(X, cx.args[0])
    tags = list(r.val.f.values())[0]
    n = tags.n
    js = X.fresh('js', I)
    for f in sp.defs(js) + sp.defs(n - 1):
        X.assume(f)
    el = X.sel(tags, ('i', js))
    t = sp.tag(js)
    L = z3.Implies
    lst = z3.And(r.has, z3.Not(sp.any), js >= 0, js < n)
    k = z3.Int('kr')
    return [('the trimmed text "*" matches anything', L(sp.any, z3.And(r.has, n == 0))),
            ('otherwise at least one tag: it never turns into "any"', L(z3.And(r.has, z3.Not(sp.any)), n >= 1)),
            ('accepted list: element j is a tag', L(lst, sp.ok(js))),
            ('accepted list: element j has the kind written', L(lst, el.f['strong_'] == z3.Not(t.weak))),
            ('accepted list: element j has the value written', L(lst, el.f['value_'] == X.vterm(t.value()))),
            ('accepted list: every element of the list is used', L(z3.And(r.has, z3.Not(sp.any)), sp.n(n - 1) == sp.e)),
            ('empty text is rejected', L(z3.Not(sp.full), z3.Not(r.has))),
            ('rejected only when an element is no tag', L(z3.And(sp.full, z3.Not(r.has)), z3.And(z3.Not(sp.any), z3.Exists([k], z3.And(k >= 0, z3.Not(sp.ok(k))), patterns=[sp.ok(k)]))))]


INM = Contract(QN + 'parse', post=inm_post, name='if_none_match::parse')
ANY = Contract(QN + 'is_any', post=lambda cx, r: [('exactly when there is no tag', r == (list(cx.this0.f.values())[0].n == 0))], name='if_none_match::is_any')


def inm_pool(lc):
    X = lc.X
    if X.verifying is not INM:
        return
    sp = Inm(X, X.cx.args[0])
    base = sp.base
    j = z3.Int('jr')
    vecs = [c for c in lc.cells if isinstance(c.val, Vec)]
    # outer loop: elements so far
    if vecs:
        c = vecs[0]
        lc.fact(lambda s: sp.defs(s.get(c).n) + sp.defs(s.get(c).n - 1))
        lc.add('elements so far', lambda s: s.get(c).n >= 0)
        el = lambda s: X.sel(s.get(c), ('i', j))
        t = sp.tag(j)
        for nm, f in (('are tags', lambda s: sp.ok(j)), ('kind', lambda s: el(s).f['strong_'] == z3.Not(t.weak)), ('value', lambda s: el(s).f['value_'] == X.vterm(t.value()))):
            lc.add('elements so far: ' + nm, lambda s, f=f: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.get(c).n), f(s)), patterns=[el(s).f['strong_'], el(s).f['value_'], sp.ok(j)]))
        for w in lc.of(View):
            lc.add('%s is the rest of the list' % w.name, lambda s, w=w: z3.Implies(sp.full, z3.And(s.get(w).off == sp.b(s.get(c).n), s.get(w).off + s.get(w).n == sp.e, s.get(w).n >= 0)))
            lc.add('%s stays empty' % w.name, lambda s, w=w: z3.Implies(z3.Not(sp.full), s.get(w).n == 0))
        for i in lc.ints():
            lc.add('%s is where the next element starts' % i.name, lambda s, i=i: z3.Implies(sp.full, sp.o + s.get(i) == sp.b(s.get(c).n)))
    # inner loop: the quoted flag is the parity, no separator seen
    for x in loc_views(lc):
        for i in lc.ints():
            e0 = lc.e(i)
            p0 = x.off + e0
            lc.fact(lambda s, x=x, i=i, p0=p0: [z3.Not(qpar(base, p0, p0)), qpar(base, p0, x.off + s.get(i) + 1) == z3.Xor(qpar(base, p0, x.off + s.get(i)), sat(base, x.off + s.get(i)) == 34)])
            lc.add('%s within' % i.name, lambda s, x=x, i=i: s.get(i) <= x.n)
            lc.add('no separator before %s' % i.name, lambda s, x=x, i=i, p0=p0: z3.ForAll([j], z3.Implies(
                z3.And(j >= p0, j < x.off + s.get(i)), z3.Not(z3.And(sat(base, j) == ord(','), z3.Not(qpar(base, p0, j))))), patterns=[qpar(base, p0, j)]))
            for b in lc.bools():
                lc.add('%s is the parity of the quotes before %s' % (b.name, i.name), lambda s, x=x, i=i, b=b, p0=p0: s.get(b) == qpar(base, p0, x.off + s.get(i)))


H03 = [Unit_('etag', contracts=strings.deps(INM, PARSE), targets=[Target(INM), Target(ANY)], axioms=inm_axioms(), pools=strings.pools(inm_pool, parse_pool))]
UNITS = H02 + H03
