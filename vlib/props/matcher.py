"""web/path_matcher.hpp: matching a path against the tokens of a pattern.

mo(k) is the position in the path after the first k tokens, or -1 if they do not match; nc(k) the number of captures of the
first k tokens."""
import z3
from sym import *
from engine import *
from interp import *
from base import *
from props.path import enum
from props import path as P
from props import router as R
import loops, stdmodel

Q = 'fitoria::web::path_matcher::'
mo = z3.Function('mo', I, I)
nc = z3.Function('nc', I, I)


class Sp:
    def __init__(self, X, toks, s):
        self.n = toks.n
        f = toks.arr.f
        el = X.prog.rec[X.prog.t(X.prog.strip(toks.et))['id']]
        kt = vt = None
        for g in el['fields']:
            if X.prog.t(X.prog.strip(g['t']))['k'] == 'enum':
                kt = g
            else:
                vt = g
        self.k, self.v = f[kt['n']], f[vt['n']]
        self.K = {n: enum(X, kt['t'], n) for n in ('static_', 'param', 'wildcard')}
        self.s = s

    def kind(self, i):
        return z3.Select(self.k, i)

    def val(self, i):
        return z3.Select(self.v, i)

    def cap(self, i):
        return self.kind(i) != self.K['static_']

    def step(self, i):
        m, s, v, kd = mo(i), self.s, self.val(i), self.kind(i)
        rest = ssub(s, m, slen(s) - m)
        e = R.fsl(rest)
        nx = z3.If(m < 0, iv(-1), z3.If(kd == self.K['static_'], z3.If(pre(v, rest), m + slen(v), iv(-1)),
                   z3.If(kd == self.K['param'], z3.If(e > 0, m + e, iv(-1)), slen(s))))
        return z3.Implies(i >= 0, z3.And(mo(i + 1) == nx, nc(i + 1) == nc(i) + z3.If(self.cap(i), iv(1), iv(0))))

    def base(self):
        i = z3.Int('bi')
        return [mo(iv(0)) == 0, nc(iv(0)) == 0,
                z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(z3.Or([self.kind(i) == x for x in self.K.values()]))), patterns=[self.kind(i)])]


pre = R.pre


def axioms():
    return R.base_ax()


def nested():
    a = z3.Const('a', Str)
    o, n, i, k = z3.Ints('o n i k')
    t = ssub(ssub(a, o, n), i, k)
    return [z3.ForAll([a, o, n, i, k], z3.Implies(z3.And(o >= 0, n >= 0, o + n <= slen(a), i >= 0, k >= 0, i + k <= n), t == ssub(a, o + i, k)), patterns=[t])]


def L_nested(X):
    a = X.fresh('a', Str)
    o, n, i, k = [X.fint(x) for x in 'onik']
    X.assume(z3.And(o >= 0, n >= 0, o + n <= slen(a), i >= 0, k >= 0, i + k <= n))
    yield 'a piece of a piece', seqeq(ssub(ssub(a, o, n), i, k), ssub(a, o + i, k))


# consequences of the recursive definitions (lemma 'failed stays failed, captures are counted')
def mono():
    i, j = z3.Ints('i j')
    A = z3.ForAll
    return [A([i, j], z3.Implies(z3.And(0 <= i, i <= j, mo(i) < 0), mo(j) < 0), patterns=[z3.MultiPattern(mo(i), mo(j))]),
            A([i, j], z3.Implies(z3.And(0 <= i, i <= j), nc(i) <= nc(j)), patterns=[z3.MultiPattern(nc(i), nc(j))]),
            A([i], z3.Implies(i >= 0, z3.And(nc(i) >= 0, nc(i) <= i, mo(i) >= -1)), patterns=[nc(i)])]


def L_mono(X):
    i, j = X.fint('i'), X.fint('j')
    sp = Sp.__new__(Sp)
    sp.n, sp.k, sp.v, sp.s = X.fint('n'), X.fresh('k', z3.ArraySort(I, I)), X.fresh('v', R.AS), X.fresh('s', Str)
    sp.K = dict(static_=iv(0), param=iv(1), wildcard=iv(2))
    X.assume(z3.And(i >= 0, i <= j))
    for f in sp.base():
        X.assume(f)
    X.assume(sp.step(j))
    yield 'a failed match stays failed (base)', z3.Implies(i == j, z3.Implies(mo(i) < 0, mo(j) < 0))
    yield 'a failed match stays failed (step)', z3.Implies(z3.Implies(mo(i) < 0, mo(j) < 0), z3.Implies(mo(i) < 0, mo(j + 1) < 0))
    yield 'the number of captures does not decrease (step)', z3.Implies(nc(i) <= nc(j), nc(i) <= nc(j + 1))
    yield 'one capture per token at most (step)', z3.Implies(z3.And(nc(j) >= 0, nc(j) <= j, mo(j) >= -1), z3.And(nc(j + 1) >= 0, nc(j + 1) <= j + 1, mo(j + 1) >= -1))
    yield 'start', z3.And(nc(iv(0)) >= 0, nc(iv(0)) <= 0, mo(iv(0)) >= -1)


def L_agree(X):
    """the matcher succeeds exactly when the pattern matches the path as the router sees it (induction on the tokens from the end)"""
    i, k = X.fint('i'), X.fint('k')      # a route (for vtok, ktok, pat), a token
    s, x = X.fresh('s', Str), X.fresh('x', Str)
    X.assume(R.ordy(s))
    X.assume(R.toks_ok(X, i))
    X.assume(z3.And(k >= 0, k < R.ntok(i)))
    sp = Sp.__new__(Sp)
    sp.n, sp.k, sp.v, sp.s = R.ntok(i), R.ktok(i), R.vtok(i), s
    sp.K = dict(static_=iv(0), param=iv(1), wildcard=iv(2))
    for f in sp.base():
        X.assume(f)
    m, m2 = mo(k), mo(k + 1)
    n = R.ntok(i)
    X.assume(sp.step(k))
    X.assume(z3.And(m >= 0, m <= slen(s)))
    X.assume(z3.And(R.patdef(i, k), R.patdef(i, k + 1), R.patdef(i, n)))
    rest = R.tail(s, m)
    q = R.pat(i, k)
    v = sp.val(k)
    yield 'positions stay inside the path', z3.And(m2 >= -1, m2 <= slen(s))
    X.assume(R.rmdef(q, rest))
    last = mo(n) == slen(s)
    X.assume(z3.Implies(m2 >= 0, R.rm(R.pat(i, k + 1), R.tail(s, m2)) == last))      # induction hypothesis
    X.assume(z3.Implies(m2 < 0, mo(n) < 0))
    # lemma 'static start of a pattern' and its converse below
    r = R.pat(i, k + 1)
    X.assume(z3.Implies(sp.kind(k) == 0, R.rm(scat(v, r), rest) == z3.And(pre(v, rest), R.rm(r, R.drop(rest, v)))))
    yield 'agreement, static token (step)', z3.Implies(sp.kind(k) == 0, z3.And(z3.Implies(m2 >= 0, seqeq(R.drop(rest, v), R.tail(s, m2))), R.rm(q, rest) == last))
    c = z3.And(sp.kind(k) == 1)
    yield 'agreement, parameter: the rest', z3.Implies(z3.And(c, m2 >= 0), z3.And(seqeq(R.cut(rest), R.tail(s, m2)), seqeq(R.tail(q), r)))
    yield 'agreement, parameter (step)', z3.Implies(c, R.rm(q, rest) == last)
    yield 'agreement, wildcard (step)', z3.Implies(sp.kind(k) == 2, R.rm(q, rest) == last)


def L_agree_end(X):
    i, s = X.fint('i'), X.fresh('s', Str)
    n = R.ntok(i)
    m = mo(n)
    X.assume(z3.And(m >= 0, m <= slen(s), R.patdef(i, n), R.rmdef(R.pat(i, n), R.tail(s, m))))
    yield 'agreement, no tokens left', R.rm(R.pat(i, n), R.tail(s, m)) == (m == slen(s))


def L_static(X):
    """rm(v ++ r, p) == (v is a prefix of p and rm(r, rest)): induction on the number of characters compared"""
    v, r, p, k = X.fresh('v', Str), X.fresh('r', Str), X.fresh('p', Str), X.fint('k')
    X.assume(z3.And(R.ordy(v), k >= 0, k < slen(v)))
    q = scat(v, r)
    a, b = R.tail(q, k), R.tail(p, k)
    a2, b2 = R.tail(q, k + 1), R.tail(p, k + 1)
    X.assume(R.rmdef(a, b))
    X.assume(slen(p) >= k)
    yield 'first symbol', z3.And(slen(a) > 0, sat(a, 0) == sat(v, k), sat(v, k) != R.PAR, sat(v, k) != R.WLD)
    yield 'rest of the pattern', seqeq(R.tail(a), a2)
    yield 'rest of the path', z3.Implies(slen(p) > k, z3.And(seqeq(R.tail(b), b2), sat(b, 0) == sat(p, k)))
    yield 'one more character (induction step)', R.rm(a, b) == z3.And(slen(p) > k, sat(p, k) == sat(v, k), R.rm(a2, b2))
    yield 'everything compared', z3.And(seqeq(R.tail(q, slen(v)), r), seqeq(R.tail(q, iv(0)), q))


def setup(X, fn):
    rec = X.prog.rec[X.prog.t(X.prog.strip(fn['rect']))['id']]
    this, args = X.default_setup(fn)
    return this, args, {}


def sp_of(cx):
    X = cx.X
    ts = [v for v in cx.this0.f.values() if isinstance(v, Vec)]
    if len(ts) != 1:
        raise Unsupported('members of path_matcher')
    return Sp(X, ts[0], X.vterm(cx.args[0]))


def pre_match(cx):
    sp = sp_of(cx)
    i = z3.Int('pk')
    f = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sp.n, sp.kind(i) == sp.K['wildcard']), i == sp.n - 1), patterns=[sp.kind(i)])
    return [('', z3.And(sp.base() + [R.ordy(sp.s)])), ('a wildcard is the last token (path_parser)', f)]


def caps(X, sp, v, hi, what):
    i = z3.Int('ci')
    f = nodes(v)
    e = [nc(i) < nc(hi), z3.Select(f[0], nc(i)) == sp.val(i), z3.Select(f[1], nc(i)) == ssub(sp.s, mo(i), mo(i + 1) - mo(i))][what]
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < hi, sp.cap(i)), e), patterns=[sp.kind(i)])


def nodes(v):
    return v.arr.f['first'], v.arr.f['second']


def post_match(cx, r):
    X = cx.X
    sp = sp_of(cx)
    ok = mo(sp.n) == slen(sp.s)
    X.assume(R.mark(mo(sp.n) >= 0))
    out = [('matches exactly when the tokens, in order, take up the whole path', r.has == ok)]
    if not isinstance(r.val, Vec):
        raise Unsupported('result of match')
    k = X.fint('ck')
    X.assume(sp.step(k))
    f = nodes(r.val)
    hyp = z3.And(r.has, k >= 0, k < sp.n, sp.cap(k))
    out += [('one capture per parameter or wildcard', z3.Implies(r.has, r.val.n == nc(sp.n))),
            ('captures are in the order of their tokens', z3.Implies(hyp, z3.And(nc(k) >= 0, nc(k) < nc(sp.n)))),
            ('the name of a capture is the name of its token', z3.Implies(hyp, z3.Select(f[0], nc(k)) == sp.val(k))),
            ('the value of a capture is the text its token stands for', z3.Implies(hyp, z3.Select(f[1], nc(k)) == ssub(sp.s, mo(k), mo(k + 1) - mo(k))))]
    return out


def pool(lc):
    X = lc.X
    if X.verifying is not MATCH:
        return
    sp = sp_of(X.cx)
    vecs = [c for c in lc.cells if isinstance(c.val, Vec)]
    views = [c for c in lc.cells if isinstance(c.val, View)]
    strs = lc.strs()
    i = z3.Int('mi')
    for c in R.its(lc):
        P = lambda s, c=c: R.pos(s, c)
        lc.fact(lambda s, P=P: [sp.step(P(s)), sp.step(P(s) - 1), R.mark(mo(sp.n) >= 0)])
        lc.add('the tokens so far match', lambda s, P=P: z3.And(P(s) >= 0, P(s) <= sp.n, mo(P(s)) >= 0, mo(P(s)) <= slen(sp.s)))
        for v in views:
            lc.add('%s is the rest of the path' % v.name, lambda s, v=v, P=P: s.term(s.get(v)) == R.tail(sp.s, mo(P(s))))
            lc.add('%s is the window left' % v.name, lambda s, v=v, P=P: z3.And(s.get(v).n == slen(sp.s) - mo(P(s)), s.get(v).off >= 0, s.get(v).off + s.get(v).n <= slen(s.get(v).base)))
        for v in vecs:
            lc.add('%s has as many captures as there were tokens to capture' % v.name, lambda s, v=v, P=P: s.get(v).n == nc(P(s)))
            lc.add('the captures are numbered in order', lambda s, v=v, P=P: caps(X, sp, s.get(v), P(s), 0))
            lc.add('%s has the names so far' % v.name, lambda s, v=v, P=P: caps(X, sp, s.get(v), P(s), 1))
            lc.add('%s has the texts so far' % v.name, lambda s, v=v, P=P: caps(X, sp, s.get(v), P(s), 2))


def h_prefix(X, c):
    v, n = c.self(), c.v(0)
    t = X.vterm(v)
    X.prove('remove_prefix within size', n <= v.n)
    X.write(c.this, View(ssub(t, n, slen(t) - n), iv(0), simp(v.n - n)))
    return UNIT


def h_substr(X, c):
    v, p, n = c.self(), c.v(0), c.v(1)
    t = X.vterm(v)
    if not X.branch(p <= v.n):
        raise CppThrow(None, 'out_of_range')
    m = simp(z3.If(n < v.n - p, n, v.n - p))
    return View(ssub(t, p, m), iv(0), m)


def h_find(X, c):
    nd = stdmodel.needle(X, c)
    if nd[0] == 'c' and z3.is_int_value(nd[1]) and nd[1].as_long() == 47 and (len(c.args) == 1 or X.quick(c.v(1) == 0)):
        f = R.fsl(X.vterm(c.self()))
        return f if X.branch(f < c.self().n) else iv(stdmodel.NPOS)
    return stdmodel.H[stdmodel.SV + 'find'](X, c)


MATCH = Contract(Q + 'match', pre=pre_match, post=post_match, setup=setup, name='path_matcher::match')


def field_is(kind):
    def post(cx, r):
        X = cx.X
        v = [x for x in cx.this0.f.values() if (isinstance(x, Vec) if kind == 'vec' else not isinstance(x, Vec))]
        if len(v) != 1:
            raise Unsupported('members of path_matcher')
        if kind == 'vec':
            return [('the parsed tokens%s' % s, f) for s, f in X.eqf(X.read(r) if isl(r) else r, v[0])]
        return [('the text of the pattern', seqeq(X.vterm(r), X.vterm(v[0])))]
    return post


def members(v):
    ts = [x for x in v.f.values() if isinstance(x, Vec)]
    tx = [x for x in v.f.values() if not isinstance(x, Vec)]
    if len(ts) != 1 or len(tx) != 1:
        raise Unsupported('members of path_matcher')
    return ts[0], tx[0]


def grammar(cx):
    X = cx.X
    T = X.vterm(cx.args[0])
    return P.final(P.DS[1](T, slen(T)))


def post_ctor(cx, r):
    X = cx.X
    toks, text = members(cx.this1)
    T = X.vterm(cx.args[0])
    sp = P.Sp(X, T)
    N = toks.n
    return [('keeps the text of the pattern', seqeq(X.vterm(text), T)), ('accepts only texts of the pattern grammar', grammar(cx))] + P.tokens_spec(X, sp, toks, N) + [
        ('names are pairwise distinct', P.unique(X, sp, toks, N)), ('names are not empty', P.nonempty(X, sp, toks, N)), ('a wildcard is the last token', P.wild_last(X, sp, toks, N))]


def tpost_ctor(cx, t):
    X = cx.X
    T = X.vterm(cx.args[0])
    i, m = z3.Ints('ix mx')
    sp = P.Sp(X, T)
    dup = z3.Exists([i, m], z3.And(m >= 0, i >= 0, i <= 2 * m, sp.db(m) < sp.n, P.tv(T, i) == P.tv(T, 2 * m + 1)))
    return [('rejects only texts outside the grammar or with a repeated name', z3.Or(z3.Not(grammar(cx)), dup))]


def c_default(X, e, fn, tid, t):
    return X.default_value(tid)


CTOR = Contract(Q + '(ctor)', post=post_ctor, tpost=tpost_ctor, setup=setup, name='path_matcher::path_matcher(pattern)', match=lambda X, f: len(f['params']) == 1 and not f.get('mvctor') and not f.get('cpctor'))
TOKENS = Contract(Q + 'tokens', post=field_is('vec'), name='path_matcher::tokens')
PATTERN = Contract(Q + 'pattern', post=field_is('str'), name='path_matcher::pattern')

SV = stdmodel.SV
H = {R.VE + 'emplace_back': R.h_emplace, SV + 'starts_with': R.h_starts, SV + 'remove_prefix': h_prefix, SV + 'substr': h_substr, SV + 'find': h_find}
R02 = [Unit_('path_matcher', lemmas=[Lemma('failed stays failed, captures are counted', L_mono)], axioms=axioms()),
       Unit_('path_matcher', lemmas=[Lemma('a piece of a piece', L_nested), Lemma('a static token is compared character by character', L_static), Lemma('matcher and router agree', L_agree), Lemma('matcher and router agree at the end', L_agree_end)], axioms=axioms() + R.str_ax()),
       Unit_('path_matcher', contracts=[MATCH], targets=[Target(c) for c in (MATCH, TOKENS, PATTERN)], axioms=axioms() + R.str_ax() + nested() + mono(), handlers=H, pools={'*': [pool]}),
       Unit_('path_matcher', contracts=[P.PARSE, P.GET, CTOR], targets=[Target(CTOR)], axioms=P.axioms(), pools={'*': [P.pool]}, lemmas=[Lemma('rejected stays rejected', P.dead_lemma)])]
UNITS = R02

