"""web/path_parser.hpp: the pattern grammar as a reference automaton, tokens as windows of the pattern."""
import z3
from sym import *
from engine import *
from interp import *
from base import *
from stdmodel import inset
from props.strings import nxt, split_axioms
import loops

Q = 'fitoria::web::path_parser::'
S0, SL, SO, SP1, SP2, P0, PN, PP1, PP2, PE, W0, WN, WP1, WP2, DEAD = range(15)
DS = {w: z3.Function('ds%d' % w, Str, I, I) for w in (0, 1)}
sb = z3.Function('psb', Str, I, I)       # where static piece m starts
tv = z3.Function('ptv', Str, I, Str)     # text of token j


def enum(X, tid, name):
    t = X.prog.t(X.prog.strip(tid))
    for n, v in t['en']:
        if n == name:
            return iv(int(v))
    raise Unsupported('enumerator %s' % name)


def ch(c):
    return ord(c)


def rng(c, a, b):
    return z3.And(c >= ord(a), c <= ord(b))


def hexd(c):
    return z3.Or(rng(c, '0', '9'), rng(c, 'a', 'f'), rng(c, 'A', 'F'))


def plain(c):
    """unreserved / sub-delims / ":" / "@" of RFC 3986"""
    return z3.Or([rng(c, 'a', 'z'), rng(c, 'A', 'Z'), rng(c, '0', '9')] + [c == ord(x) for x in "-._~!$&'()*+,;=:@"])


def delta(w, s, c):
    def by(table, dflt):
        r = iv(dflt)
        for cond, v in reversed(table):
            r = z3.If(cond, iv(v) if isinstance(v, int) else v, r)
        return r
    stat = by([(c == ord('{'), z3.If(s == SL, iv(P0), iv(DEAD))), (c == ord('#'), W0 if w else DEAD), (c == ord('/'), SL),
               (plain(c), SO), (c == ord('%'), SP1)], DEAD)
    par = by([(c == ord('}'), z3.If(s == PN, iv(PE), iv(DEAD))), (plain(c), PN), (c == ord('%'), PP1)], DEAD)
    wild = by([(plain(c), WN), (c == ord('%'), WP1)], DEAD)
    hx = lambda v: z3.If(hexd(c), iv(v), iv(DEAD))
    return by([(z3.Or(s == S0, s == SL, s == SO), stat), (s == PE, z3.If(c == ord('/'), iv(SL), iv(DEAD))),
               (s == SP1, hx(SP2)), (s == SP2, hx(SO)), (z3.Or(s == P0, s == PN), par), (s == PP1, hx(PP2)), (s == PP2, hx(PN)),
               (z3.Or(s == W0, s == WN), wild), (s == WP1, hx(WP2)), (s == WP2, hx(WN))], DEAD)


def final(s):
    return z3.Or([s == x for x in (S0, SL, SO, PE, WN)])


def axioms():
    T = z3.Const('T', Str)
    i, j = z3.Ints('i j')
    ax = split_axioms()
    for w in (0, 1):
        D = DS[w]
        ax.append(z3.ForAll([T], D(T, 0) == S0, patterns=[D(T, 0)]))
        # by induction on j from delta(DEAD, c) = DEAD (lemma below)
        ax.append(z3.ForAll([T, i, j], z3.Implies(z3.And(i >= 0, i <= j, j <= slen(T), D(T, i) == DEAD), D(T, j) == DEAD),
                            patterns=[z3.MultiPattern(D(T, i), D(T, j))]))
    return ax


def dead_lemma(X):
    T = X.fresh('T', Str)
    for w in (0, 1):
        i, j = X.fint('i'), X.fint('j')
        yield 'DEAD is absorbing (induction step, wildcard=%d)' % w, delta(w, iv(DEAD), sat(T, j)) == DEAD


class Sp:
    """specification of the token boundaries of a text"""
    def __init__(self, X, T):
        self.X, self.T = X, T
        self.open, self.close = X.litstr('{#'), X.litstr('}')
        self.n = slen(T)

    def db(self, m):
        return nxt(self.T, self.open, sb(self.T, m), self.n)

    def par(self, m):
        return sat(self.T, self.db(m)) == ord('{')

    def de(self, m):
        return z3.If(self.par(m), nxt(self.T, self.close, self.db(m) + 1, self.n), self.n)

    def sb(self, m):
        return sb(self.T, m)

    def tv_def(self, j):
        m = j / 2
        return tv(self.T, j) == z3.If(j % 2 == 0, ssub(self.T, self.sb(m), self.db(m) - self.sb(m)),
                                      ssub(self.T, self.db(m) + 1, self.de(m) - self.db(m) - 1))

    def step(self, m):
        T = self.T
        lit = []
        for l, cs in ((self.open, '{#'), (self.close, '}')):
            c = z3.Int('cq')
            lit.append(z3.ForAll([c], inset(l, c) == z3.Or([c == ord(x) for x in cs]), patterns=[inset(l, c)]))
        return lit + [sb(T, 0) == 0, z3.Implies(m >= 0, sb(T, m + 1) == self.de(m) + 1), self.tv_def(2 * m), self.tv_def(2 * m + 1)]


def ktid(X, tokens):
    """type of the token's kind"""
    rid = tokens_rec(X)
    return X.field_type(rid, 'kind')


def tokens_rec(X):
    for rid, r in X.prog.rec.items():
        if r.get('q') == 'fitoria::web::path_token_t' and 'fields' in r:
            return rid
    raise Unsupported('path_token_t not found')


def tokens_spec(X, sp, toks, N):
    """tokens 0..N-1 are the pattern's pieces, in order"""
    kt = ktid(X, toks)
    j = z3.Int('jp')
    e = X.sel(toks, ('i', j))
    kd = z3.If(j % 2 == 0, enum(X, kt, 'static_'), z3.If(sp.par(j / 2), enum(X, kt, 'param'), enum(X, kt, 'wildcard')))
    inr = z3.And(j >= 0, j < N)
    return [('token texts are the pieces of the pattern', z3.ForAll([j], z3.Implies(inr, e.f['value'] == tv(sp.T, j)), patterns=[e.f['value']])),
            ('token kinds follow the delimiters', z3.ForAll([j], z3.Implies(inr, e.f['kind'] == kd), patterns=[e.f['kind']]))]


def unique(X, sp, toks, N):
    i, j = z3.Ints('iu ju')
    a, b = X.sel(toks, ('i', i)), X.sel(toks, ('i', j))
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N, j % 2 == 1), a.f['value'] != b.f['value']),
                     patterns=[z3.MultiPattern(a.f['value'], b.f['value'])])


def nonempty(X, sp, toks, N):
    j = z3.Int('je')
    b = X.sel(toks, ('i', j))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N, j % 2 == 1), slen(b.f['value']) > 0), patterns=[b.f['value']])


def wild_last(X, sp, toks, N):
    kt = ktid(X, toks)
    j = z3.Int('jw')
    b = X.sel(toks, ('i', j))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N - 1), b.f['kind'] != enum(X, kt, 'wildcard')), patterns=[b.f['kind']])


def is_wild(fn, X):
    t = X.prog.t(fn['rect'])
    return int(bool(int(t['ta'][0]['i'])))


def parse_post(cx, r):
    X = cx.X
    T = X.vterm(cx.args[0])
    w = is_wild(cx.fn, X)
    sp = Sp(X, T)
    o = cx.this1
    toks = o.f['tokens_']
    N = toks.n
    M = N / 2
    for f in sp.step(M) + sp.step(M - 1):
        X.assume(f)
    D = DS[w](T, sp.n)
    X.assume(DS[w](T, iv(0)) == S0)
    ok = []
    ok.append(('accepts only texts of the pattern grammar', final(D)))
    ok += tokens_spec(X, sp, toks, N)
    ok.append(('parameter and wildcard names are pairwise distinct and differ from earlier tokens', unique(X, sp, toks, N)))
    ok.append(('names are not empty', nonempty(X, sp, toks, N)))
    ok.append(('a wildcard is the last token', wild_last(X, sp, toks, N)))
    ok.append(('the tokens cover the whole pattern', z3.If(N % 2 == 1, z3.And(sp.db(M) == sp.n, sp.sb(M) < sp.n),
               z3.If(N == 0, sp.n == 0, z3.If(sp.par(M - 1), sp.de(M - 1) + 1, sp.de(M - 1)) == sp.n))))
    goals = [('if accepted: ' + nm, z3.Implies(r, f)) for nm, f in ok]
    i = z3.Int('ix')
    dup = z3.And(N % 2 == 1, sp.db(M) < sp.n, z3.Implies(sp.par(M), sp.de(M) < sp.n),
                 z3.Exists([i], z3.And(i >= 0, i <= 2 * M, tv(T, i) == tv(T, 2 * M + 1))))
    goals.append(('rejects only texts outside the grammar or with a repeated name', z3.Implies(z3.Not(r), z3.Or(z3.Not(final(D)), dup))))
    return goals


def setup(X, fn):
    this, args = X.default_setup(fn)
    return this, args, {}


PARSE = Contract(Q + 'parse', modifies=lambda cx: [cx.this], post=parse_post, match=lambda X, f: len(f['params']) == 1, name='path_parser::parse')


def get_post(cx, r):
    return [('returns the parsed tokens%s' % s, f) for s, f in cx.X.eqf(r, cx.this0.f['tokens_'])]


GET = Contract(Q + 'get', mkret=lambda cx: cx.this0.f['tokens_'], modifies=lambda cx: [cx.this], post=get_post, name='path_parser::get')


def pool(lc):
    X = lc.X
    if X.verifying is not PARSE:
        return
    cx = X.cx
    T = X.vterm(cx.args[0])
    w = is_wild(cx.fn, X)
    sp = Sp(X, T)
    P = cx.this
    g = lambda s, n: s.get(P.f(n))
    toks = lambda s: g(s, 'tokens_')
    # duplicate check: no earlier element equals a string of this frame
    for it in lc.of(VIter):
        strs = []
        for v in X.frame().vars.values():
            if isinstance(v, LV) and not v.path:
                x = lc.entry.store.get(v.loc)
                if isinstance(x, z3.ExprRef) and x.sort() == Str:
                    strs.append(x)
        i = z3.Int('ie')
        for x in strs:
            lc.add('no earlier token has this text', lambda s, it=it, x=x: z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < s.get(it).idx), X.sel(toks(s), ('i', i)).f['value'] != x), patterns=[X.sel(toks(s), ('i', i)).f['value']]))
    if not lc.named('it_'):
        return
    kt = X.field_type(cx.fn['rec'], 'kind_')
    K = {n: enum(X, kt, n) for n in ('static_', 'param', 'wildcard')}
    it = lambda s: g(s, 'it_').idx
    first = lambda s: g(s, 'token_first_').idx
    kind = lambda s: g(s, 'kind_')
    N = lambda s: toks(s).n
    M = lambda s: toks(s).n / 2

    def facts(s):
        i = it(s)
        fs = sp.step(M(s)) + sp.step(M(s) - 1)
        for d in range(3):
            fs.append(z3.Implies(z3.And(i + d >= 0, i + d < sp.n), DS[w](T, i + d + 1) == delta(w, DS[w](T, i + d), sat(T, i + d))))
        fs.append(DS[w](T, iv(0)) == S0)
        fs.append(DS[w](T, sp.n) == DS[w](T, sp.n))
        return fs
    lc.fact(facts)
    st = lambda s: kind(s) == K['static_']
    pa = lambda s: kind(s) == K['param']
    wi = lambda s: kind(s) == K['wildcard']
    D = lambda s: DS[w](T, it(s))
    prevc = lambda s: sat(T, it(s) - 1)
    lc.add('kind', lambda s: z3.Or(st(s), pa(s), wi(s)))
    lc.add('positions', lambda s: z3.And(first(s) >= 0, first(s) <= it(s), it(s) <= sp.n))
    lc.add('prev', lambda s: g(s, 'prev_').idx == z3.If(it(s) == 0, iv(0), it(s) - 1))
    lc.add('automaton in static text', lambda s: z3.Implies(st(s), D(s) == z3.If(it(s) == 0, iv(S0), z3.If(prevc(s) == ord('/'), iv(SL),
           z3.If(prevc(s) == ord('}'), iv(PE), iv(SO))))))
    lc.add('after a parameter', lambda s: z3.Implies(z3.And(st(s), it(s) > 0, prevc(s) == ord('}')), z3.Or(it(s) == sp.n, sat(T, it(s)) == ord('/'))))
    lc.add('closing brace only just before static text', lambda s: z3.Implies(z3.And(st(s), it(s) > 0, prevc(s) == ord('}')), first(s) == it(s)))
    lc.add('automaton in a parameter', lambda s: z3.Implies(pa(s), D(s) == z3.If(it(s) == first(s), iv(P0), iv(PN))))
    lc.add('automaton in a wildcard', lambda s: z3.Implies(wi(s), D(s) == z3.If(it(s) == first(s), iv(W0), iv(WN))))
    lc.add('token parity', lambda s: z3.If(st(s), N(s) % 2 == 0, N(s) % 2 == 1))
    lc.add('static piece start', lambda s: z3.Implies(st(s), first(s) == sp.sb(M(s))))
    lc.add('name start', lambda s: z3.Implies(z3.Not(st(s)), z3.And(first(s) == sp.db(M(s)) + 1, sp.db(M(s)) < sp.n, sp.sb(M(s)) <= sp.db(M(s)))))
    lc.add('delimiter kind', lambda s: z3.Implies(z3.Not(st(s)), sat(T, first(s) - 1) == z3.If(pa(s), iv(ord('{')), iv(ord('#')))))
    q = z3.Int('qd')
    lc.add('no delimiter since the piece started', lambda s: z3.ForAll([q], z3.Implies(z3.And(q >= first(s), q < it(s)), z3.If(
        st(s), z3.And(sat(T, q) != ord('{'), sat(T, q) != ord('#')), sat(T, q) != ord('}'))), patterns=[sat(T, q)]))
    lc.add('texts', lambda s: tokens_spec(X, sp, toks(s), N(s))[0][1])
    lc.add('kinds', lambda s: tokens_spec(X, sp, toks(s), N(s))[1][1])
    lc.add('unique', lambda s: unique(X, sp, toks(s), N(s)))
    lc.add('nonempty', lambda s: nonempty(X, sp, toks(s), N(s)))
    lc.add('no wildcard yet', lambda s: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < N(s)), X.sel(toks(s), ('i', q)).f['kind'] != K['wildcard']),
                                                  patterns=[X.sel(toks(s), ('i', q)).f['kind']]))
    lc.add('previous piece was a parameter', lambda s: z3.Implies(M(s) > 0, z3.And(sp.par(M(s) - 1), sp.de(M(s) - 1) + 1 == sp.sb(M(s)))))


P01 = [Unit_('path', contracts=[PARSE, GET], targets=[Target(PARSE, min=2), Target(GET, min=2)], axioms=axioms(), pools={'*': [pool]},
             lemmas=[Lemma('rejected stays rejected', dead_lemma)])]
UNITS = P01
