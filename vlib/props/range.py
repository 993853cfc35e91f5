"""http/header/range.hpp: RFC 9110 byte ranges."""
import z3
from sym import *
from engine import *
from base import *
from fitmodel import IntSpec
from props import strings, fromstr
from props.strings import nxt, bnd, bnd_step, win, tlo, thi

Q = 'fitoria::http::header::range::'
U64 = (0, (1 << 64) - 1)


def litfact(X, lits):
    c = z3.Int('cq')
    from stdmodel import inset
    return [z3.ForAll([c], inset(X.litstr(l), c) == z3.Or([c == ord(x) for x in l]), patterns=[inset(X.litstr(l), c)]) for l in lits]


class Two:
    """the window [lo,hi) cut at its only delimiter d"""
    def __init__(self, X, base, lo, hi, d):
        D = X.litstr(d)
        self.cut = nxt(base, D, lo, hi)
        self.two = z3.And(self.cut < hi, nxt(base, D, self.cut + 1, hi) == hi)
        self.a, self.b = win(base, lo, self.cut), win(base, self.cut + 1, hi)
        self.defs = [bnd_step(base, D, lo, hi, iv(0)), bnd_step(base, D, lo, hi, iv(1)),
                     nxt(base, D, bnd(base, D, lo, hi, iv(2)), hi) == nxt(base, D, bnd(base, D, lo, hi, iv(2)), hi)]


rok = z3.Function('rok', Str, I, I, I, I, B)
roff = z3.Function('roff', Str, I, I, I, I, I)
rlen = z3.Function('rlen', Str, I, I, I, I, I)
ropen = z3.Function('ropen', Str, I, I, I, B)
rlast = z3.Function('rlast', Str, I, I, I, B)


class Sub:
    """subrange k of the list window [lo,hi): names and their definition"""
    def __init__(self, X, base, lo, hi, k, total):
        self.X, self.base, self.lo, self.hi, self.k, self.total = X, base, lo, hi, k, total
        self.ok, self.offset, self.length = (f(base, lo, hi, total, k) for f in (rok, roff, rlen))
        self.open, self.last = ropen(base, lo, hi, k), rlast(base, lo, hi, k)

    def defs(self):
        X, base, total = self.X, self.base, self.total
        C = X.litstr(',')
        b = bnd(base, C, self.lo, self.hi, self.k)
        e_ = nxt(base, C, b, self.hi)
        w = win(base, b, e_)
        t = Two(X, base, w.off, w.off + w.n, '-')
        s = IntSpec(X, base, t.a.off, t.a.off + t.a.n, *U64)
        e = IntSpec(X, base, t.b.off, t.b.off + t.b.n, *U64)
        open_ = z3.And(self.open, s.ok, s.val <= total)
        closed = z3.And(z3.Not(self.open), s.ok, e.ok, s.val <= e.val, e.val < U64[1])
        return t.defs + [self.open == (t.b.n == 0), self.last == (e_ == self.hi), self.ok == z3.And(t.two, z3.Or(open_, closed)), self.offset == s.val,
                         self.length == z3.If(self.open, total - s.val, e.val - s.val + 1)]


class Spec:
    def __init__(self, X, v, total):
        self.X, self.v, self.total = X, v, total
        self.u = Two(X, v.base, v.off, v.off + v.n, '=')
        self.w = self.u.b
        self.neg = z3.And(self.w.n > 0, sat(v.base, self.w.off) == ord('-'))
        self.suf = IntSpec(X, v.base, self.w.off + 1, self.w.off + self.w.n, *U64)
        self.suflen = z3.If(self.suf.val < total, self.suf.val, total)

    def sub(self, k):
        return Sub(self.X, self.v.base, self.w.off, self.w.off + self.w.n, k, self.total)


def post(cx, r):
    X = cx.X
    v, total = cx.args
    sp = Spec(X, v, total)
    for f in litfact(X, '=,-') + sp.u.defs:
        X.assume(f)
    rg = r.val
    fl = list(rg.f.values())
    unit, subs = [x for x in fl if not isinstance(x, Vec)][0], [x for x in fl if isinstance(x, Vec)][0]
    n = subs.n
    j = z3.Int('jr')
    if cx.proving:
        js = X.fresh('js', I)
        for f in sp.sub(js).defs() + sp.sub(n - 1).defs():
            X.assume(f)
        qa = lambda body: z3.Implies(z3.And(js >= 0, js < n), body(js))
    else:
        qa = lambda body: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), body(j)), patterns=[X.sel(subs, ('i', j)).f['offset'], X.sel(subs, ('i', j)).f['length']])
    el = lambda k: X.sel(subs, ('i', k))
    L = z3.Implies
    goals = [
        ('accepted: a unit and a list separated by the only "="', L(r.has, sp.u.two)),
        ('accepted: the unit is the text before "="', L(r.has, X.streq(unit, sp.u.a))),
        ('accepted: at least one subrange', L(r.has, n >= 1)),
        ('accepted suffix form: number, one subrange', L(z3.And(r.has, sp.neg), z3.And(sp.suf.ok, n == 1))),
        ('accepted suffix form: exactly the last bytes, at most the whole', L(z3.And(r.has, sp.neg), z3.And(el(iv(0)).f['offset'] == total - sp.suflen, el(iv(0)).f['length'] == sp.suflen))),
        ('accepted list: the subranges are the pieces of the list, in order, each well-formed', L(z3.And(r.has, z3.Not(sp.neg)), qa(lambda k: sp.sub(k).ok))),
        ('accepted list: each subrange starts where its text says', L(z3.And(r.has, z3.Not(sp.neg)), qa(lambda k: el(k).f['offset'] == sp.sub(k).offset))),
        ('accepted list: each subrange is as long as its text says', L(z3.And(r.has, z3.Not(sp.neg)), qa(lambda k: el(k).f['length'] == sp.sub(k).length))),
        ('accepted list: every piece of the list is used', L(z3.And(r.has, z3.Not(sp.neg)), sp.sub(n - 1).last)),
        ('accepted: no subrange wraps around', L(r.has, qa(lambda k: el(k).f['offset'] + el(k).f['length'] <= U64[1]))),
        ('accepted: an open-ended or suffix range stays inside the representation', L(r.has, qa(lambda k: z3.Or(
            z3.And(z3.Not(sp.neg), z3.Not(sp.sub(k).open)), el(k).f['offset'] + el(k).f['length'] == total)))),
    ]
    k = z3.Int('kr')
    badpiece = z3.Exists([k], z3.And(k >= 0, z3.Not(sp.sub(k).ok)), patterns=[sp.sub(k).ok])
    goals.append(('rejected only when malformed', L(z3.Not(r.has), z3.Or(z3.Not(sp.u.two), z3.And(sp.neg, z3.Not(sp.suf.ok)), z3.And(z3.Not(sp.neg), badpiece)))))
    return goals


PARSE = Contract(Q + 'parse', post=post, name='range::parse')


def pool(lc):
    X = lc.X
    if X.verifying is not PARSE:
        return
    v, total = X.cx.args
    sp = Spec(X, v, total)
    j = z3.Int('jr')
    lc.fact(lambda s: sp.sub(s.k).defs() + sp.u.defs + litfact(X, '=,-'))
    for c in lc.cells:
        if not isinstance(c.val, Vec) or not isinstance(c.val.arr, Rec):
            continue
        names = list(c.val.arr.f)
        if names != ['offset', 'length']:
            continue
        lc.add('one subrange per piece so far', lambda s, c=c: s.get(c).n == s.k)
        e = lambda s, c: X.sel(s.get(c), ('i', j))
        for nm, f in (('ok', lambda s, c: sp.sub(j).ok), ('offset', lambda s, c: e(s, c).f['offset'] == sp.sub(j).offset),
                      ('length', lambda s, c: e(s, c).f['length'] == sp.sub(j).length)):
            lc.add('subranges so far: ' + nm, lambda s, c=c, f=f: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.k), f(s, c)), patterns=[e(s, c).f['offset'], e(s, c).f['length'], sp.sub(j).ok]))


H01 = [Unit_('range', contracts=strings.deps(PARSE, fromstr.FROM), targets=[Target(PARSE)], axioms=strings.split_axioms(), pools=strings.pools(pool))]
UNITS = H01
