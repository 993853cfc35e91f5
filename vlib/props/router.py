"""web/router.hpp: the tree of nodes as a set of (pattern, method) -> route entries; lookup as the best matching entry.

A pattern is the concatenation of its tokens, with one symbol PAR for a parameter and one symbol WLD for a wildcard (neither is
a char).  Ent is the sort of entry sets: ent(E, q, m) is the route stored for pattern q and method m (or -1), dv(E, s) the
set of entries below s.  bst(E, m, p) is the documented choice for path p: static before parameter before wildcard at the first
place where two patterns differ, then the method itself before "any"."""
import z3
from sym import *
from engine import *
from interp import *
from base import *
import stdmodel, fitmodel, mapmodel
from stdmodel import H as SH, VE, vpush, copy_or_move, needle
from props.path import enum
import loops

NQ = 'fitoria::web::router::node'
RT = 'fitoria::web::any_routable'
N = NQ + '::'
PAR, WLD = 1000, 1001
Ent = z3.DeclareSort('Ent')
F = z3.Function
ent = F('ent', Ent, Str, I, I)
dv = F('dv', Ent, Str, Ent)
eqent = F('eqent', Ent, Ent, B)
isnone = F('isnone', Ent, B)
ordy = F('ordy', Str, B)               # no PAR, no WLD
pre = F('pre', Str, Str, B)            # is a prefix of
AS, AE = z3.ArraySort(I, Str), z3.ArraySort(I, Ent)
sidx = F('sidx', AS, I, Str, I)        # last position whose text is a prefix of the pattern, or -1
fsl = F('fsl', Str, I)                 # position of the first '/', or the length
bst = F('bst', Ent, I, Str, I)
bq = F('bq', Ent, I, Str, Str)         # the pattern of the chosen entry
rm = F('rm', Str, Str, B)              # the pattern matches the path
pat = F('pat', I, I, Str)              # pattern of the tokens of a route from an index on
rmeth = F('rmeth', I, I)
ntok = F('ntok', I, I)
ktok = F('ktok', I, z3.ArraySort(I, I))
vtok = F('vtok', I, AS)
better = F('better', Str, Str, B)
mark = F('mark', B, B)                 # mentions a term; means nothing
UNK = 0                                # http::verb::unknown
uP, uW = sunit(iv(PAR)), sunit(iv(WLD))


def tail(q, k=1):
    return ssub(q, iv(k) if isinstance(k, int) else k, slen(q) - k)


def drop(q, s):
    return ssub(q, slen(s), slen(q) - slen(s))


def pick(E, q, m):
    return z3.If(ent(E, q, m) >= 0, ent(E, q, m), ent(E, q, iv(UNK)))


def head(p):
    return sunit(sat(p, 0))


def bs(E, m, p):
    """the choice among the patterns that go on with the first character of the path"""
    return bst(dv(E, head(p)), m, tail(p))


def cut(p):
    return ssub(p, fsl(p), slen(p) - fsl(p))


def bp(E, m, p):
    return bst(dv(E, uP), m, cut(p))


def bstdef(E, m, p):
    e, s, b = fsl(p), bs(E, m, p), bp(E, m, p)
    e0 = pick(E, sempty, m)
    return z3.And(bst(E, m, p) == z3.If(slen(p) == 0, z3.If(e0 >= 0, e0, pick(E, uW, m)),
                                       z3.If(s >= 0, s, z3.If(z3.And(e > 0, b >= 0), b, pick(E, uW, m)))))


def bqdef(E, m, p):
    e, s, b = fsl(p), bs(E, m, p), bp(E, m, p)
    return bq(E, m, p) == z3.If(slen(p) == 0, z3.If(pick(E, sempty, m) >= 0, sempty, uW),
                                z3.If(s >= 0, scat(head(p), bq(dv(E, head(p)), m, tail(p))),
                                      z3.If(z3.And(e > 0, b >= 0), scat(uP, bq(dv(E, uP), m, cut(p))), uW)))


def rmdef(q, p):
    """does the pattern match the path"""
    c = sat(q, 0)
    return rm(q, p) == z3.If(slen(q) == 0, slen(p) == 0,
                             z3.If(c == PAR, z3.And(slen(p) > 0, fsl(p) > 0, rm(tail(q), cut(p))),
                                   z3.If(c == WLD, slen(q) == 1, z3.And(slen(p) > 0, sat(p, 0) == c, rm(tail(q), tail(p))))))


def rank(q):
    return z3.If(slen(q) == 0, iv(0), z3.If(sat(q, 0) == PAR, iv(1), z3.If(sat(q, 0) == WLD, iv(2), iv(0))))


def betterdef(a, b):
    """a is preferred to b (or equal): at the first difference, static before parameter before wildcard"""
    return better(a, b) == z3.Or(z3.And(slen(a) == 0, slen(b) == 0), rank(a) < rank(b), z3.And(slen(a) > 0, slen(b) > 0, sat(a, 0) == sat(b, 0), better(tail(a), tail(b))))


def base_ax():
    E, D = z3.Consts('E D', Ent)
    q, s, t, a, b, p = z3.Consts('q s t a b p', Str)
    m, i, n, o = z3.Ints('m i n o')
    A = z3.ForAll
    T = z3.Const('T', AS)
    S = sidx(T, n, q)
    return [
        A([E, q, m], ent(E, q, m) >= -1, patterns=[ent(E, q, m)]),
        A([E, s, q, m], ent(dv(E, s), q, m) == ent(E, scat(s, q), m), patterns=[ent(dv(E, s), q, m)]),
        A([E, D], z3.Implies(A([q, m], ent(E, q, m) == ent(D, q, m), patterns=[ent(E, q, m), ent(D, q, m)]), eqent(E, D)), patterns=[eqent(E, D)]),
        A([E, D], eqent(E, D) == (E == D), patterns=[eqent(E, D)]),
        A([E], isnone(E) == A([q, m], ent(E, q, m) < 0, patterns=[ent(E, q, m)]), patterns=[isnone(E)]),
        # texts
        A([s], ordy(s) == A([i], z3.Implies(z3.And(i >= 0, i < slen(s)), z3.And(sat(s, i) != PAR, sat(s, i) != WLD)), patterns=[sat(s, i)]), patterns=[ordy(s)]),
        A([s, o, n], z3.Implies(z3.And(ordy(s), o >= 0, n >= 0, o + n <= slen(s)), ordy(ssub(s, o, n))), patterns=[ordy(ssub(s, o, n))]),
        ordy(sempty),
        A([a, b], pre(a, b) == z3.And(slen(a) <= slen(b), A([i], z3.Implies(z3.And(i >= 0, i < slen(a)), sat(a, i) == sat(b, i)), patterns=[sat(a, i), sat(b, i)])), patterns=[pre(a, b)]),
        A([a, b], z3.Implies(pre(a, b), b == scat(a, drop(b, a))), patterns=[pre(a, b)]),
        A([p], z3.And(fsl(p) >= 0, fsl(p) <= slen(p), z3.Implies(fsl(p) < slen(p), sat(p, fsl(p)) == 47)), patterns=[fsl(p)]),
        A([p, i], z3.Implies(z3.And(i >= 0, i < fsl(p)), sat(p, i) != 47), patterns=[z3.MultiPattern(fsl(p), sat(p, i))]),
        # sidx is the last match
        A([T, n, q], z3.And(S >= -1, z3.Implies(n >= 0, S < n), z3.Implies(z3.And(n >= 0, S >= 0), pre(z3.Select(T, S), q))), patterns=[S]),
        A([T, n, q, i], z3.Implies(z3.And(i >= 0, i < n, pre(z3.Select(T, i), q)), i <= S), patterns=[z3.MultiPattern(S, z3.Select(T, i))]),
    ]


def str_ax():
    a, b, s = z3.Consts('a b s', Str)
    o, n = z3.Ints('o n')
    A = z3.ForAll
    c = scat(a, b)
    return [
        A([a, b, o, n], z3.Implies(z3.And(o == slen(a), n == slen(b)), ssub(c, o, n) == b), patterns=[ssub(c, o, n)]),
        A([a, b, o, n], z3.Implies(z3.And(o >= 0, n >= 0, o < slen(a), o + n == slen(a) + slen(b)), ssub(c, o, n) == scat(ssub(a, o, slen(a) - o), b)), patterns=[ssub(c, o, n)]),
        A([a], z3.And(scat(sempty, a) == a, scat(a, sempty) == a), patterns=[scat(sempty, a), scat(a, sempty)]),
    ]


def str_lemmas(X):
    a, b = X.fresh('a', Str), X.fresh('b', Str)
    o, n = X.fint('o'), X.fint('n')
    c = scat(a, b)
    u = sunit(sat(a, 0))
    yield 'a text of one symbol', z3.Implies(slen(a) == 1, seqeq(a, u))
    yield 'a text is its first symbol and the rest', z3.Implies(slen(a) >= 1, seqeq(a, scat(u, tail(a))))
    yield 'a text of no symbols', z3.Implies(slen(a) == 0, seqeq(a, sempty))
    for s, t in ((sempty, a), (a, sempty)):
        yield 'concatenation with nothing', seqeq(scat(s, t), a)
    yield 'the end of a concatenation', z3.Implies(z3.And(o == slen(a), n == slen(b)), seqeq(ssub(c, o, n), b))
    yield 'a suffix of a concatenation', z3.Implies(z3.And(o >= 0, n >= 0, o < slen(a), o + n == slen(a) + slen(b)), seqeq(ssub(c, o, n), scat(ssub(a, o, slen(a) - o), b)))


AX = base_ax() + str_ax()


# ------------------------------------------------------------------ lemmas about the specification
def L_none(X):
    """bst of an empty set is -1: induction on the length of the path"""
    E, p, m = X.fresh('E', Ent), X.fresh('p', Str), X.fint('m')
    X.assume(isnone(E))
    X.assume(bstdef(E, m, p))
    for D, r in ((dv(E, head(p)), tail(p)), (dv(E, uP), cut(p))):
        X.assume(z3.Implies(z3.And(isnone(D), slen(p) > 0, slen(r) < slen(p)), bst(D, m, r) == -1))
    yield 'the entries below are none either', z3.And(isnone(dv(E, head(p))), isnone(dv(E, uP)))
    yield 'pick finds nothing', z3.And(pick(E, sempty, m) == -1, pick(E, uW, m) == -1)
    yield 'nothing is chosen from an empty set (induction step)', bst(E, m, p) == -1


def nochoice(E, s):
    k, m = z3.Int('nk'), z3.Int('nm')
    q = z3.Const('nq', Str)
    h = ssub(s, iv(0), k)
    f = z3.Implies(z3.And(k >= 1, k < slen(s)), z3.And(ent(E, scat(h, scat(uP, q)), m) < 0, ent(E, scat(h, uW), m) < 0))
    return f, [k, q, m]


def L_static(X):
    """no parameter or wildcard inside the text s: the choice below its first character is the choice below s"""
    E, s, p, m, k = X.fresh('E', Ent), X.fresh('s', Str), X.fresh('p', Str), X.fint('m'), X.fint('k')
    X.assume(z3.And(k >= 1, k < slen(s), pre(s, p)))
    f, vs = nochoice(E, s)
    X.assume(z3.ForAll(vs, f, patterns=[ent(E, scat(ssub(s, iv(0), vs[0]), scat(uP, vs[1])), vs[2])]))
    X.assume(z3.ForAll([vs[0], vs[2]], z3.Implies(z3.And(vs[0] >= 1, vs[0] < slen(s)), ent(E, scat(ssub(s, iv(0), vs[0]), uW), vs[2]) < 0), patterns=[ent(E, scat(ssub(s, iv(0), vs[0]), uW), vs[2])]))
    D, r = dv(E, ssub(s, iv(0), k)), tail(p, k)
    D2, r2 = dv(E, ssub(s, iv(0), k + 1)), tail(p, k + 1)
    X.assume(bstdef(D, m, r))
    goal = bst(dv(E, s), m, drop(p, s))
    X.assume(bst(D2, m, r2) == goal)
    q, mm = X.fresh('q', Str), X.fint('mm')
    yield 'first character', z3.And(slen(r) > 0, head(r) == sunit(sat(s, k)), seqeq(tail(r), r2))
    yield 'one character further', seqeq(scat(ssub(s, iv(0), k), sunit(sat(s, k))), ssub(s, iv(0), k + 1))
    yield 'associativity', seqeq(scat(ssub(s, iv(0), k), scat(head(r), q)), scat(scat(ssub(s, iv(0), k), head(r)), q))
    x, y, z = X.fresh('x', Str), X.fresh('y', Str), X.fresh('z', Str)
    yield 'associativity of concatenation', seqeq(scat(x, scat(y, z)), scat(scat(x, y), z))
    X.assume(z3.ForAll([q], scat(ssub(s, iv(0), k), scat(head(r), q)) == scat(scat(ssub(s, iv(0), k), head(r)), q), patterns=[scat(head(r), q)]))
    yield 'entries below', eqent(dv(D, head(r)), D2)
    yield 'no parameter there', isnone(dv(D, uP))
    X.assume(bp(D, m, r) == -1)        # L_none
    yield 'no wildcard there', pick(D, uW, m) == -1
    X.assume(bst(D2, m, r2) >= -1)     # L_low
    yield 'the choice is the one below s (induction step)', bst(D, m, r) == goal


def L_low(X):
    E, p, m = X.fresh('E', Ent), X.fresh('p', Str), X.fint('m')
    X.assume(bstdef(E, m, p))
    X.assume(z3.And(bs(E, m, p) >= -1, bp(E, m, p) >= -1))
    yield 'a choice is a route or -1', bst(E, m, p) >= -1


def sound(E, m, p):
    q = bq(E, m, p)
    return z3.Implies(bst(E, m, p) >= 0, z3.And(bst(E, m, p) == pick(E, q, m), rm(q, p)))


def L_sound(X):
    E, p, m = X.fresh('E', Ent), X.fresh('p', Str), X.fint('m')
    X.assume(ordy(p))
    q = bq(E, m, p)
    X.assume(z3.And(bstdef(E, m, p), bqdef(E, m, p), rmdef(q, p)))
    X.assume(z3.Implies(slen(p) > 0, sound(dv(E, head(p)), m, tail(p))))
    X.assume(z3.Implies(z3.And(slen(p) > 0, fsl(p) > 0), sound(dv(E, uP), m, cut(p))))
    yield 'the rest is shorter', z3.Implies(slen(p) > 0, z3.And(slen(tail(p)) < slen(p), z3.Implies(fsl(p) > 0, slen(cut(p)) < slen(p)), ordy(tail(p)), ordy(cut(p))))
    for lab, c in (('end of the path', slen(p) == 0), ('static', z3.And(slen(p) > 0, bs(E, m, p) >= 0)), ('parameter', z3.And(slen(p) > 0, bs(E, m, p) < 0, fsl(p) > 0, bp(E, m, p) >= 0)),
                   ('wildcard', z3.And(slen(p) > 0, bs(E, m, p) < 0, z3.Or(fsl(p) == 0, bp(E, m, p) < 0)))):
        yield 'the chosen route is an entry whose pattern matches the path (induction step, %s)' % lab, z3.Implies(c, sound(E, m, p))


def complete(E, m, p, q):
    return z3.Implies(z3.And(rm(q, p), pick(E, q, m) >= 0), z3.And(bst(E, m, p) >= 0, better(bq(E, m, p), q)))


def L_complete(X):
    E, p, q, m = X.fresh('E', Ent), X.fresh('p', Str), X.fresh('q', Str), X.fint('m')
    X.assume(ordy(p))
    X.assume(z3.And(bstdef(E, m, p), bqdef(E, m, p), rmdef(q, p), betterdef(bq(E, m, p), q)))
    X.assume(z3.And(bs(E, m, p) >= -1, bp(E, m, p) >= -1))
    t = tail(q)
    X.assume(betterdef(tail(bq(E, m, p)), t))
    X.assume(z3.Implies(slen(p) > 0, complete(dv(E, head(p)), m, tail(p), t)))
    X.assume(z3.Implies(z3.And(slen(p) > 0, fsl(p) > 0), complete(dv(E, uP), m, cut(p), t)))
    yield 'a pattern is its first symbol and the rest', z3.Implies(slen(q) > 0, seqeq(q, scat(sunit(sat(q, 0)), t)))
    yield 'the wildcard alone', z3.Implies(z3.And(slen(q) == 1, sat(q, 0) == WLD), seqeq(q, uW))
    for lab, c in (('end', slen(q) == 0), ('static', z3.And(slen(q) > 0, sat(q, 0) != PAR, sat(q, 0) != WLD)), ('parameter', z3.And(slen(q) > 0, sat(q, 0) == PAR)), ('wildcard', z3.And(slen(q) > 0, sat(q, 0) == WLD))):
        yield 'a matching entry is found unless a preferred one is (induction step, %s)' % lab, z3.Implies(c, complete(E, m, p, q))


def L_prefix(X):
    """a matching pattern that starts with a static text: the path starts with it (induction on the text)"""
    q, p, k, s = X.fresh('q', Str), X.fresh('p', Str), X.fint('k'), X.fresh('s', Str)
    X.assume(z3.And(pre(s, q), ordy(s), k >= 0, k < slen(s)))
    X.assume(z3.And(slen(p) >= k, rm(tail(q, k), tail(p, k))))
    X.assume(rmdef(tail(q, k), tail(p, k)))
    yield 'next', z3.And(slen(tail(q, k)) > 0, sat(tail(q, k), 0) == sat(s, k))
    yield 'rest of the pattern', seqeq(tail(tail(q, k)), tail(q, k + 1))
    yield 'one more character agrees (induction step)', z3.And(slen(p) >= k + 1, sat(p, k) == sat(s, k))
    yield 'rest of the path', seqeq(tail(tail(p, k)), tail(p, k + 1))
    yield 'the rests match (induction step)', rm(tail(q, k + 1), tail(p, k + 1))


def L_sidx(X):
    T, x, q, n = X.fresh('T', AS), X.fresh('x', Str), X.fresh('q', Str), X.fint('n')
    U = z3.Store(T, n, x)
    a, b = sidx(U, n + 1, q), sidx(T, n, q)
    X.assume(n >= 0)
    for t in (a, b):
        X.assume(z3.And(z3.Select(U, t) == z3.Select(U, t), z3.Select(T, t) == z3.Select(T, t)))
    X.assume(z3.Select(U, n) == x)
    yield 'last match after appending', z3.Implies(pre(x, q), a == n)
    yield 'and otherwise: not the new one', z3.Implies(z3.Not(pre(x, q)), a != n)
    yield 'same bound', z3.Implies(z3.Not(pre(x, q)), z3.And(a <= b, b <= a))


def sidx_ax():
    T, x, q, n, k = z3.Const('T', AS), z3.Const('x', Str), z3.Const('q', Str), z3.Int('n'), z3.Int('k')
    U = z3.Store(T, n, x)
    return [z3.ForAll([T, x, q, n, k], z3.Implies(z3.And(n >= 0, k == n + 1), sidx(U, k, q) == z3.If(pre(x, q), n, sidx(T, n, q))), patterns=[sidx(U, k, q)])]


# proved above; used for the code
def lem_ax():
    E = z3.Const('E', Ent)
    q, p, s = z3.Consts('q p s', Str)
    m = z3.Int('m')
    A = z3.ForAll
    return [A([E, m, p], bst(E, m, p) >= -1, patterns=[bst(E, m, p)]),
            A([E, m, p], z3.Implies(isnone(E), bst(E, m, p) == -1), patterns=[z3.MultiPattern(isnone(E), bst(E, m, p))]),
            A([q, p, s], z3.Implies(z3.And(rm(q, p), pre(s, q), ordy(s)), pre(s, p)), patterns=[z3.MultiPattern(rm(q, p), pre(s, q))])] + sidx_ax()


def sound_fact(E, m, p):
    """L_sound below the first character"""
    q = scat(head(p), bq(dv(E, head(p)), m, tail(p)))
    return z3.Implies(z3.And(slen(p) > 0, ordy(p), bs(E, m, p) >= 0), z3.And(z3.Or(ent(E, q, m) >= 0, ent(E, q, iv(UNK)) >= 0), rm(q, p), slen(q) >= 1, sat(q, 0) == sat(p, 0)))


# ------------------------------------------------------------------ values
def m_route(X, tid, t, name):
    i = X.fint(name + '_id')
    X.assume(i >= 0)
    return Rec(RT, {'id': i}, t['id'])


def moved_route(X, v):
    return Rec(RT, {'id': iv(-1)}, v.rid)


def ctor_route(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    raise Unsupported('construction of a route')


def rid(X, v):
    i = v.f['id']
    X.prove('the route is not used after it was moved away', i >= 0)
    return i


def h_method(X, c):
    m = rmeth(rid(X, c.self()))
    X.range_fact(m, c.fn['ret'])
    return m


def tokens(X, i, tt):
    """tokens of a route: a member of path_matcher"""
    rec = X.prog.rec[tt['id']]
    f = {}
    for fl in rec['fields']:
        ft = X.prog.t(fl['t'])
        if ft['q'] == 'std::vector':
            et = X.targ(ft, 0)
            el = X.prog.t(et)
            fs = X.prog.rec[el['id']]['fields']
            if len(fs) != 2:
                raise Unsupported('path_token_t has other members')
            names = {('value' if X.prog.t(g['t'])['k'] == 'rec' else 'kind'): g['n'] for g in fs}
            arr = {}
            for g in fs:
                arr[g['n']] = vtok(i) if g['n'] == names['value'] else ktok(i)
            f[fl['n']] = Vec(ntok(i), Rec(el['q'], arr, el['id']), et)
        else:
            f[fl['n']] = X.mk(fl['t'], 'mt')
    return Rec(tt['q'], f, tt['id'])


def h_matcher(X, c):
    i = rid(X, c.self())
    tt = X.prog.t(X.prog.strip(c.fn['ret']))
    return ValLV(tokens(X, i, tt))


def m_node(X, tid, t, name):
    h = X.fint(name + '_h')
    X.assume(h >= 0)
    return Rec(NQ, {'prefix_': X.fresh(name + '_prefix', Str), '#abs': X.fresh(name + '_abs', Ent), '#h': h}, t['id'])


ROLES = ('prefix_', 'routes_', 'statics_', 'params_', 'wildcard_')


def roles(X, v):
    """the fields of a node by their kind (two maps: in declaration order routes of this node, then wildcard routes)"""
    r, maps = {}, []
    for k, x in v.f.items():
        if k.startswith('#'):
            continue
        if isinstance(x, MapV):
            maps.append(k)
        elif isinstance(x, Vec):
            r['statics_'] = k
        elif isinstance(x, Opt):
            r['params_'] = k
        elif isinstance(x, z3.ExprRef) and x.sort() == Str:
            r['prefix_'] = k
    if len(maps) != 2 or len(r) != 3:
        raise Unsupported('members of node')
    r['routes_'], r['wildcard_'] = maps
    return r


def fl(X, v, role):
    return v.f[roles(X, v)[role]]


def prefix(X, v):
    return v.f['prefix_'] if '#abs' in v.f else fl(X, v, 'prefix_')


def routeat(m, k):
    i = z3.Select(m.arr.f['second'].f['id'], k)
    return z3.If(z3.And(z3.Select(m.dom, k), i >= 0), i, iv(-1))


def prefixes(X, v):
    s = fl(X, v, 'statics_')
    return s.arr.f['prefix_'], s.arr.f['#abs'], s.n


def unfold(X, v, q, m):
    """the route a node stores for pattern q and method m"""
    T, E, n = prefixes(X, v)
    p = fl(X, v, 'params_')
    j = sidx(T, n, q)
    return z3.If(slen(q) == 0, routeat(fl(X, v, 'routes_'), m),
                 z3.If(sat(q, 0) == PAR, z3.If(p.has, ent(p.val.f['#abs'], tail(q), m), iv(-1)),
                       z3.If(sat(q, 0) == WLD, z3.If(slen(q) == 1, routeat(fl(X, v, 'wildcard_'), m), iv(-1)),
                             z3.If(j < 0, iv(-1), ent(z3.Select(E, j), drop(q, z3.Select(T, j)), m)))))


def ab(X, v):
    """the entry set of a node value"""
    if '#abs' in v.f:
        return v.f['#abs']
    key = tuple(l.get_id() for l in allleaves(v) if isinstance(l, z3.ExprRef))
    memo = X.st.ghost.setdefault('abs', ())
    for k, ls, A in memo:
        if k == key:
            return A
    A = X.fresh('abs', Ent)
    q, m = z3.Const('uq', Str), z3.Int('um')
    X.assume(z3.ForAll([q, m], ent(A, q, m) == unfold(X, v, q, m), patterns=[ent(A, q, m)]))
    X.st.ghost['abs'] = memo + ((key, [l for l in allleaves(v)], A),)
    return A


def allleaves(v):
    if isinstance(v, z3.ExprRef):
        return [v]
    if not isinstance(v, V):
        return []
    r = []
    for x in ([v.dom, v.arr, v.n] if isinstance(v, MapV) else v.leaves()):
        r += allleaves(x)
    return r


def idsok(X, m):
    k = z3.Int('ik')
    return z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.Select(m.arr.f['second'].f['id'], k) >= 0), patterns=[z3.Select(m.dom, k)])


def inv(X, v, prove=False):
    """type invariant of a node: static children have non-empty plain prefixes, none of which is a prefix of another"""
    T, E, n = prefixes(X, v)
    r = []
    if prove:
        i, j = X.fint('ii'), X.fint('ij')
        a, b = z3.Select(T, i), z3.Select(T, j)
        r.append(('no static child prefix is a prefix of another', z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j), z3.Not(pre(a, b)))))
        r.append(('static child prefixes are not empty', z3.Implies(z3.And(i >= 0, i < n), slen(a) > 0)))
        r.append(('static child prefixes are plain text', z3.Implies(z3.And(i >= 0, i < n), ordy(a))))
        k = X.fint('ik')
        for w in ('routes_', 'wildcard_'):
            m = fl(X, v, w)
            r.append(('the stored routes are not moved-from', z3.Implies(z3.Select(m.dom, k), z3.Select(m.arr.f['second'].f['id'], k) >= 0)))
        return r
    i, j = z3.Int('ii'), z3.Int('ij')
    a, b = z3.Select(T, i), z3.Select(T, j)
    return [('', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j), z3.Not(pre(a, b))), patterns=[z3.MultiPattern(a, b)])),
            ('', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(slen(a) > 0, ordy(a))), patterns=[a])),
            ('', idsok(X, fl(X, v, 'routes_'))), ('', idsok(X, fl(X, v, 'wildcard_')))]


def mkfull(X, tid, name='self'):
    tid = X.prog.strip(tid)
    t = X.prog.t(tid)
    rec = X.prog.rec[t['id']]
    v = Rec(t['q'], {f['n']: X.mk(f['t'], name + '.' + f['n']) for f in rec['fields']}, t['id'])
    for _, f in inv(X, v):
        X.assume(f)
    # every tree is finite: children have a smaller height
    h = X.fint('height')
    T, E, n = prefixes(X, v)
    i = z3.Int('ih')
    s = fl(X, v, 'statics_')
    hh = z3.Select(s.arr.f['#h'], i)
    X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(hh >= 0, hh < h)), patterns=[hh]))
    p = fl(X, v, 'params_')
    X.assume(z3.And(h >= 0, z3.Implies(p.has, z3.And(p.val.f['#h'] >= 0, p.val.f['#h'] < h))))
    v.f['#height'] = h
    return v


def height(v):
    return v.f['#h'] if '#h' in v.f else v.f['#height']


def isnode(v):
    return isinstance(v, Rec) and v.q == NQ


def fold(X, v):
    """a node becomes an element of a container: its invariant is an obligation"""
    if not isnode(v) or '#abs' in v.f:
        return v
    for lab, f in inv(X, v, True):
        X.prove('a node stored in the tree: ' + lab, f)
    A = ab(X, v)
    h = X.fint('h')
    X.assume(h >= 0)
    return Rec(NQ, {'prefix_': fl(X, v, 'prefix_'), '#abs': A, '#h': h}, v.rid)


def moved_node(X, v):
    if '#abs' in v.f:
        return Rec(NQ, {'prefix_': X.fresh('mvp', Str), '#abs': X.fresh('mva', Ent), '#h': X.fint('mvh')}, v.rid)
    f = {}
    for k, x in v.f.items():
        f[k] = x if k.startswith('#') else Opt(z3.BoolVal(False), x.val) if isinstance(x, Opt) else X.moved(x)
    return Rec(NQ, f, v.rid)


def h_push(X, c):
    v, x = c.self(), c.v(0)
    X.write(c.this, vpush(X, v, fold(X, x)))
    pt = X.prog.t(c.fn['params'][0]['t'])
    if pt['k'] == 'rref' and isinstance(c.args[0], LV):
        X.write(c.args[0], X.moved(x))
    return UNIT


def h_emplace(X, c):
    """only for classes with an explicit constructor taking the arguments"""
    v = c.self()
    et = X.targ(X.prog.t(c.fn['rect']), 0)
    q = X.prog.t(et).get('q')
    if q == 'std::pair' and len(c.args) == 2:
        t = X.prog.t(et)
        a, b = [stdmodel.convert(X, c.v(i), None, t['ta'][i]['t']) for i in (0, 1)]
        for i in (0, 1):
            pt = X.prog.t(c.fn['params'][i]['t'])
            if pt['k'] == 'rref' and isinstance(c.args[i], LV) and not isinstance(c.v(i), View):
                X.write(c.args[i], X.moved(c.v(i)))
        X.write(c.this, vpush(X, v, Rec(t['q'], {'first': a, 'second': b}, t['id'])))
    elif q == NQ and len(c.args) <= 1:
        rec = X.prog.rec[X.prog.t(et)['id']]
        node = default_node(X, et, X.prog.t(et))
        if c.args:
            a = c.v(0)
            if isnode(a):
                node = a
                if isinstance(c.args[0], LV):
                    X.write(c.args[0], X.moved(a))
            else:
                k = roles(X, node)['prefix_']
                node = node.with_(k, X.vterm(a))
        X.write(c.this, vpush(X, v, fold(X, node)))
    else:
        raise Unsupported('emplace_back of this class')
    return c.this.i(v.n)


def default_node(X, tid, t):
    rec = X.prog.rec[t['id']]
    return Rec(t['q'], {f['n']: X.zero(f['t']) for f in rec['fields']}, t['id'])


def m_uptr(X, tid, t, name):
    return Opt(X.fresh(name + '_nn', B), X.mk(X.targ(t, 0), name + '_v'))


def d_uptr(X, tid, t):
    return Opt(z3.BoolVal(False), X.mk(X.targ(t, 0), 'nul'))


def c_uptr(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        src = X.ev(e['a'][0])
        if not isl(src):
            return src
        v = X.read(src)
        X.write(src, Opt(z3.BoolVal(False), v.val))
        return v
    if not e['a']:
        return d_uptr(X, tid, t)
    v = X.rv(e['a'][0])
    if isinstance(v, NullP):
        return d_uptr(X, tid, t)
    if isinstance(v, Opt):
        return v
    raise Unsupported('unique_ptr constructor')


def deref(X, c):
    s = c.self()
    X.prove('a null unique_ptr is not dereferenced', s.has)
    return c.this.step('o') if isinstance(c.this, LV) else ValLV(s.val)


def h_mkuniq(X, c):
    to = X.targ(X.prog.t(c.fn['ret']), 0)
    t = X.prog.t(to)
    if t['q'] == NQ and not c.args:
        return Opt(z3.BoolVal(True), fold(X, default_node(X, to, t)))
    if t['q'] == NQ and len(c.args) == 1:
        a = c.v(0)
        if isnode(a):
            return Opt(z3.BoolVal(True), fold(X, a))
        n = default_node(X, to, t)
        return Opt(z3.BoolVal(True), fold(X, n.with_(roles(X, n)['prefix_'], X.vterm(a))))
    raise Unsupported('make_unique of this class')


def h_uasg(X, c):
    v = c.v(0)
    if isinstance(v, NullP):
        v = Opt(z3.BoolVal(False), c.self().val)
    X.write(c.this, v)
    if isinstance(c.args[0], LV):
        X.write(c.args[0], Opt(z3.BoolVal(False), v.val))
    return c.this


UP = 'std::unique_ptr::'
MM = 'std::multimap'


def d_mm(X, tid, t):
    kt, vt = mapmodel.mktypes(t)
    el = Rec('std::pair', {'first': X.mk(kt, 'k'), 'second': X.mk(vt, 'v')})
    return Vec(iv(0), lift_const(el, lambda s: X.fresh('mm0', s)), None)


def h_mmins(X, c):
    v, x = c.self(), c.v(0)
    if not isinstance(x, Rec) or 'second' not in x.f:
        raise Unsupported('multimap::insert form')
    el = Rec('std::pair', {'first': x.f['first'], 'second': fold(X, x.f['second'])})
    X.write(c.this, vpush(X, v, el))
    if isinstance(c.args[0], LV):
        X.write(c.args[0], X.moved(x))
    return UNIT


def h_mmemp(X, c):
    if len(c.args) != 2:
        raise Unsupported('multimap::emplace form')
    el = Rec('std::pair', {'first': c.v(0), 'second': fold(X, c.v(1))})
    X.write(c.this, vpush(X, c.self(), el))
    if isinstance(c.args[1], LV):
        X.write(c.args[1], X.moved(c.v(1)))
    return UNIT


def h_mmbegin(X, c):
    """the elements in some order"""
    v = c.self()
    if '#sorted' in (X.st.ghost.get(('mm', c.this.loc)) or ''):
        return VIter(c.this, iv(0))
    pm, ip = z3.Function('perm!%d' % X.st.ctr, I, I), z3.Function('iperm!%d' % X.st.ctr, I, I)
    X.st.ctr += 1
    i = z3.Int('ip')

    def f(a):
        b = X.fresh('mmold', a.sort())
        X.assume(b == a)
        r = X.fresh('mmseq', a.sort())
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), z3.Select(r, i) == z3.Select(b, pm(i))), patterns=[z3.Select(r, i)]))
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), z3.Select(b, i) == z3.Select(r, ip(i))), patterns=[z3.Select(b, i)]))
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), z3.Select(r, ip(i)) == z3.Select(b, i)), patterns=[ip(i)]))
        return r
    X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), z3.And(pm(i) >= 0, pm(i) < v.n, ip(pm(i)) == i)), patterns=[pm(i)]))
    X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), z3.And(ip(i) >= 0, ip(i) < v.n, pm(ip(i)) == i)), patterns=[ip(i)]))
    X.write(c.this, Vec(v.n, mapleaf(v.arr, f), v.et))
    X.st.ghost[('mm', c.this.loc)] = '#sorted'
    X.st.ghost[('perm', c.this.loc)] = (pm, ip, v)
    return VIter(c.this, iv(0))


def it_star(X, c):
    it = c.self()
    if isinstance(it, VIter):
        return X.deref(it)
    return mapmodel.it_lv(X, it)


def it_inc(X, c):
    it = c.self()
    if not isinstance(it, VIter):
        raise Unsupported('iteration over this container')
    if len(c.fn['params']) == 1:
        X.write(c.this, VIter(it.lv, it.idx + 1))
        return it
    X.write(c.this, VIter(it.lv, simp(it.idx + 1)))
    return c.this


def it_eq(X, a, b):
    if isinstance(a, VIter) and isinstance(b, VIter):
        return a.idx == b.idx
    return mapmodel.it_eq(X, a, b)


# expected<const route&, error_code>: the referenced route
def reft(X, t):
    return X.prog.strip(t['ta'][0]['t'])


def h_orelse(X, c):
    s = c.self()
    if X.branch(s.has):
        return s
    return X.call_value(c.args[0], [X.alloc(s.err)])


def h_andthen(X, c):
    s = c.self()
    if not X.branch(s.has):
        raise Unsupported('and_then')
    return X.call_value(c.args[0], [ValLV(s.val)])


def h_starts(X, c):
    v = c.self()
    if X.prog.t(X.prog.strip(c.fn['params'][0]['t']))['k'] == 'rec':
        return pre(X.vterm(c.v(0)), X.vterm(v))
    return stdmodel.starts(X, X.as_view(v), needle(X, c))


def h_erase(X, c):
    """std::string::erase(pos, count)"""
    s, o = c.self(), c.v(0)
    n = c.v(1) if len(c.args) > 1 else None
    if not isinstance(o, z3.ExprRef):
        raise Unsupported('string erase form')
    if not X.branch(o <= slen(s)):
        raise CppThrow(None, 'out_of_range')
    k = slen(s) - o if n is None else z3.If(n <= slen(s) - o, n, slen(s) - o)
    k = simp(k)
    if z3.is_int_value(simp(o)) and simp(o).as_long() == 0:
        X.write(c.this, X.sub(s, k, simp(slen(s) - k)))
    else:
        X.write(c.this, X.cat(X.sub(s, iv(0), o), X.sub(s, simp(o + k), simp(slen(s) - o - k))))
    return c.this


HANDLERS = {'ctor:' + RT: ctor_route, 'moved:' + RT: moved_route, RT + '::method': h_method, RT + '::matcher': h_matcher,
            'moved:' + NQ: moved_node, 'default:' + NQ: default_node,
            VE + 'push_back': h_push, VE + 'emplace_back': h_emplace,
            'default:std::unique_ptr': d_uptr, 'ctor:std::unique_ptr': c_uptr, UP + 'operator->': lambda X, c: Ptr(deref(X, c)), UP + 'operator*': deref,
            UP + '(conv)': lambda X, c: c.self().has, UP + 'operator bool': lambda X, c: c.self().has, UP + 'get': lambda X, c: Ptr(c.this.step('o'), c.self().has),
            UP + 'operator=': h_uasg, 'std::make_unique': h_mkuniq,
            'default:' + MM: d_mm, 'ctor:' + MM: lambda X, e, fn, tid, t: d_mm(X, tid, t) if not e['a'] else copy_or_move(X, e, fn), MM + '::insert': h_mmins, MM + '::emplace': h_mmemp,
            MM + '::begin': h_mmbegin, MM + '::end': lambda X, c: VIter(c.this, c.self().n),
            'std::_Rb_tree_iterator::operator*': it_star, 'std::_Rb_tree_iterator::operator++': it_inc, 'eq:std::_Rb_tree_iterator': it_eq,
            fitmodel.EX + '::or_else': h_orelse, stdmodel.SV + 'starts_with': h_starts, stdmodel.ST + 'starts_with': h_starts, stdmodel.ST + 'erase': h_erase}
MODELS = {NQ: m_node, RT: m_route, 'std::unique_ptr': m_uptr}


# ------------------------------------------------------------------ contracts
def errval(X, name):
    for f in X.prog.fn.values():
        for p in f['params']:
            t = X.prog.t(X.prog.strip(p['t']))
            if t.get('q') == 'fitoria::web::error':
                return enum(X, X.prog.strip(p['t']), name)
    raise Unsupported('fitoria::web::error')


def is_err(X, e, name):
    return z3.And(e.f['value'] == errval(X, name), e.f['category'] == fitmodel.cat_id('fitoria::web::error_category'))


def s_node(X, fn):
    this = X.alloc(mkfull(X, fn['rect']), fn['rect'])
    _, args = X.default_setup({**fn, 'kind': 'function'})
    return this, args, {}


def toks_ok(X, i):
    """what path_parser guarantees about the tokens of a route (P01): plain texts, wildcards only at the end"""
    k = z3.Int('tk')
    return z3.And(i >= 0, ntok(i) >= 0, ntok(i) < 1 << 60, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ntok(i)), z3.And(
        z3.Select(ktok(i), k) >= 0, z3.Select(ktok(i), k) <= 2, slen(z3.Select(vtok(i), k)) <= 1 << 62, ordy(z3.Select(vtok(i), k)),
        z3.Implies(z3.Select(ktok(i), k) == 2, k == ntok(i) - 1))), patterns=[z3.Select(ktok(i), k), z3.Select(vtok(i), k)]))


def patdef(i, k):
    kk, v = z3.Select(ktok(i), k), z3.Select(vtok(i), k)
    return z3.And(pat(i, k) == z3.If(k >= ntok(i), sempty, z3.If(kk == 0, scat(v, pat(i, k + 1)), z3.If(kk == 1, scat(uP, pat(i, k + 1)), uW))))


def argof(cx, role):
    """argument by its type, in the order route / text / index"""
    X = cx.X
    for p, a in zip(cx.fn['params'], cx.args):
        t = X.prog.t(X.prog.strip(p['t']))
        if role == 'route' and t.get('q') == RT:
            return a.f['id']
        if role == 'text' and t.get('q') == 'std::basic_string_view':
            return X.vterm(a)
        if role == 'int' and t['k'] == 'int':
            return a
        if role == 'verb' and t['k'] == 'enum':
            return a
    return None


def ins_args(cx):
    i, k = argof(cx, 'route'), argof(cx, 'int')
    return i, iv(0) if k is None else k


def ins_pattern(cx):
    i, k = ins_args(cx)
    t = argof(cx, 'text')
    return scat(t, pat(i, k + 1)) if t is not None else pat(i, k)


def pre_ins(cx):
    X = cx.X
    i, k = ins_args(cx)
    t = argof(cx, 'text')
    X.assume(z3.And(patdef(i, k), patdef(i, k + 1)))
    r = [('the route and its tokens are valid', toks_ok(X, i) if cx.proving else z3.And(i >= 0, True))]
    if not cx.proving:
        # the tokens of one and the same route: already assumed there
        v = X.verifying
        j = argof(X.cx, 'route') if getattr(v, 'is_ins', False) else None
        r = [('the route is the one being inserted', i == j if j is not None else toks_ok(X, i))]
    r.append(('the index is a token or the end', z3.And(k >= 0, k < ntok(i) if t is not None else k <= ntok(i))))
    if t is not None:
        r.append(('the rest of the static token is plain text', ordy(t)))
    return r


def rebase_path(X, b, v):
    return b


def mod_ins(cx):
    v = cx.this0
    if '#abs' in v.f:
        return [cx.this.f('#abs'), cx.this.f('#h')]
    return [cx.this.f(k) for k in v.f if k not in ('#height', roles(cx.X, v)['prefix_'])]


def shape(q):
    """lemma 'texts' for this text"""
    u = sunit(sat(q, 0))
    return z3.And(z3.Implies(slen(q) == 0, q == sempty), z3.Implies(slen(q) == 1, q == u), z3.Implies(slen(q) >= 1, q == scat(u, tail(q))))


def upd(cx, A0, A1, q, m, i):
    X = cx.X
    if cx.proving:
        x, y = X.fresh('q', Str), X.fint('m')
        X.assume(shape(x))
        return [('exactly the entry for (pattern, method) is added', ent(A1, x, y) == z3.If(z3.And(x == q, y == m), i, ent(A0, x, y)))]
    x, y = z3.Const('uq2', Str), z3.Int('um2')
    return [('', z3.ForAll([x, y], ent(A1, x, y) == z3.If(z3.And(x == q, y == m), i, ent(A0, x, y)), patterns=[ent(A1, x, y)]))]


def post_ins(cx, r):
    X = cx.X
    v0, v1 = cx.this0, cx.this1
    i, k = ins_args(cx)
    q, m = ins_pattern(cx), rmeth(i)
    out = []
    if not cx.proving:
        if '#abs' not in v1.f:
            for _, f in inv(X, v1):
                X.assume(f)
    elif '#abs' not in v1.f:
        out += inv(X, v1, True)
    A0, A1 = ab(X, v0), ab(X, v1)
    old = ent(A0, q, m)
    out += [('fails exactly when the (pattern, method) pair is taken', r.has == (old < 0)),
            ('the error is route_already_exists', z3.Implies(z3.Not(r.has), is_err(X, r.err, 'route_already_exists')))]
    u = upd(cx, A0, A1, q, m, i)
    out += [(l, z3.Implies(r.has, f)) for l, f in u]
    if cx.proving:
        x, y = X.fresh('q', Str), X.fint('m')
        out.append(('a failed insertion changes no entry', z3.Implies(z3.Not(r.has), ent(A1, x, y) == ent(A0, x, y))))
        out.append(('the prefix of the node stays', prefix(X, v1) == prefix(X, v0)))
    else:
        X.assume(eqent(A1, A0) == (A1 == A0))
        out.append(('', z3.Implies(z3.Not(r.has), A1 == A0)))
    return out


def m_ins(cx):
    i, k = ins_args(cx)
    t = argof(cx, 'text')
    n = ntok(i) - k
    if t is None:
        return (n, iv(1 << 63), iv(1 if argof(cx, 'int') is not None else 2))
    return (n, slen(t), iv(0))


def nargs(n):
    return lambda X, fn: len(fn['params']) == n


def con_ins(q, **kw):
    c = Contract(q, pre=pre_ins, post=post_ins, setup=s_node, modifies=mod_ins, measure=m_ins, **kw)
    c.is_ins = True
    return c


INS1 = con_ins(N + 'try_insert', match=nargs(1), name='router::node::try_insert(route)')
INS = con_ins(N + 'try_insert', match=nargs(2), name='router::node::try_insert')
INSS = con_ins(N + 'try_insert_static', match=nargs(3), name='router::node::try_insert_static')


def pre_find(cx):
    p = argof(cx, 'text')
    return [('the path is plain text', ordy(p))]


def post_find(cx, r):
    X = cx.X
    A, m, p = ab(X, cx.this0), argof(cx, 'verb'), argof(cx, 'text')
    b = bst(A, m, p)
    out = [('a route exactly when one matches', r.has == (b >= 0)), ('the documented choice', z3.Implies(r.has, r.val.f['id'] == b)),
           ('otherwise route_not_exists', z3.Implies(z3.Not(r.has), is_err(X, r.err, 'route_not_exists')))]
    if not cx.proving and getattr(X.verifying, 'is_find', False):
        A0, p0 = ab(X, X.cx.this0), argof(X.cx, 'text')
        s = prefix(X, cx.this0)
        if any(t[0] == 'o' for t in cx.this.path):
            x, y = X.fresh('q', Str), X.fint('m')
            X.prove('the entries behind the parameter are those of the child', ent(dv(A0, uP), x, y) == ent(A, x, y))
            X.assume(dv(A0, uP) == A)
        else:
            f, vs = nochoice(A0, s)
            x, y = X.fresh('q', Str), X.fint('m')
            X.prove('the entries behind the prefix are those of the child', ent(dv(A0, s), x, y) == ent(A, x, y))
            X.assume(dv(A0, s) == A)
            k = X.fint('nk')
            T, E, n = prefixes(X, X.cx.this0)
            for z in (scat(ssub(s, iv(0), k), scat(uP, x)), scat(ssub(s, iv(0), k), uW)):
                j = sidx(T, n, z)
                c = z3.Select(T, j)
                hyp = z3.And(k >= 1, k < slen(s), j >= 0)
                X.prove('no parameter or wildcard inside the prefix (1)', z3.Implies(hyp, z3.And(sat(z, k) >= PAR, z3.Or(slen(c) <= k, sat(c, k) == sat(z, k)))))
                X.prove('no parameter or wildcard inside the prefix (2)', z3.Implies(hyp, slen(c) <= k))
                X.prove('no parameter or wildcard inside the prefix (3)', z3.Implies(hyp, pre(c, s)))
                X.prove('no parameter or wildcard inside the prefix (4)', z3.Implies(z3.And(k >= 1, k < slen(s)), j < 0))
            X.prove('no parameter or wildcard inside the prefix', z3.substitute(f, (vs[0], k), (vs[1], x), (vs[2], y)))
            # lemma 'choice below a static text'
            X.assume(z3.Implies(z3.And(slen(s) >= 1, pre(s, p0)), bs(A0, m, p0) == bst(A, m, drop(p0, s))))
            X.prove('the rest of the path', drop(p0, s) == p)
    return out


def s_find(X, fn):
    this, args, ex = s_node(X, fn)
    v = X.read(this)
    p = m = None
    for q, a in zip(fn['params'], args):
        x = X.read(a) if isl(a) else a
        t = X.prog.t(X.prog.strip(q['t']))
        if t['k'] == 'enum':
            m = x
        elif t.get('q') == 'std::basic_string_view':
            p = X.vterm(x)
    A = ab(X, v)
    X.assume(bstdef(A, m, p))
    X.assume(sound_fact(A, m, p))
    X.assume(mark(isnone(dv(A, uP))))
    # the argument of the case "no such child": its patterns start with a child prefix
    q = scat(head(p), bq(dv(A, head(p)), m, tail(p)))
    T, E, n = prefixes(X, v)
    j = sidx(T, n, q)
    X.assume(z3.Implies(j >= 0, pre(z3.Select(T, j), q)))
    return this, args, ex


FIND = Contract(N + 'try_find', pre=pre_find, post=post_find, setup=s_find, match=nargs(2), name='router::node::try_find', measure=lambda cx: (height(cx.this0),))
FIND.is_find = True


def mod_opt(cx):
    v = cx.this0
    if '#abs' in v.f:
        return [cx.this.f('#h')]
    return mod_ins(cx)


def post_opt(cx, r):
    X = cx.X
    v0, v1 = cx.this0, cx.this1
    out = []
    if '#abs' in v1.f:
        return out
    if not cx.proving:
        for _, f in inv(X, v1):
            X.assume(f)
        return [('', ab(X, v1) == ab(X, v0))]
    A0, A1 = ab(X, v0), ab(X, v1)
    x, y = X.fresh('q', Str), X.fint('m')
    T0, _, n0 = prefixes(X, v0)
    T1, _, n1 = prefixes(X, v1)
    for T, n in ((T0, n0), (T1, n1)):
        for U in (T0, T1):
            X.assume(z3.Select(U, sidx(T, n, x)) == z3.Select(U, sidx(T, n, x)))
    return inv(X, v1, True) + [('the entries stay the same', ent(A1, x, y) == ent(A0, x, y)), ('the prefix of the node stays', prefix(X, v1) == prefix(X, v0))]


OPT = Contract(N + 'optimize', pre=lambda cx: [], post=post_opt, setup=s_node, modifies=mod_opt, match=nargs(0), name='router::node::optimize', measure=lambda cx: (height(cx.this0),))


# the router object
def r_node(X, v):
    ns = [x for x in v.f.values() if isnode(x)]
    if len(ns) != 1:
        raise Unsupported('members of router')
    return ns[0]


class Sub:
    """contract instance seen from the root node"""
    def __init__(self, cx):
        self.__dict__.update(cx.__dict__)
        self._cx = cx
        self.this0 = r_node(cx.X, cx.this0)

    @property
    def this1(self):
        return r_node(self.X, self._cx.this1)


def on_root(f):
    return lambda cx, *a: f(Sub(cx), *a)


def pre_rins(cx):
    i = argof(cx, 'route')
    cx.X.assume(z3.And(patdef(i, iv(0)), patdef(i, iv(1))))
    return [('the route is valid', toks_ok(cx.X, i))]


R = 'fitoria::web::router::'
RINS = Contract(R + 'try_insert', pre=pre_rins, post=on_root(post_ins), match=nargs(1), frame=False, name='router::try_insert')
RFIND = Contract(R + 'try_find', pre=pre_find, post=on_root(post_find), match=nargs(2), name='router::try_find')
ROPT = Contract(R + 'optimize', post=on_root(lambda cx, r: [('the entries stay the same', cx.this1.f['#abs'] == cx.this0.f['#abs'])]), match=nargs(0), frame=False, name='router::optimize')


# ------------------------------------------------------------------ loop invariants
def vecs(lc):
    return [c for c in lc.cells if isinstance(c.val, Vec) and isinstance(c.val.arr, Rec) and (isnode(c.val.arr) or 'second' in c.val.arr.f and isnode(c.val.arr.f['second']))]


def nodes(v):
    return v.arr.f['second'] if 'second' in v.arr.f else v.arr


class Ns:
    """the elements of a vector of nodes in a state, with named arrays (for patterns)"""
    def __init__(self, lc, s, v):
        v = s.get(v) if isinstance(v, (loops.Cell, LV)) else v
        X = lc.X
        self.n = v.n
        f = nodes(v).f

        def nm(a):
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return a
            sv, X.st = X.st, s.st
            try:
                b = X.fresh('seq', a.sort())
                X.assume(b == a)
            finally:
                X.st = sv
            return b
        self.T, self.E, self.h = nm(f['prefix_']), nm(f['#abs']), nm(f['#h'])

    def t(self, i):
        return z3.Select(self.T, i)


def same(a, b, i):
    return z3.And(a.t(i) == b.t(i), z3.Select(a.E, i) == z3.Select(b.E, i), z3.Select(a.h, i) == z3.Select(b.h, i))


def its(lc):
    return [c for c in lc.cells if isinstance(c.val, VIter)] + [c for c in lc.cells if isinstance(c.val, z3.ExprRef) and c.val.sort() == I]


def pos(s, c):
    v = s.get(c)
    return v.idx if isinstance(v, VIter) else v


def statics_of_this(lc):
    """lvalue of the static children of the node under verification"""
    X = lc.X
    for f in lc.entry.frames:
        if isinstance(f.this, LV):
            st = lc.entry
            sv, X.st = X.st, st
            try:
                v = X.read(f.this)
            finally:
                X.st = sv
            if isnode(v) and '#abs' not in v.f:
                return LV(f.this.loc, f.this.path + (('f', roles(X, v)['statics_']),))
    return None


def texts(lc):
    """texts (views) in scope: the token or the path"""
    out = []
    for v in lc.entry.frames[-1].vars.values():
        if isinstance(v, LV):
            x = lc.entry.store.get(v.loc)
            try:
                for s in v.path:
                    x = lc.X.sel(x, s)
            except Exception:
                continue
            if isinstance(x, View):
                out.append(lc.X.vterm(x))
    return out


def pool(lc):
    X = lc.X
    S = statics_of_this(lc)
    if S is None:
        return
    S0 = Ns(lc, loops.S(lc, X.st, iv(0)), lc.e(S))
    j = z3.Int('lj')
    A = z3.ForAll
    vs = vecs(lc)
    tk = texts(lc)
    for c in its(lc):
        rest = lambda s, c=c: z3.And(j >= 0, j < pos(s, c))
        # search: no child before this place is a prefix
        for p in tk:
            lc.add('no child so far is a prefix of the text (%s)' % c.name, lambda s, p=p, rest=rest: A([j], z3.Implies(rest(s), z3.Not(pre(S0.t(j), p))), patterns=[S0.t(j)]))
        for v in vs:
            v0 = Ns(lc, loops.S(lc, X.st, iv(0)), lc.e(v))

            def untouched(s, v=v, v0=v0, c=c):
                w = Ns(lc, s, v)
                return z3.And(w.n == v0.n, A([j], z3.Implies(z3.And(j >= pos(s, c), j < v0.n), same(w, v0, j)), patterns=[w.t(j)]))
            lc.add('elements from here on are untouched (%s)' % v.name, untouched)
            for nm, src in copy_sources(lc, S):
                def copied(s, v=v, src=src, rest=rest, c=c):
                    w = Ns(lc, s, v)
                    return z3.And(w.n == pos(s, c), A([j], z3.Implies(rest(s), z3.And(w.t(j) == src.t(j), z3.Select(w.E, j) == z3.Select(src.E, j))), patterns=[w.t(j), src.t(j)]))
                lc.add('%s holds the first elements of %s' % (v.name, nm), copied)
    local = [c for c in vs if (c.loc, c.path) != (S.loc, S.path) and 'second' not in c.val.arr.f]
    inner = [c for c in local if c.path]
    outer = [c for c in local if not c.path]
    if len(inner) == 1 and len(outer) == 1:
        for c in its(lc):
            for t in tk:
                split_pool(lc, S0, inner[0], outer[0], c, t)


def copy_sources(lc, S):
    X = lc.X
    s0 = loops.S(lc, X.st, iv(0))
    out = [('the children at entry', Ns(lc, s0, lc.e(S)))]
    for k, val in lc.entry.ghost.items():
        if isinstance(k, tuple) and k[0] == 'perm':
            x = lc.entry.store.get(k[1])
            if isinstance(x, Vec):
                out.append(('the ordered children', Ns(lc, s0, x)))
    return out


def split_pool(lc, S0, N_, R_, c, t):
    """children that start with the text go below the new node, without it; the others stay"""
    A = z3.ForAll
    i, j = z3.Int('si'), z3.Int('sj')
    q = z3.Const('sq', Str)

    def rel(a, b):
        return z3.Or(pre(a, b), pre(b, a))

    def P(s):
        return pos(s, c)

    def quant(name, vec, f, vs=(i,), pat=None):
        def g(s):
            w = Ns(lc, s, vec)
            rng = z3.And(i >= 0, i < w.n)
            body = z3.Implies(rng, f(w, s))
            return A(list(vs), body, patterns=pat(w, s) if pat else [w.t(i)])      # patterns last: z3 does not keep them
        lc.add(name, g)
    for nm, v in (('inner', N_), ('outer', R_)):
        quant('%s children have plain non-empty prefixes' % nm, v, lambda w, s: z3.And(slen(w.t(i)) > 0, ordy(w.t(i))))
        quant('%s children are not related' % nm, v, lambda w, s: z3.Implies(z3.And(j >= 0, j < w.n, i != j), z3.Not(pre(w.t(i), w.t(j)))), (i, j), lambda w, s: [z3.MultiPattern(w.t(i), w.t(j))])
    quant('outer children are not related to the text', R_, lambda w, s: z3.Not(rel(w.t(i), t)))
    later = lambda s: z3.And(j >= P(s), j < S0.n)
    mp = lambda w, s: [z3.MultiPattern(w.t(i), S0.t(j))]
    quant('outer children and later children are not related', R_, lambda w, s: z3.Implies(later(s), z3.Not(rel(w.t(i), S0.t(j)))), (i, j), mp)
    quant('inner children and later children are not related', N_, lambda w, s: z3.Implies(later(s), z3.Not(rel(scat(t, w.t(i)), S0.t(j)))), (i, j), mp)

    def moved(which):
        def g(s):
            w = Ns(lc, s, N_ if which else R_)
            k = sidx(S0.T, P(s), q)
            d = drop(q, t) if which else q
            k2 = sidx(w.T, w.n, d)
            f = z3.And((k < 0) == (k2 < 0), z3.Implies(k >= 0, z3.And(z3.Select(S0.E, k) == z3.Select(w.E, k2), drop(q, S0.t(k)) == drop(d, w.t(k2)))))
            return A([q], z3.Implies(pre(t, q) if which else z3.Not(pre(t, q)), f), patterns=[k])
        return g
    lc.add('the children so far that start with the text are below the new node', moved(True))
    lc.add('the other children so far stay', moved(False))

    def step(s):
        k = sidx(S0.T, P(s), q)
        return [A([q], z3.Implies(P(s) > 0, k == z3.If(pre(S0.t(P(s) - 1), q), P(s) - 1, sidx(S0.T, P(s) - 1, q))), patterns=[k])]
    lc.fact(step)


PL = {'*': [pool]}
LEM = [Lemma('texts', str_lemmas)]
SPEC = [Lemma('choice from nothing', L_none), Lemma('choice is a route', L_low), Lemma('choice below a static text', L_static), Lemma('choice is sound', L_sound), Lemma('choice is complete and preferred', L_complete),
        Lemma('static start of a pattern', L_prefix), Lemma('last match', L_sidx)]
AXC = AX + lem_ax()
KW = dict(boost=True, handlers=HANDLERS, models=MODELS, pools=PL)
R01 = [Unit_('router', lemmas=LEM, axioms=base_ax(), **KW), Unit_('router', lemmas=SPEC, axioms=AX, **KW),
       Unit_('router', contracts=[INS1, INS, INSS, FIND, OPT], targets=[Target(c) for c in (INS1, INS, INSS, FIND, OPT, RINS, RFIND, ROPT)], axioms=AXC, **KW)]
UNITS = R01
