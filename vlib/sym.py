"""Symbolic values and the background theory (sequences of characters)."""
import z3

I = z3.IntSort()
B = z3.BoolSort()
Str = z3.DeclareSort('Str')

slen = z3.Function('slen', Str, I)
sat = z3.Function('sat', Str, I, I)
ssub = z3.Function('ssub', Str, I, I, Str)
scat = z3.Function('scat', Str, Str, Str)
sunit = z3.Function('sunit', I, Str)
supd = z3.Function('supd', Str, I, I, Str)
srep = z3.Function('srep', I, I, Str)          # n copies of c
sempty = z3.Const('sempty', Str)
seqeq = z3.Function('seqeq', Str, Str, B)


def iv(n):
    return z3.IntVal(n)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def base_axioms():
    s, t = z3.Consts('s t', Str)
    o, n, i, c = z3.Ints('o n i c')
    A = z3.ForAll
    ax = [
        A([s], slen(s) >= 0, patterns=[slen(s)]),
        slen(sempty) == 0,
        A([s], z3.Implies(slen(s) == 0, s == sempty), patterns=[slen(s)]),
        A([s, o, n], z3.Implies(z3.And(o >= 0, n >= 0, o + n <= slen(s)), slen(ssub(s, o, n)) == n),
          patterns=[ssub(s, o, n)]),
        A([s, o, n, i], z3.Implies(z3.And(o >= 0, n >= 0, o + n <= slen(s), i >= 0, i < n),
                                   sat(ssub(s, o, n), i) == sat(s, o + i)),
          patterns=[sat(ssub(s, o, n), i)]),
        A([s, o, n], z3.Implies(z3.And(o == 0, n == slen(s)), ssub(s, o, n) == s), patterns=[ssub(s, o, n)]),
        A([s, t], slen(scat(s, t)) == slen(s) + slen(t), patterns=[scat(s, t)]),
        A([s, t, i], z3.Implies(z3.And(i >= 0, i < slen(s)), sat(scat(s, t), i) == sat(s, i)),
          patterns=[sat(scat(s, t), i)]),
        A([s, t, i], z3.Implies(z3.And(i >= slen(s), i < slen(s) + slen(t)),
                                sat(scat(s, t), i) == sat(t, i - slen(s))),
          patterns=[sat(scat(s, t), i)]),
        A([c], z3.And(slen(sunit(c)) == 1, sat(sunit(c), 0) == c), patterns=[sunit(c)]),
        A([s, i, c], slen(supd(s, i, c)) == slen(s), patterns=[supd(s, i, c)]),
        A([s, i, c, o], z3.Implies(z3.And(o >= 0, o < slen(s)),
                                   sat(supd(s, i, c), o) == z3.If(o == i, c, sat(s, o))),
          patterns=[sat(supd(s, i, c), o)]),
        A([n, c], z3.Implies(n >= 0, slen(srep(n, c)) == n), patterns=[srep(n, c)]),
        A([n, c, i], z3.Implies(z3.And(i >= 0, i < n), sat(srep(n, c), i) == c), patterns=[sat(srep(n, c), i)]),
        A([s, t], seqeq(s, t) == (s == t), patterns=[seqeq(s, t)]),
        A([s, t], z3.Implies(z3.And(slen(s) == slen(t),
                                    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < slen(s)), sat(s, i) == sat(t, i)),
                                              patterns=[sat(s, i), sat(t, i)])),
                             seqeq(s, t)), patterns=[seqeq(s, t)]),
    ]
    return ax


# ---------------------------------------------------------------- bit sets (unsigned words as sets of bit numbers)
tbit = z3.Function('tbit', I, I, B)      # tbit(x,q): bit q of x is set
bor = z3.Function('bor', I, I, I)
band = z3.Function('band', I, I, I)
bit1 = z3.Function('bit1', I, I)         # 1 << q
lowbit = z3.Function('lowbit', I, I)     # some set bit of a non-zero word


def bit_axioms():
    x, y, q = z3.Ints('x y q')
    A = z3.ForAll
    return [bit1(k) == (1 << k) for k in range(32)] + [
        A([x, y, q], tbit(bor(x, y), q) == z3.Or(tbit(x, q), tbit(y, q)), patterns=[tbit(bor(x, y), q)]),
        A([x, y, q], tbit(band(x, y), q) == z3.And(tbit(x, q), tbit(y, q)), patterns=[tbit(band(x, y), q)]),
        A([x, q], z3.Implies(x >= 0, tbit(bit1(x), q) == (q == x)), patterns=[tbit(bit1(x), q)]),
        A([x, y, q], z3.Implies(z3.And(tbit(x, q), tbit(y, q)), band(x, y) > 0), patterns=[z3.MultiPattern(band(x, y), tbit(x, q)), z3.MultiPattern(band(x, y), tbit(y, q))]),
        A([x, y], z3.And(z3.Implies(band(x, y) != 0, tbit(band(x, y), lowbit(band(x, y)))), band(x, y) >= 0, band(x, y) <= z3.If(x < y, x, y)), patterns=[band(x, y)]),
        A([x, y], bor(x, y) >= z3.If(x < y, y, x), patterns=[bor(x, y)]),
        A([x], z3.And([bit1(x) >= 1] + [z3.Implies(x < k, bit1(x) <= (1 << (k - 1))) for k in (8, 31, 32, 63, 64)]), patterns=[bit1(x)]),
        A([x, y], z3.And([z3.Implies(z3.And(x < (1 << k), y < (1 << k)), bor(x, y) < (1 << k)) for k in (8, 16, 32, 64)]), patterns=[bor(x, y)]),
        A([q], z3.Not(tbit(0, q)), patterns=[tbit(0, q)]),
        A([x, q], z3.Implies(z3.And(tbit(x, q), q >= 0), x >= 1), patterns=[tbit(x, q)]),
    ]


# ---------------------------------------------------------------- values
class V:
    """structured value; leaves are z3 terms (or z3 arrays when lifted)"""
    __slots__ = ()


class View(V):
    """std::string_view: a window of an immutable character sequence"""
    __slots__ = ('base', 'off', 'n')

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def leaves(self):
        return [self.base, self.off, self.n]

    def rebuild(self, l):
        return View(*l)

    def term(self):
        return mksub(self.base, self.off, self.n)


def simp(t):
    return z3.simplify(t) if isinstance(t, z3.ExprRef) else t


def mksub(b, o, n):
    o = simp(o)
    n = simp(n)
    if z3.is_int_value(o) and o.as_long() == 0 and n.eq(simp(slen(b))):
        return b
    # sub of sub
    if b.decl().eq(ssub.__class__ and ssub) and b.num_args() == 3:
        return ssub(b.arg(0), simp(b.arg(1) + o), n)
    return ssub(b, o, n)


class SPtr(V):
    """pointer / iterator into an immutable character sequence"""
    __slots__ = ('base', 'idx', 'et')

    def __init__(self, base, idx, et=None):
        self.base, self.idx, self.et = base, idx, et

    def leaves(self):
        return [self.base, self.idx]

    def rebuild(self, l):
        return SPtr(l[0], l[1], self.et)


class Rec(V):
    __slots__ = ('q', 'f', 'rid')

    def __init__(self, q, f, rid=None):
        self.q, self.f, self.rid = q, f, rid

    def leaves(self):
        return [self.f[k] for k in self.f]

    def rebuild(self, l):
        return Rec(self.q, dict(zip(self.f.keys(), l)), self.rid)

    def with_(self, name, v):
        f = dict(self.f)
        f[name] = v
        return Rec(self.q, f, self.rid)


class Vec(V):
    """std::vector / std::array / span: length + lifted element"""
    __slots__ = ('n', 'arr', 'et')

    def __init__(self, n, arr, et=None):
        self.n, self.arr, self.et = n, arr, et

    def leaves(self):
        return [self.n, self.arr]

    def rebuild(self, l):
        return Vec(l[0], l[1], self.et)


class Opt(V):
    __slots__ = ('has', 'val')

    def __init__(self, has, val):
        self.has, self.val = has, val

    def leaves(self):
        return [self.has, self.val]

    def rebuild(self, l):
        return Opt(*l)


class Exp(V):
    """expected<T,E>"""
    __slots__ = ('has', 'val', 'err')

    def __init__(self, has, val, err):
        self.has, self.val, self.err = has, val, err

    def leaves(self):
        return [self.has, self.val, self.err]

    def rebuild(self, l):
        return Exp(*l)


class MapV(V):
    """associative container keyed by one z3 term: dom : K->Bool, lifted values, size"""
    __slots__ = ('dom', 'arr', 'n', 'kt', 'vt', 'norm', 'keyrep')

    def __init__(self, dom, arr, n, kt=None, vt=None, norm=None, keyrep=None):
        self.dom, self.arr, self.n, self.kt, self.vt, self.norm, self.keyrep = dom, arr, n, kt, vt, norm, keyrep

    def leaves(self):
        return [self.dom, self.arr, self.n] + ([self.keyrep] if self.keyrep is not None else [])

    def rebuild(self, l):
        return MapV(l[0], l[1], l[2], self.kt, self.vt, self.norm, l[3] if len(l) > 3 else None)


class Ptr(V):
    """address of an lvalue; nn = non-null condition (None: always)"""
    __slots__ = ('lv', 'nn')

    def __init__(self, lv, nn=None):
        self.lv, self.nn = lv, nn

    def leaves(self):
        return []

    def rebuild(self, l):
        return self


class NullP(V):
    def leaves(self):
        return []

    def rebuild(self, l):
        return self


class Unit(V):
    def leaves(self):
        return []

    def rebuild(self, l):
        return self


UNIT = Unit()


class FnV(V):
    """function designator"""
    __slots__ = ('fid',)

    def __init__(self, fid):
        self.fid = fid

    def leaves(self):
        return []

    def rebuild(self, l):
        return self


class BackIns(V):
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def leaves(self):
        return []

    def rebuild(self, l):
        return self


class VIter(V):
    """iterator over a container lvalue (vector etc.)"""
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx

    def leaves(self):
        return [self.idx]

    def rebuild(self, l):
        return VIter(self.lv, l[0])


class MIter(V):
    """iterator of a map: found key or end"""
    __slots__ = ('lv', 'isend', 'key')

    def __init__(self, lv, isend, key):
        self.lv, self.isend, self.key = lv, isend, key

    def leaves(self):
        return [self.isend, self.key]

    def rebuild(self, l):
        return MIter(self.lv, *l)


class RevIt(V):
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it

    def leaves(self):
        return [self.it]

    def rebuild(self, l):
        return RevIt(l[0])


def mapleaf(v, fn):
    if isinstance(v, z3.ExprRef):
        return fn(v)
    if v is None:
        return None
    return v.rebuild([mapleaf(x, fn) for x in v.leaves()])


def map2leaf(a, b, fn):
    if isinstance(a, z3.ExprRef):
        if not isinstance(b, z3.ExprRef):
            raise TypeError('shape mismatch %r %r' % (a, b))
        return fn(a, b)
    if a is None:
        return None
    if type(a) is not type(b):
        raise TypeError('shape mismatch %s %s' % (type(a).__name__, type(b).__name__))
    return a.rebuild([map2leaf(x, y, fn) for x, y in zip(a.leaves(), b.leaves())])


def allleaves(v, out=None):
    if out is None:
        out = []
    if isinstance(v, z3.ExprRef):
        out.append(v)
    elif v is not None:
        for x in v.leaves():
            allleaves(x, out)
    return out


def lift_const(v, fresh):
    """lift a template value to arrays (fresh leaf constants)"""
    return mapleaf(v, lambda t: fresh(z3.ArraySort(I, t.sort())))


class LV:
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def f(self, name):
        return LV(self.loc, self.path + (('f', name),))

    def i(self, idx):
        return LV(self.loc, self.path + (('i', idx),))

    def step(self, *s):
        return LV(self.loc, self.path + (tuple(s),))

    def __repr__(self):
        return 'LV(%s,%s)' % (self.loc, self.path)


class TextLV:
    """lvalue of one character of an immutable sequence"""
    __slots__ = ('base', 'idx', 'et')

    def __init__(self, base, idx, et):
        self.base, self.idx, self.et = base, idx, et


class ValLV:
    """an immutable lvalue (e.g. element of a constant table, snapshot)"""
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val
