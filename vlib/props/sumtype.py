"""core/optional.hpp, core/expected.hpp: element lifetimes, stored values, exceptions.

The element types vt::A (moves do not throw) and vt::B (every operation may throw) are declared in the translation units
without bodies; their operations are given here.  An element carries two ghost facts: whether its lifetime has begun and
not ended (live), and the value it stands for (v).  Every construction needs a dead slot, every read, copy, move,
assignment, comparison and destruction a live one; these are obligations at each operation of the real bodies."""
import z3
from sym import *
from engine import *
from interp import *
from base import *

OPT, EXP, UNX = 'fitoria::optional', 'fitoria::expected', 'fitoria::unexpected'
ELEMS = ('vt::A', 'vt::B', 'vt::C')
NOTHROW_MOVE = {'vt::A': True, 'vt::B': False, 'vt::C': True}
TRIVIAL = ('vt::C',)  # copied, assigned and destroyed without running any code: never has to be destroyed


class Cb(V):
    """a callback: may throw; otherwise returns some value of its result type"""
    __slots__ = ('ret', 'writes')

    def __init__(self, ret, writes=True):
        self.ret, self.writes = ret, writes

    def leaves(self):
        return []

    def rebuild(self, l):
        return self


# ------------------------------------------------------------------ elements
def conv(X, dst, srcs):
    """the value of a dst built from these sources: (type name, value term)"""
    if len(srcs) == 1 and srcs[0][0] == dst:
        return srcs[0][1]
    if not srcs:
        return z3.Int('dflt_' + dst[4:])
    f = z3.Function('conv_%s_%s' % (dst[4:], '_'.join(s[0].replace('vt::', '') for s in srcs)), *([I] * (len(srcs) + 1)))
    return f(*[s[1] for s in srcs])


def isrec(v, q=None):
    return isinstance(v, Rec) and (v.q in ELEMS if q is None else v.q == q)


def source(X, a):
    """(type, value term) list of an argument of a construction"""
    v = X.read(a) if isl(a) else a
    if isrec(v):
        return [(v.q, v.f['v'])]
    if isinstance(v, InitArr):
        return [('il', x) for x in v.vals]
    if isinstance(v, z3.ExprRef):
        return [('int', v)]
    if isrec(v, 'vt::nx'):
        return [('nx', iv(0))]
    raise Unsupported('element built from %s' % type(v).__name__)


def is_move(X, pt):
    t = X.prog.t(pt)
    return t['k'] == 'rref' and not X.prog.t(t['to']).get('const')


def use_src(X, a):
    v = X.read(a) if isl(a) else a
    if isrec(v):
        X.prove('an element is read only while it is alive', v.f['live'])
    return v


def havoc_src(X, a, pts, i):
    """a moved-from element stays alive with an unspecified value"""
    if isinstance(a, LV) and i < len(pts) and is_move(X, pts[i]) and isrec(X.read(a)) and X.read(a).q not in TRIVIAL:
        X.write(a.f('v'), X.fresh('movedfrom', I))


def elem_build(X, q, args, pts):
    srcs = []
    for a in args:
        use_src(X, a)
        srcs += source(X, a)
    nothrow = any(x[0] == 'nx' for x in srcs) or len(args) == 1 and srcs[0][0] == q and (q in TRIVIAL or is_move(X, pts[0]) and NOTHROW_MOVE[q]) if args else q in TRIVIAL
    v = conv(X, q, srcs)
    if not nothrow and X.branch(X.fresh('throws', B)):
        for i, a in enumerate(args):
            havoc_src(X, a, pts, i)
        raise CppThrow(None, 'elem')
    for i, a in enumerate(args):
        havoc_src(X, a, pts, i)
    return Rec(q, {'live': z3.BoolVal(True), 'v': v})


def h_ctor(X, e, fn, tid, t):
    args = X.eval_args(fn, e['a'])
    return elem_build(X, t['q'], args, [p['t'] for p in fn['params']])


def h_construct(X, c):
    p = c.v(0)
    if not isinstance(p, Ptr):
        raise Unsupported('construct_at on %s' % type(p).__name__)
    t = X.prog.t(X.prog.t(c.fn['ret'])['to'])
    if t['q'] not in ELEMS if 'q' in t else True:
        raise Unsupported('construct_at of ' + t['s'])
    old = X.read(p.lv)
    if old.q not in TRIVIAL:
        X.prove('an element is constructed only where none is alive', z3.Not(old.f['live']))
    v = elem_build(X, t['q'], c.args[1:], [q['t'] for q in c.fn['params'][1:]])
    X.write(p.lv, v)
    return p


def kill(X, lv):
    old = X.read(lv)
    if not isrec(old):
        raise Unsupported('destruction of %s' % type(old).__name__)
    X.prove('an element is destroyed only while it is alive', old.f['live'])
    X.write(lv, Rec(old.q, {'live': z3.BoolVal(False), 'v': X.fresh('dead', I)}))


def h_destroy(X, c):
    p = c.v(0)
    if not isinstance(p, Ptr):
        raise Unsupported('destroy_at on %s' % type(p).__name__)
    kill(X, p.lv)
    return UNIT


def h_dtor(X, c):
    kill(X, c.this)
    return UNIT


def h_assign(X, c):
    me = X.read(c.this)
    X.prove('an element is assigned to only while it is alive', me.f['live'])
    a = c.args[0]
    use_src(X, a)
    q, pt = me.q, c.fn['params'][0]['t']
    src = source(X, a)
    nothrow = src[0][0] == q and (q in TRIVIAL or is_move(X, pt) and NOTHROW_MOVE[q])
    same = isl(a) and isinstance(a, LV) and repr(a) == repr(c.this)
    v = conv(X, q, src)
    if not nothrow and X.branch(X.fresh('throws', B)):
        havoc_src(X, a, [pt], 0)
        X.write(c.this.f('v'), X.fresh('torn', I))
        raise CppThrow(None, 'elem')
    if not same:
        havoc_src(X, a, [pt], 0)
        X.write(c.this.f('v'), v)
    return c.this


def h_swap(X, c):
    a, b = c.args
    va, vb = X.read(a), X.read(b)
    if isrec(va):
        X.prove('elements are swapped only while both are alive', z3.And(va.f['live'], vb.f['live']))
        if not NOTHROW_MOVE[va.q] and X.branch(X.fresh('throws', B)):
            X.write(a.f('v'), X.fresh('torn', I))
            X.write(b.f('v'), X.fresh('torn', I))
            raise CppThrow(None, 'elem')
    X.write(a, vb)
    X.write(b, va)
    return UNIT


def h_cmp(op):
    def f(X, c):
        vs = [use_src(X, a) for a in c.args]
        x = vs[0].f['v'] if isrec(vs[0]) else conv(X, 'vt::A', [('int', vs[0])])
        y = vs[1].f['v'] if isrec(vs[1]) else conv(X, 'vt::A', [('int', vs[1])])
        return order(op, x, y)
    return f


def order(op, x, y):
    return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
            '<=>': lambda: z3.If(x < y, iv(-1), z3.If(x == y, iv(0), iv(1)))}[op]()


def h_callv(X, f, args):
    for a in args:
        v = use_src(X, a)
    X.st.ghost['calls'] = X.st.ghost.get('calls', ()) + (tuple(args),)
    if X.branch(X.fresh('cbthrows', B)):
        raise CppThrow(None, 'callback')
    for a in args:
        if f.writes and isinstance(a, LV) and isrec(X.read(a)):
            X.write(a.f('v'), X.fresh('cbwrote', I))
    t = X.prog.t(f.ret)
    if t['k'] == 'void':
        r = UNIT
    elif t['k'] == 'lref':
        r = X.alloc(live(X, X.mk(t['to'], 'cbref')), t['to'])
    else:
        r = live(X, X.mk(f.ret, 'cb'))
    X.st.ghost['cbret'] = r
    return r


def live(X, v):
    """a fresh object satisfies its invariant"""
    if isrec(v):
        X.assume(v.f['live'])
    elif isinstance(v, Rec):
        for _, f in inv(X, v):
            X.assume(f)
    return v


def h_invoke(X, c):
    return X.call_value(c.args[0], list(c.args[1:]))


# ------------------------------------------------------------------ the two wrappers
def layout(X, rid):
    """fields of a wrapper by role: has, val, err, other"""
    rec = X.prog.rec[rid]
    q = rec['q']
    fs = []
    for f in rec['fields']:
        if f.get('anon'):
            fs += [(g['n'], g['t'], True) for g in X.prog.rec[X.prog.t(f['t'])['id']]['fields']]
        else:
            fs.append((f['n'], f['t'], False))
    r = {}
    for n, t, u in fs:
        ty = X.prog.t(t)
        if ty['k'] == 'bool':
            r['has'] = n
        elif ty['k'] == 'ptr':
            r['val'] = n
        elif ty['k'] == 'rec' and ty['q'] in ELEMS:
            if q == UNX or 'err' in n or (q == EXP and 'val' in r):
                r['err'] = n
            else:
                r['val'] = n
        else:
            r['other'] = n
    r['fields'] = fs
    return r


def m_elem(X, tid, t, name):
    return Rec(t['q'], {'live': X.fresh(name + '_live', B), 'v': X.fresh(name + '_v', I)}, t['id'])


def m_wrap(X, tid, t, name):
    f = {}
    for n, ft, u in layout(X, t['id'])['fields']:
        ty = X.prog.t(ft)
        if ty['k'] == 'ptr':
            f[n] = Ptr(X.alloc(live(X, X.mk(X.prog.strip(ty['to']), name + '_ref')), ty['to']), X.fresh(name + '_nn', B))
        else:
            f[n] = X.mk(ft, name + '.' + n)
    return Rec(t['q'], f, t['id'])


def u_wrap(X, tid, t):
    """storage before construction: no element is alive"""
    f = {}
    for n, ft, u in layout(X, t['id'])['fields']:
        ty = X.prog.t(ft)
        if ty['k'] == 'ptr':
            f[n] = NullP()
        elif ty['k'] == 'rec':
            f[n] = Rec(ty['q'], {'live': z3.BoolVal(False), 'v': X.fresh('raw', I)}, ty['id'])
        else:
            f[n] = X.mk(ft, 'raw')
    return Rec(t['q'], f, t['id'])


class Abs:
    """what a wrapper holds"""
    def __init__(self, X, v):
        l = layout(X, v.rid)
        self.q = v.q
        self.l = l
        self.val = v.f[l['val']] if 'val' in l else None
        self.err = v.f[l['err']] if 'err' in l else None
        if 'has' in l:
            self.has = v.f[l['has']]
        elif isinstance(self.val, NullP):
            self.has = z3.BoolVal(False)
        elif isinstance(self.val, Ptr):
            self.has = self.val.nn if self.val.nn is not None else z3.BoolVal(True)
        else:
            self.has = z3.BoolVal(False)


def alive(e, cond):
    return z3.Implies(cond, e.f['live']) if e.q in TRIVIAL else e.f['live'] == cond


def inv(X, v):
    a = Abs(X, v)
    r = []
    if v.q == UNX:
        return [('the stored error is alive', a.err.f['live'])]
    if isrec(a.val):
        r.append(('the value is alive exactly when the object says it holds one', alive(a.val, a.has)))
    if isinstance(a.val, (Ptr, NullP)) and v.q == EXP:
        nn = z3.BoolVal(False) if isinstance(a.val, NullP) else a.val.nn if a.val.nn is not None else z3.BoolVal(True)
        r.append(('a held reference refers to an object', z3.Implies(a.has, nn)))
    if isrec(a.err):
        r.append(('the error is alive exactly when the object says it holds no value', alive(a.err, z3.Not(a.has))))
    return r


def iswrap(v):
    return isinstance(v, Rec) and v.q in (OPT, EXP)


def val_is(X, want, got):
    """got (the value part of a wrapper) is what `want` (a value part, an lvalue or a value) converts to"""
    if got is None:
        return z3.BoolVal(True)
    if isinstance(got, (Ptr, NullP)):
        if isinstance(want, NullP) or isinstance(got, NullP):
            return z3.BoolVal(isinstance(want, NullP) and isinstance(got, NullP))
        return X.lv_same(got.lv, want.lv if isinstance(want, Ptr) else want)
    if isinstance(want, Ptr):
        want = X.read(want.lv)
    if isl(want):
        want = X.read(want)
    src = [(want.q, want.f['v'])] if isrec(want) else [('int', want)]
    return got.f['v'] == conv(X, got.q, src)


# ------------------------------------------------------------------ contracts
def strip_s(s):
    return s.replace('const ', '').replace('class ', '').replace('struct ', '').strip()


def mkarg(X, p):
    """argument for a parameter: value or lvalue, with its invariant"""
    tid = p['t']
    t = X.prog.t(tid)
    inner = X.prog.t(t['to']) if t['k'] in ('lref', 'rref') else t
    itid = t['to'] if t['k'] in ('lref', 'rref') else tid
    if inner['k'] == 'fn' or (inner['k'] == 'ptr' and X.prog.t(inner['to'])['k'] == 'fn'):
        s = inner['s']
        rs = s.split(' (*)')[0].split(' (')[0]
        rid = [i for i, y in enumerate(X.prog.types) if y['s'] == rs]
        if not rid:
            raise Unsupported('callback of type ' + s)
        v = Cb(rid[0], '(const ' not in s)
    elif inner['k'] == 'rec' and inner['q'] == 'std::initializer_list':
        v = InitArr([X.fresh('il', I)], inner['ta'][0]['t'])
    elif inner['k'] == 'rec' and inner['q'] in ('std::in_place_t', 'fitoria::nullopt_t', 'fitoria::unexpect_t', 'vt::nx'):
        v = Rec(inner['q'], {}, inner['id'])
    else:
        v = live(X, X.mk(itid, p['n'] or 'a'))
    if t['k'] in ('lref', 'rref'):
        return X.alloc(v, itid)
    return v


def setup(alias):
    def s(X, fn):
        this = None
        t = None
        if fn['kind'] in ('method', 'conv', 'dtor'):
            this = X.alloc(live(X, X.mk(fn['rect'], 'self')), fn['rect'])
        elif fn['kind'] == 'ctor':
            t = X.prog.t(fn['rect'])
            this = X.alloc(X.uninit(fn['rect'], t, X.prog.rec[fn['rec']]), fn['rect'])
        args = []
        for i, p in enumerate(fn['params']):
            if alias and i == 0 and this is not None:
                args.append(this)
            elif alias and i == 1:
                args.append(args[0])
            else:
                args.append(mkarg(X, p))
        return this, args, {}
    return s


def ptype(cx, i):
    t = cx.X.prog.t(cx.fn['params'][i]['t'])
    return cx.X.prog.t(t['to']) if t['k'] in ('lref', 'rref') else t


def name_of(fn):
    return fn['q'].split('::')[-1]


def frames(cx, skip_this=False):
    """invariants afterwards; objects that may not change did not"""
    X = cx.X
    g = []
    fn = cx.fn
    if cx.this is not None and fn['kind'] not in ('dtor',) and not skip_this:
        g += inv(X, X.read(cx.this))
    alias = [a for a in cx.raw if isl(a) and cx.this is not None and repr(a) == repr(cx.this)]
    for i, a in enumerate(cx.raw):
        if not isl(a) or not isinstance(a, LV):
            continue
        v1 = X.read(a)
        if iswrap(v1) or (isinstance(v1, Rec) and v1.q == UNX):
            g += [('the other object: ' + l, f) for l, f in inv(X, v1)]
        if isrec(v1):
            g.append(('an argument stays alive', v1.f['live']))
        if ptype(cx, i).get('const') and not alias:
            v0 = cx.args[i]
            if isrec(v1):
                g.append(('an argument taken by reference to const is not modified', v1.f['v'] == v0.f['v']))
            elif isinstance(v1, Rec) and v1.q in (OPT, EXP, UNX):
                a0, a1 = Abs(X, v0), Abs(X, v1)
                if v1.q != UNX:
                    g.append(('an argument taken by reference to const is not modified', unchanged(X, a0, a1)))
                else:
                    g.append(('an argument taken by reference to const is not modified', a1.err.f['v'] == a0.err.f['v']))
    if cx.this is not None and fn.get('const') and fn['kind'] in ('method', 'conv'):
        g.append(('a const member changes nothing', unchanged(X, Abs(X, cx.this0), Abs(X, X.read(cx.this)))))
    return g


def unchanged(X, a0, a1):
    c = [a0.has == a1.has]
    if isrec(a0.val):
        c.append(z3.Implies(a0.has, a1.val.f['v'] == a0.val.f['v']))
    elif isinstance(a0.val, Ptr):
        c.append(z3.Implies(a0.has, val_is(X, a0.val, a1.val)))
    if isrec(a0.err):
        c.append(z3.Implies(z3.Not(a0.has), a1.err.f['v'] == a0.err.f['v']))
    return z3.And(c)


def holds_value(X, a, srcs):
    """value built from the given arguments"""
    if isinstance(a.val, (Ptr, NullP)):
        return z3.And(a.has, val_is(X, srcs[0], a.val))
    if a.val is None:
        return a.has
    s = []
    for x in srcs:
        s += x
    return z3.And(a.has, a.val.f['v'] == conv(X, a.val.q, s))


def source0(X, cx, i):
    """sources as they were on entry"""
    v = cx.args[i]
    if isrec(v):
        return [(v.q, v.f['v'])]
    if isinstance(v, InitArr):
        return [('il', x) for x in v.vals]
    if isrec(v, 'vt::nx'):
        return [('nx', iv(0))]
    return [('int', v)]


def srcs0(cx, a, start):
    if isinstance(a.val, (Ptr, NullP)) and a.q and start < len(cx.raw):
        return [cx.raw[start]]
    return [source0(cx.X, cx, i) for i in range(start, len(cx.args))]


def becomes(cx, a1):
    """postcondition of constructors and assignments by the kind of their first argument"""
    X, fn = cx.X, cx.fn
    if not fn['params']:
        if a1.q == OPT:
            return [('a default constructed optional is empty', z3.Not(a1.has))]
        return [('a default constructed expected holds a default value', z3.And(a1.has, a1.val.f['v'] == conv(X, a1.val.q, [])) if isrec(a1.val) else a1.has)]
    t = ptype(cx, 0)
    q = t.get('q')
    if q == 'fitoria::nullopt_t':
        return [('nullopt leaves it empty', z3.Not(a1.has))]
    if q == 'std::in_place_t':
        return [('holds the value built from the arguments', holds_value(X, a1, srcs0(cx, a1, 1)))]
    if q == 'fitoria::unexpect_t':
        s = []
        for i in range(1, len(cx.args)):
            s += source0(X, cx, i)
        return [('holds the error built from the arguments', z3.And(z3.Not(a1.has), a1.err.f['v'] == conv(X, a1.err.q, s)))]
    if q == UNX:
        e = Abs(X, cx.args[0]).err
        return [('holds the given error', z3.And(z3.Not(a1.has), a1.err.f['v'] == conv(X, a1.err.q, [(e.q, e.f['v'])])))]
    if q in (OPT, EXP):
        o0 = Abs(X, cx.args[0])
        alias = cx.this is not None and isl(cx.raw[0]) and repr(cx.raw[0]) == repr(cx.this)
        moving = X.prog.t(fn['params'][0]['t'])['k'] == 'rref'
        g = [('holds a value exactly when the source did', a1.has == o0.has)]
        if not (alias and moving):
            g.append(('holds the value the source held', z3.Implies(o0.has, val_is(X, value_lv(cx, cx.raw[0], o0) if isinstance(a1.val, Ptr) else o0.val, a1.val))))
            if isrec(a1.err):
                g.append(('holds the error the source held', z3.Implies(z3.Not(o0.has), a1.err.f['v'] == conv(X, a1.err.q, [(o0.err.q, o0.err.f['v'])]))))
        if not alias:
            g.append(('the source keeps saying what it holds', Abs(X, X.read(cx.raw[0])).has == o0.has))
        return g
    return [('holds the given value', holds_value(X, a1, srcs0(cx, a1, 0)))]


def calls(cx):
    return cx.X.st.ghost.get('calls', ())


def value_lv(cx, this, a):
    """lvalue of the held value"""
    if isinstance(a.val, Ptr):
        return a.val.lv
    return this.f(a.l['val'])


def post(cx, r):
    X, fn = cx.X, cx.fn
    n = name_of(fn)
    g = frames(cx, skip_this=fn['kind'] == 'dtor')
    rv = X.read(r) if isl(r) else r
    if fn['kind'] == 'ctor':
        a1 = Abs(X, cx.this1)
        return g + becomes(cx, a1)
    if fn['kind'] == 'dtor':
        a1 = Abs(X, cx.this1)
        return g + [('the destructor leaves no element alive', z3.And([z3.BoolVal(True)] + [z3.Not(x.f['live']) for x in (a1.val, a1.err) if isrec(x) and x.q not in TRIVIAL]))]
    if fn['kind'] in ('method', 'conv'):
        a0, a1 = Abs(X, cx.this0), Abs(X, cx.this1)
        if n == 'operator=':
            return g + becomes(cx, a1) + [('assignment returns the object', X.lv_same(r, cx.this))]
        if n == 'emplace':
            g.append(('holds the value built from the arguments', holds_value(X, a1, srcs0(cx, a1, 0))))
            if X.prog.t(fn['ret'])['k'] == 'lref':
                g.append(('returns the new value', X.lv_same(r, value_lv(cx, cx.this, a1))))
            return g
        if n == 'reset':
            return g + [('empty afterwards', z3.Not(a1.has))]
        if n in ('has_value', 'operator bool') or fn['kind'] == 'conv':
            return g + [('says whether a value is held', rv == a0.has)]
        if n in ('operator*', 'operator->', 'value'):
            if n == 'value':
                g.append(('value() returns only when a value is held', a0.has))
            if rv is UNIT or isinstance(rv, Unit):
                return g
            lv = value_lv(cx, cx.this, a0)
            if isinstance(r, Ptr):
                return g + [('points to the held value', z3.And(X.lv_same(r.lv, lv), z3.Or(z3.Not(a0.has), r.nn if r.nn is not None else z3.BoolVal(True))))]
            return g + [('refers to the held value', X.lv_same(r, lv))]
        if n == 'error':
            return g + [('refers to the held error', X.lv_same(r, cx.this.f(a0.l['err'])))]
        if n == 'value_or':
            d = source0(X, cx, 0)
            v0 = a0.val if isrec(a0.val) else cx.extra_ref
            return g + [('the result is alive', rv.f['live']),
                        ('the held value when there is one, else the default', rv.f['v'] == z3.If(a0.has, conv(X, rv.q, [(v0.q, v0.f['v'])]), conv(X, rv.q, d)))]
        if n == 'error_or':
            d = source0(X, cx, 0)
            return g + [('the result is alive', rv.f['live']),
                        ('the held error when there is one, else the default', rv.f['v'] == z3.If(a0.has, conv(X, rv.q, d), a0.err.f['v']))]
        if n in ('and_then', 'transform', 'or_else', 'transform_error'):
            return g + monadic(cx, n, a0, rv)
        if n == 'swap':
            return g + swapped(cx, a0, a1, Abs(X, cx.args[0]), Abs(X, X.read(cx.raw[0])))
        raise Unsupported('no contract for member ' + n)
    if n == 'swap':
        return g + swapped(cx, Abs(X, cx.args[0]), Abs(X, X.read(cx.raw[0])), Abs(X, cx.args[1]), Abs(X, X.read(cx.raw[1])))
    if n == 'make_optional':
        a1 = Abs(X, rv)
        return g + [('make_optional: ' + l, f) for l, f in inv(X, rv)] + [('holds the value built from the arguments', holds_value(X, a1, [source0(X, cx, i) for i in range(len(cx.args))]))]
    if n.startswith('operator'):
        return g + compare(cx, n[8:], rv)
    raise Unsupported('no contract for ' + n)


def swapped(cx, a0, a1, b0, b1):
    X = cx.X
    g = [('swap exchanges what the objects hold', z3.And(a1.has == b0.has, b1.has == a0.has))]
    if a0.val is not None:
        g.append(('swap exchanges the values', z3.And(z3.Implies(b0.has, val_is(X, b0.val, a1.val)), z3.Implies(a0.has, val_is(X, a0.val, b1.val)))))
    if isrec(a0.err):
        g.append(('swap exchanges the errors', z3.And(z3.Implies(z3.Not(b0.has), val_is(X, b0.err, a1.err)), z3.Implies(z3.Not(a0.has), val_is(X, a0.err, b1.err)))))
    return g


def monadic(cx, n, a0, rv):
    X = cx.X
    cs = calls(cx)
    r = Abs(X, rv)
    g = [('the result: ' + l, f) for l, f in inv(X, rv)]
    on = a0.has if n in ('and_then', 'transform') else z3.Not(a0.has)
    g.append(('the callback runs exactly when its alternative is held', z3.BoolVal(len(cs) == 1) == on if len(cs) <= 1 else z3.BoolVal(False)))
    if cs:
        if cs[0]:
            want = value_lv(cx, cx.this, a0) if n in ('and_then', 'transform') else cx.this.f(a0.l['err'])
            g.append(('the callback receives what is held', X.lv_same(cs[0][0], want)))
        ret = X.st.ghost['cbret']
        if isl(ret):
            g.append(('the result is what the callback returned', z3.And(r.has, val_is(X, ret, r.val))))
        elif iswrap(ret):
            b = Abs(X, ret)
            g.append(('the result is what the callback returned', unchanged(X, b, r)))
        elif n == 'transform':
            g.append(('the result holds what the callback returned', z3.And(r.has, val_is(X, ret, r.val) if isrec(ret) else z3.BoolVal(True))))
        else:
            g.append(('the result holds what the callback returned', z3.And(z3.Not(r.has), val_is(X, ret, r.err))))
    else:
        if n in ('and_then', 'transform'):
            g.append(('without a value the result is empty or carries the error', z3.And(z3.Not(r.has), val_is(X, a0.err, r.err) if isrec(r.err) else z3.BoolVal(True))))
        else:
            g.append(('a held value passes through', z3.And(r.has, val_is(X, cx.extra_ref if isinstance(a0.val, Ptr) and isrec(r.val) else a0.val, r.val))))
    return g


def side(cx, i):
    v = cx.args[i]
    if iswrap(v):
        return Abs(cx.X, v)
    return v


def compare(cx, op, rv):
    """an empty optional is smaller than every value; otherwise the values decide"""
    X = cx.X
    a, b = side(cx, 0), side(cx, 1)

    def key(s):
        if isinstance(s, Abs):
            v = s.val
            if v is None:
                v = iv(0)
            elif isinstance(v, Ptr):
                v = X.read(v.lv).f['v']
            elif isrec(v):
                v = v.f['v']
            return s.has, v, (s.err.f['v'] if isrec(s.err) else iv(0)), s.q
        if isinstance(s, Rec) and s.q == UNX:
            return z3.BoolVal(False), iv(0), s.f[layout(X, s.rid)['err']].f['v'], EXP
        if isinstance(s, Rec) and s.q == 'fitoria::nullopt_t':
            return z3.BoolVal(False), iv(0), iv(0), OPT
        if isrec(s):
            return z3.BoolVal(True), s.f['v'], iv(0), None
        return z3.BoolVal(True), conv(X, 'vt::A', [('int', s)]), iv(0), None
    ha, va, ea, _ = key(a)
    hb, vb, eb, _ = key(b)
    n = lambda h: z3.If(h, iv(1), iv(0))
    if (isinstance(a, Abs) and a.q == EXP) or (isinstance(b, Abs) and b.q == EXP):
        return [('equal exactly when both hold equal values or both hold equal errors', rv == z3.And(ha == hb, z3.If(ha, va == vb, ea == eb)))]
    want = z3.If(z3.And(ha, hb), order(op, va, vb), order(op, n(ha), n(hb)))
    return [('compares as the values do, an empty one below every value', rv == want)]


def pre(cx):
    n = name_of(cx.fn)
    if cx.this0 is None or cx.fn['kind'] == 'ctor' or cx.this0.q == UNX:
        return []
    a = Abs(cx.X, cx.this0)
    if isinstance(a.val, Ptr):
        cx.extra_ref = cx.X.read(a.val.lv)
    if n in ('operator*', 'operator->'):
        return [('a value is held', a.has)]
    if n == 'error':
        return [('an error is held', z3.Not(a.has))]
    return []


def tpost(cx, t):
    """what holds when an exception leaves the function"""
    X, fn = cx.X, cx.fn
    n = name_of(fn)
    g = []
    if fn['kind'] == 'ctor':
        if cx.this1.q in (OPT, EXP):
            a1 = Abs(X, cx.this1)
            g.append(('a failed construction leaves no element alive', z3.And([z3.Not(x.f['live']) for x in (a1.val, a1.err) if isrec(x) and x.q not in TRIVIAL] + [z3.BoolVal(True)])))
        g += frames(cx, skip_this=True)
    else:
        g += frames(cx)
    if t.val in ('elem', 'callback'):
        if fn['kind'] == 'method' and cx.this0 is not None and cx.this0.q in (OPT, EXP):
            a0, a1 = Abs(X, cx.this0), Abs(X, cx.this1)
            if n == 'operator=':
                q = ptype(cx, 0).get('q')
                to = Abs(X, cx.args[0]).has if q in (OPT, EXP) else z3.BoolVal(q != UNX)
                g.append(('a failed assignment does not change what the object says it holds', a1.has == a0.has))
                g.append(('a failed assignment that would change the alternative changes nothing', z3.Implies(a0.has != to, unchanged(X, a0, a1))))
            elif n == 'emplace':
                g.append(('a failed emplace leaves the optional empty', z3.Not(a1.has)))
            elif n == 'swap':
                g.append(('a failed swap does not change what the object says it holds', a1.has == a0.has))
        return g
    tq = X.prog.t(t.tid).get('q') if t.tid is not None else None
    if n == 'value':
        a0 = Abs(X, cx.this0)
        g.append(('value() throws only when no value is held', z3.Not(a0.has)))
        if a0.q == OPT:
            g.append(('the exception is bad_optional_access', z3.BoolVal(tq == 'fitoria::bad_optional_access')))
        else:
            e = [x for x in (t.val.f.values() if isinstance(t.val, Rec) else []) if isrec(x)]
            g.append(('the exception is bad_expected_access carrying the error', z3.And(z3.BoolVal(tq == 'fitoria::bad_expected_access'), e[0].f['live'], e[0].f['v'] == a0.err.f['v']) if e else z3.BoolVal(False)))
        return g
    return g + [('no exception of its own leaves %s' % n, z3.BoolVal(False))]


# unexpected<E>: constructor, accessor, swap, comparison
def upost(cx, r):
    X, fn = cx.X, cx.fn
    n = name_of(fn)
    g = frames(cx)
    rv = X.read(r) if isl(r) else r
    if fn['kind'] == 'ctor':
        k = 1 if ptype(cx, 0).get('q') == 'std::in_place_t' else 0
        s = []
        for i in range(k, len(cx.args)):
            s += source0(X, cx, i)
        e = Abs(X, cx.this1).err
        return g + [('holds the error built from the arguments', e.f['v'] == conv(X, e.q, s))]
    if n == 'error':
        return g + [('refers to the held error', X.lv_same(r, cx.this.f(layout(X, cx.this0.rid)['err'])))]
    if n == 'swap':
        a, b = (cx.this, cx.raw[0]) if cx.this is not None else cx.raw
        a0, b0 = (cx.this0, cx.args[0]) if cx.this is not None else cx.args
        va = [Abs(X, x).err.f['v'] for x in (a0, b0, X.read(a), X.read(b))]
        return g + [('swap exchanges the errors', z3.And(va[2] == va[1], va[3] == va[0]))]
    if n == 'operator==':
        va = [Abs(X, x).err.f['v'] for x in cx.args]
        return g + [('equal exactly when the errors are', rv == (va[0] == va[1]))]
    raise Unsupported('no contract for ' + n)


HANDLERS = {'ctor:vt::A': h_ctor, 'ctor:vt::B': h_ctor, 'ctor:vt::C': h_ctor, 'std::construct_at': h_construct, 'std::destroy_at': h_destroy,
            'vt::A::operator=': h_assign, 'vt::B::operator=': h_assign, 'vt::C::operator=': h_assign, 'vt::A::(dtor)': h_dtor, 'vt::B::(dtor)': h_dtor,
            'std::swap': h_swap, 'std::invoke': h_invoke, 'callv:Cb': h_callv,
            'gvar:std::in_place': lambda X, v: Rec('std::in_place_t', {}), 'gvar:fitoria::unexpect': lambda X, v: Rec('fitoria::unexpect_t', {}),
            'uninit:' + OPT: u_wrap, 'uninit:' + EXP: u_wrap, 'uninit:' + UNX: u_wrap,
            'moved:vt::A': lambda X, v: Rec(v.q, {'live': v.f['live'], 'v': X.fresh('movedfrom', I)}, v.rid)}
HANDLERS['moved:vt::B'] = HANDLERS['moved:vt::A']
HANDLERS['moved:vt::C'] = lambda X, v: v
for op in ('==', '!=', '<', '<=', '>', '>=', '<=>'):
    HANDLERS['vt::operator' + op] = h_cmp(op)
MODELS = {OPT: m_wrap, EXP: m_wrap, UNX: m_wrap, 'vt::A': m_elem, 'vt::B': m_elem, 'vt::C': m_elem}


def off(prefixes):
    """the models of the wrappers used elsewhere are switched off: the real bodies are interpreted"""
    import stdmodel
    return {k: None for k in stdmodel.H if any(k == p or k.startswith(p + '::') or k in ('ctor:' + p, 'default:' + p) or k.endswith(':' + p) for p in prefixes)}


def hs():
    r = off((OPT, EXP, UNX))
    r.update(HANDLERS)
    return r


def wrapper_param(prog, fn, q, k=0):
    if len(fn['params']) <= k:
        return None
    t = prog.t(prog.strip(fn['params'][k]['t']))
    return t if t.get('q') == q else None


def interesting(fn):
    return 'body' in fn and not fn['defaulted']


def targets(q, members, free, extra=()):
    ts = []
    pick = lambda m: None
    for n, mn in members:
        c = Contract(q + '::' + n, post=post, pre=pre, tpost=tpost, frame=False, setup=setup(False), name='%s::%s' % (q.split('::')[-1], n))
        ts.append(Target(c, match=lambda p, f: interesting(f), min=mn))
        if n in ('operator=', 'swap'):
            ca = Contract(q + '::' + n, post=post, pre=pre, tpost=tpost, frame=False, setup=setup(True), name='%s::%s of an object with itself' % (q.split('::')[-1], n))
            ts.append(Target(ca, match=lambda p, f: interesting(f) and (lambda t: t is not None and t['id'] == f['rec'])(wrapper_param(p, f, q)), min=1, label=ca.name))
    for n, mn in free:
        c = Contract('fitoria::' + n, post=post, pre=pre, tpost=tpost, frame=False, setup=setup(False), name='%s (%s)' % (n, q.split('::')[-1]))
        ts.append(Target(c, match=lambda p, f: interesting(f) and (wrapper_param(p, f, q) is not None or wrapper_param(p, f, q, 1) is not None or (f['name'] == 'make_optional' and q == OPT)), min=mn))
    return ts


O_MEMBERS = [('(ctor)', 15), ('(dtor)', 2), ('operator=', 10), ('emplace', 4), ('reset', 3), ('has_value', 3), ('(conv)', 3), ('operator*', 5), ('operator->', 3),
             ('value', 5), ('value_or', 3), ('and_then', 5), ('transform', 5), ('or_else', 3), ('swap', 3)]
O_FREE = [('operator' + o, 1) for o in ('==', '!=', '<', '<=', '>', '>=', '<=>')] + [('swap', 1), ('make_optional', 2)]
O01 = [Unit_('optional', targets=targets(OPT, O_MEMBERS, O_FREE), handlers=hs(), models=MODELS)]
E_MEMBERS = [('(ctor)', 30), ('(dtor)', 5), ('operator=', 30), ('emplace', 5), ('has_value', 5), ('(conv)', 5), ('operator*', 15), ('operator->', 8),
             ('value', 15), ('error', 25), ('value_or', 8), ('error_or', 12), ('and_then', 25), ('transform', 25), ('or_else', 25), ('transform_error', 20), ('swap', 5)]
E_FREE = [('operator==', 10), ('swap', 5)]
U_MEMBERS = [('(ctor)', 4), ('error', 4), ('swap', 1)]


def utargets():
    ts = []
    for n, mn in U_MEMBERS:
        ts.append(Target(Contract(UNX + '::' + n, post=upost, pre=pre, tpost=tpost, frame=False, setup=setup(False), name='unexpected::' + n), match=lambda p, f: interesting(f), min=mn))
    for n in ('operator==', 'swap'):
        ts.append(Target(Contract('fitoria::' + n, post=upost, pre=pre, tpost=tpost, frame=False, setup=setup(False), name='%s (unexpected)' % n),
                         match=lambda p, f: interesting(f) and wrapper_param(p, f, UNX) is not None and wrapper_param(p, f, UNX, 1) is not None, min=1))
    return ts


O02 = [Unit_('expected', targets=targets(EXP, E_MEMBERS, E_FREE) + utargets(), handlers=hs(), models=MODELS)]
UNITS = O01 + O02
