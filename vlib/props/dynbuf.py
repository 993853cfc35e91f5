"""core/dynamic_buffer: the readable bytes are a queue, the prepared region lies inside the container."""
import z3
from sym import *
from engine import *
from interp import *
from base import *

DB = 'fitoria::dynamic_buffer::'
MAXSZ = z3.Int('container_max_size')     # Container::max_size()


def model(X, tid, t, name):
    b = X.fresh(name, Str)
    X.assume(z3.And(slen(b) >= 0, slen(b) <= MAXSZ))
    return b


def txt(X, c):
    return c.self()


def h_data(X, c):
    return VIter(c.this, iv(0))


def h_size(X, c):
    return slen(c.self())


def h_resize(X, c):
    s, n = c.self(), c.v(0)
    if X.branch(n > MAXSZ):
        raise CppThrow(None, 'length_error')
    if X.branch(n <= slen(s)):
        X.write(c.this, X.sub(s, iv(0), n))
    else:
        r = srep(simp(n - slen(s)), c.v(1) if len(c.args) > 1 else iv(0))
        X.write(c.this, X.cat(s, r))
    return UNIT


def h_capacity(X, c):
    r = X.fresh('capacity', I)
    X.assume(z3.And(r >= slen(c.self()), r <= MAXSZ))
    return r


def h_memmove(X, c):
    d, s, n = c.v(0), c.v(1), c.v(2)
    if not (isinstance(d, VIter) and isinstance(s, VIter) and d.lv.loc == s.lv.loc and d.lv.path == s.lv.path):
        raise Unsupported('memmove between these objects')
    t = X.read(d.lv)
    X.prove('memmove stays inside the container', z3.And(n >= 0, d.idx >= 0, s.idx >= 0, d.idx + n <= slen(t), s.idx + n <= slen(t)))
    e = simp(d.idx + n)
    X.write(d.lv, X.cat(X.cat(X.sub(t, iv(0), d.idx), X.sub(t, s.idx, n)), X.sub(t, e, simp(slen(t) - e))))
    return d


def h_memcpy(X, c):
    d, s, n = c.v(0), c.v(1), c.v(2)
    if isinstance(d, VIter) and isinstance(s, VIter):
        X.prove('memcpy ranges do not overlap', z3.Or(n == 0, d.idx + n <= s.idx, s.idx + n <= d.idx))
    return h_memmove(X, c)


def h_buffer(X, e, fn, tid, t):
    args = X.eval_args(fn, e['a'])
    v = [X.read(a) if isl(a) else a for a in args]
    if fn.get('cpctor') or fn.get('mvctor'):
        return v[0]
    if len(v) == 1 and isinstance(v[0], Rec):
        return Rec(t['q'], dict(v[0].f))
    if not v:
        return Rec(t['q'], dict(p=NullP(), n=iv(0)))
    return Rec(t['q'], dict(p=v[0], n=v[1]))


def h_cctor(X, e, fn, tid, t):
    import stdmodel
    args = e['a']
    if not args:
        return sempty
    if fn.get('cpctor') or fn.get('mvctor'):
        src = X.ev(args[0])
        if not isl(src):
            return src
        v = X.read(src)
        if fn.get('mvctor') and isinstance(src, LV):
            X.write(src, sempty)
        return v
    raise Unsupported('container constructor')


HANDLERS = {'ctor:boost::asio::mutable_buffer': h_buffer, 'ctor:boost::asio::const_buffer': h_buffer,
            'std::memmove': h_memmove, 'memmove': h_memmove, 'std::memcpy': h_memcpy, 'memcpy': h_memcpy}
for _c in ('std::basic_string', 'std::vector'):
    HANDLERS.update({_c + '::data': h_data, _c + '::size': h_size, _c + '::resize': h_resize,
                     _c + '::capacity': h_capacity, _c + '::max_size': lambda X, c: MAXSZ, 'ctor:' + _c: h_cctor,
                     'default:' + _c: lambda X, tid, t: sempty,
                     _c + '::begin': h_data, _c + '::end': lambda X, c: VIter(c.this, slen(c.self()))})
MODELS = {'std::basic_string': model, 'std::vector': model}


def fl(o):
    return o.f['container_'], o.f['roffset_'], o.f['woffset_'], o.f['limit_']


def readable(X, o):
    c, r, w, _ = fl(o)
    return mksub(c, r, simp(w - r))


def inv(o):
    c, r, w, l = fl(o)
    return [('0 <= roffset <= woffset <= container size', z3.And(r >= 0, r <= w, w <= slen(c))),
            ('container size <= limit', z3.And(slen(c) <= l, l < (1 << 64)))]


def rsz(o):
    return o.f['woffset_'] - o.f['roffset_']


def teq(X, a, b):
    return seqeq(a, b)


def same(X, cx, lab='readable bytes are unchanged'):
    return [(lab, teq(X, readable(X, cx.this1), readable(X, cx.this0))),
            ('limit is unchanged', cx.this1.f['limit_'] == cx.this0.f['limit_'])]


def region(cx, r, idx, n, what):
    """the returned buffer is [idx, idx+n) of this object's container"""
    X = cx.X
    p = r.f['p']
    path = cx.this.path + (('f', 'container_'),)
    okl = isinstance(p, VIter) and p.lv.loc == cx.this.loc and p.lv.path == path
    fs = [('%s points into the container' % what, z3.BoolVal(okl))]
    if okl:
        c = cx.this1.f['container_']
        fs += [('%s starts where specified' % what, p.idx == idx),
               ('%s has the specified size' % what, r.f['n'] == n),
               ('%s lies inside the container' % what, z3.And(p.idx >= 0, r.f['n'] >= 0, p.idx + r.f['n'] <= slen(c)))]
    return fs


def pre_inv(cx):
    return inv(cx.this0)


def mod_this(cx):
    return [cx.this]


def c_prepare(cx, r):
    X, o0, o1, n = cx.X, cx.this0, cx.this1, cx.args[0]
    return inv(o1) + same(X, cx) + [('returns only when the bytes fit the limit', n <= o0.f['limit_'] - rsz(o0)),
                                    ('container ends with the prepared region', slen(o1.f['container_']) == o1.f['woffset_'] + n)] + \
        region(cx, r, o1.f['woffset_'], n, 'writable region')


def t_prepare(cx, t):
    X, o0, n = cx.X, cx.this0, cx.args[0]
    ok = t.val == 'length_error' or (t.tid is not None and X.prog.t(X.prog.strip(t.tid))['q'] == 'std::length_error')
    return inv(cx.this1) + same(X, cx) + [('only std::length_error is thrown', z3.BoolVal(bool(ok))), ('throws only when the bytes do not fit', z3.Or(n > o0.f['limit_'] - rsz(o0), n > MAXSZ - o0.f['woffset_']))]


def c_commit(cx, r):
    X, o0, o1, n = cx.X, cx.this0, cx.this1, cx.args[0]
    c, ro, wo, _ = fl(o0)
    avail = slen(c) - wo
    k = z3.If(n <= avail, n, avail)
    return inv(o1) + [('the first min(n, prepared) prepared bytes become readable', teq(X, readable(X, o1), scat(readable(X, o0), ssub(c, wo, k)))),
                      ('readable size', rsz(o1) == rsz(o0) + k),
                      ('the remaining prepared bytes stay', z3.And(slen(o1.f['container_']) - o1.f['woffset_'] == avail - k,
                                                                   teq(X, ssub(o1.f['container_'], o1.f['woffset_'], avail - k), ssub(c, wo + k, avail - k)))),
                      ('limit is unchanged', o1.f['limit_'] == o0.f['limit_'])]


def c_consume(cx, r):
    X, o0, o1, n = cx.X, cx.this0, cx.this1, cx.args[0]
    c, ro, wo, _ = fl(o0)
    k = z3.If(n <= rsz(o0), n, rsz(o0))
    return inv(o1) + [('the first min(n, size) readable bytes are removed', teq(X, readable(X, o1), ssub(readable(X, o0), k, rsz(o0) - k))),
                      ('readable size', rsz(o1) == rsz(o0) - k),
                      ('limit is unchanged', o1.f['limit_'] == o0.f['limit_'])]


def c_view(cx, r):
    o1 = cx.this1
    return inv(o1) + same(cx.X, cx) + region(cx, r, o1.f['roffset_'], rsz(o1), 'readable region')


def c_release(cx, r):
    X, o0, o1 = cx.X, cx.this0, cx.this1
    return inv(o1) + [('exactly the readable bytes are released', teq(X, r, readable(X, o0))),
                      ('nothing readable is left behind', rsz(o1) == 0),
                      ('limit is unchanged', o1.f['limit_'] == o0.f['limit_'])]


def c_ctor0(cx, r):
    o = cx.this1
    return inv(o) + [('empty', rsz(o) == 0), ('limit is the maximum size of the container', o.f['limit_'] == MAXSZ)]


def c_ctorn(cx, r):
    o = cx.this1
    return inv(o) + [('empty', rsz(o) == 0), ('limit is the given limit', o.f['limit_'] == cx.args[0])]


def c_ctorc(cx, r):
    o = cx.this1
    return inv(o) + [('the bytes of the container are readable', teq(cx.X, readable(cx.X, o), cx.args0)),
                     ('limit is the maximum size of the container', o.f['limit_'] == MAXSZ)]


def scalar(f):
    return lambda cx, r: [('result', f(cx, r))] + same(cx.X, cx) + inv(cx.this1)


def ctor_pre(cx):
    cx.args0 = cx.args[0] if cx.args else None
    return []


def nargs(n, kind=None):
    def m(X, fn):
        if fn.get('cpctor') or fn.get('mvctor') or len(fn['params']) != n:
            return False
        return True
    return m


def mk(name, post, pre=pre_inv, match=None, tpost=None):
    q = DB + name
    return Contract(q, post=post, pre=pre, match=match, tpost=tpost, modifies=mod_this, name='dynamic_buffer::' + name)


PREP = mk('prepare', c_prepare, tpost=t_prepare)
COMMIT = mk('commit', c_commit)
CONSUME = mk('consume', c_consume)
DATA = mk('data', c_view)
CDATA = mk('cdata', c_view)
SIZE = mk('size', scalar(lambda cx, r: r == rsz(cx.this0)))
MAXS = mk('max_size', scalar(lambda cx, r: r == cx.this0.f['limit_']))
CAP = mk('capacity', scalar(lambda cx, r: r >= cx.this0.f['woffset_']))
REL = mk('release', c_release)
CT0 = Contract(DB + '(ctor)', post=c_ctor0, match=nargs(0), name='dynamic_buffer::dynamic_buffer()')


def intparam(want):
    def m(p, f):
        return nargs(1)(None, f) and (p.t(f['params'][0]['t'])['k'] == 'int') == want
    return m


CTN = Contract(DB + '(ctor)', post=c_ctorn, pre=ctor_pre, name='dynamic_buffer::dynamic_buffer(limit)')
CTC = Contract(DB + '(ctor)', post=c_ctorc, pre=ctor_pre, name='dynamic_buffer::dynamic_buffer(container)')

AX = [MAXSZ >= (1 << 60), MAXSZ < (1 << 63)]
TS = [Target(c, min=n) for c, n in ((PREP, 3), (COMMIT, 3), (CONSUME, 3), (DATA, 6), (CDATA, 3), (SIZE, 3), (MAXS, 3), (CAP, 3), (REL, 3), (CT0, 3))] + \
    [Target(CTN, match=intparam(True), min=3), Target(CTC, match=intparam(False), min=3)]
B01 = [Unit_('dynamic_buffer', boost=True, contracts=[], targets=TS, handlers=HANDLERS, models=MODELS, axioms=AX,
             notes=['a moved-from std::string or std::vector is empty (libstdc++)', 'Container::max_size() is a constant at least 2^60; resize beyond it throws std::length_error',
                    'between prepare and commit the caller writes only inside the returned region'])]
UNITS = B01
