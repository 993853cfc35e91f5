"""Body streams: web/async_read_until_eof, async_readable_vector_stream, async_readable_file_stream, async_read_into_stream_file.
A coroutine is verified as the sequential program between its suspensions; what it awaits is a modelled operation."""
import z3
from sym import *
from engine import *
from interp import *
from base import *
import stdmodel, fitmodel, loops
from stdmodel import Nullopt
from props import dynbuf
from props.dynbuf import MAXSZ

W = 'fitoria::web::'
BEC = 'boost::system::error_code'
SF = 'boost::asio::basic_stream_file'
TS = 'boost::beast::test::basic_stream'
EOF = fitmodel.cat_id('boost::asio::error::misc_errors')


# ---- the stream that is read: result number i of async_read_some()
shas = z3.Function('shas', I, B)      # not the end
sok = z3.Function('sok', I, B)        # not an error
chunk = z3.Function('chunk', I, Str)
serrv = z3.Function('serrv', I, I)
serrc = z3.Function('serrc', I, I)
acc = z3.Function('acc', I, Str)      # the chunks before number i, one after the other


def acc_def(i):
    return [acc(iv(0)) == sempty, z3.Implies(i >= 0, acc(i + 1) == scat(acc(i), chunk(i))), slen(acc(i)) >= 0]


def src_read(X, c):
    n = c.self().f['next']
    X.write(c.this, Rec(c.self().q, {'next': simp(n + 1)}))
    X.assume(z3.And(slen(chunk(n)) >= 0, slen(chunk(n)) < 1 << 60))
    return Opt(shas(n), Exp(sok(n), chunk(n), fitmodel.mk_ec(serrv(n), serrc(n))))


def wrap(X, v, tid):
    """what co_return makes of its operand"""
    t = X.prog.t(X.prog.strip(tid))
    q = t.get('q')
    if q == 'fitoria::optional':
        if isinstance(v, Nullopt):
            return Opt(z3.BoolVal(False), X.mk(t['ta'][0]['t'], 'noval'))
        return v if isinstance(v, Opt) else Opt(z3.BoolVal(True), wrap(X, v, t['ta'][0]['t']))
    if q == 'fitoria::expected':
        if isinstance(v, Exp):
            return Exp(v.has, UNIT, v.err) if X.prog.t(t['ta'][0]['t'])['k'] == 'void' else v
        return fitmodel.bad(X, t, fitmodel.unex_err(v)) if fitmodel.is_unex(v) else fitmodel.good(X, t, v)
    return v


def co_return(X, v, s, fn):
    t = X.prog.t(fn['ret'])
    if t.get('q') != 'boost::asio::awaitable':
        raise Unsupported('coroutine type')
    return wrap(X, v, t['ta'][0]['t'])


# ---- error codes of Boost
def m_bec(X, tid, t, name):
    return fitmodel.m_ec(X, tid, t, name)


def bec_ctor(X, e, fn, tid, t):
    """from an enumerator, or from (value, category, source location)"""
    a = [x for x in e['a'] if X.prog.t(x['t'])['k'] != 'ptr']           # enable_if parameters, source locations
    if len(a) == 1:
        return fitmodel.H['ctor:' + fitmodel.EC](X, dict(e, a=a), fn, tid, t)
    if not a:
        return fitmodel.mk_ec(iv(0), iv(0))
    raise Unsupported('construction of an error_code: %s %s' % ([x['k'] for x in a], X.prog.t(fn['params'][0]['t'])))


def h_eq_eof(X, c):
    vs = [c.v(i) for i in range(len(c.args))]
    if c.this is not None:
        vs = [c.self()] + vs
    def two(i):
        v = vs[i]
        if isinstance(v, Rec):
            return v.f['value'], v.f['category']
        ps = c.fn['params']
        p = ps[i - (len(vs) - len(ps))]
        return v, fitmodel.cat_id(X.prog.t(X.prog.strip(p['t']))['q'])
    (a, b), (d, e) = two(0), two(1)
    return z3.And(a == d, b == e)


# ---- files: content and a position
def copy_into(X, buf, text, k):
    """the first k bytes of a buffer are overwritten"""
    p = buf.f['p']
    t = X.read(p.lv)
    X.prove('bytes are stored inside the buffer', z3.And(p.idx >= 0, p.idx + k <= slen(t)))
    e = simp(p.idx + k)
    X.write(p.lv, X.cat(X.cat(X.sub(t, iv(0), p.idx), text), X.sub(t, e, simp(slen(t) - e))))


def bufof(v):
    if not isinstance(v, Rec) or 'n' not in v.f:
        raise Unsupported('the buffer of an operation')
    return v


def f_read(X, c):
    f, b = c.self(), bufof(c.v(0))
    C, pos = f.f['content'], f.f['pos']
    rt = X.prog.t(X.prog.t(c.fn['ret'])['ta'][0]['t'])
    X.prove('reads at least one byte at a time', b.f['n'] > 0)
    if X.branch(X.fresh('readfails', B)):
        e = fitmodel.mk_ec(X.fint('readerr'), X.fint('readcat'))
        X.assume(z3.And(e.f['value'] != 0, e.f['category'] != EOF))
        return fitmodel.bad(X, rt, e)
    if X.branch(pos >= slen(C)):
        return fitmodel.bad(X, rt, fitmodel.mk_ec(iv(2), EOF))
    k = X.fresh('got', I)
    X.assume(z3.And(k >= 1, k <= b.f['n'], k <= slen(C) - pos))
    copy_into(X, b, X.sub(C, pos, k), k)
    X.write(c.this, Rec(f.q, dict(f.f, pos=simp(pos + k)), f.rid))
    return fitmodel.good(X, rt, k)


def f_seek(X, c):
    f = c.self()
    X.prove('seeks from the beginning', c.v(1) == 0)
    X.prove('seeks to a position', c.v(0) >= 0)
    if X.branch(X.fresh('seekfails', B)):
        e = fitmodel.mk_ec(X.fint('seekerr'), X.fint('seekcat'))
        X.assume(e.f['value'] != 0)
        X.write(c.args[2], e)
        return X.fint('pos')
    X.write(c.args[2], fitmodel.mk_ec(iv(0), iv(0)))
    X.write(c.this, Rec(f.q, dict(f.f, pos=c.v(0)), f.rid))
    return c.v(0)


def f_write(X, c):
    f, b = c.v(0), c.v(1)
    if f.q == TS:
        return sink_write(X, c, f, b)
    b = bufof(b)
    rt = X.prog.t(X.prog.t(c.fn['ret'])['ta'][0]['t'])
    if X.branch(X.fresh('writefails', B)):
        e = fitmodel.mk_ec(X.fint('writeerr'), X.fint('writecat'))
        X.assume(e.f['value'] != 0)
        return fitmodel.bad(X, rt, e)
    p, n = b.f['p'], b.f['n']
    t = X.read(p.lv)
    X.prove('writes bytes that exist', z3.And(p.idx >= 0, n >= 0, p.idx + n <= slen(t)))
    X.assume(slen(f.f['content']) + n < 1 << 63)          # a file offset is a signed 64-bit number
    X.write(c.args[0], Rec(f.q, dict(f.f, content=X.cat(f.f['content'], X.sub(t, p.idx, n))), f.rid))
    return fitmodel.good(X, rt, n)


# a connection that carries a chunked body: what was sent so far, and whether the last chunk was sent
def sink_write(X, c, f, b):
    rt = X.prog.t(X.prog.t(c.fn['ret'])['ta'][0]['t'])
    X.prove('nothing is sent behind the last chunk', z3.Not(f.f['ended']))
    if b.q == 'chunk':
        p, n = b.f['b'].f['p'], b.f['b'].f['n']
        t = X.read(p.lv)
        X.prove('sends bytes that exist', z3.And(p.idx >= 0, n >= 0, p.idx + n <= slen(t)))
        X.prove('a chunk of the body is not empty (an empty chunk is the end of the body)', n > 0)
        text = X.sub(t, p.idx, n)
    elif b.q != 'lastchunk':
        raise Unsupported('what is sent')
    if X.branch(X.fresh('sendfails', B)):
        e = fitmodel.mk_ec(X.fint('senderr'), X.fint('sendcat'))
        X.assume(e.f['value'] != 0)
        X.write(c.args[0], Rec(f.q, dict(f.f, broken=z3.BoolVal(True)), f.rid))
        return fitmodel.bad(X, rt, e)
    if b.q == 'lastchunk':
        X.write(c.args[0], Rec(f.q, dict(f.f, ended=z3.BoolVal(True)), f.rid))
    else:
        X.write(c.args[0], Rec(f.q, dict(f.f, sent=X.cat(f.f['sent'], text)), f.rid))
    return fitmodel.good(X, rt, X.fint('bytes'))


def m_sink(X, tid, t, name):
    s = X.fresh(name + '_sent', Str)
    X.assume(z3.And(slen(s) >= 0, slen(s) < 1 << 60))
    return Rec(TS, {'sent': s, 'ended': z3.BoolVal(False), 'broken': z3.BoolVal(False)}, t['id'])


def m_file(X, tid, t, name):
    c, p = X.fresh(name + '_content', Str), X.fresh(name + '_pos', I)
    X.assume(z3.And(slen(c) >= 0, slen(c) < 1 << 60, p >= 0, p < 1 << 63))
    return Rec(SF, {'content': c, 'pos': p}, t['id'])


def h_netbuf(X, c):
    lv = c.args[0]
    v = X.read(lv)
    if isinstance(v, z3.ExprRef) and v.sort() == Str:
        return Rec('boost::asio::mutable_buffer', dict(p=VIter(lv, iv(0)), n=slen(v)))
    raise Unsupported('net::buffer of this object')


def h_memcpy(X, c):
    d, s, n = c.v(0), c.v(1), c.v(2)
    if isinstance(d, VIter) and isinstance(s, VIter) and (d.lv.loc != s.lv.loc or d.lv.path != s.lv.path):
        src = X.read(s.lv)
        X.prove('memcpy reads inside its source', z3.And(n >= 0, s.idx >= 0, s.idx + n <= slen(src)))
        copy_into(X, Rec('b', dict(p=d, n=n)), X.sub(src, s.idx, n), n)
        return d
    return dynbuf.h_memcpy(X, c)


def h_vctor(X, e, fn, tid, t):
    """std::vector<std::byte>"""
    a = e['a']
    ps = [X.prog.t(X.prog.strip(p['t'])) for p in fn['params']]
    if len(a) >= 1 and ps[0]['k'] == 'int':
        n = X.rv(a[0])
        return srepx(X, n)
    if len(a) >= 2:
        i, j = X.rv(a[0]), X.rv(a[1])
        if isinstance(i, SPtr) and isinstance(j, SPtr) and i.base.eq(j.base):
            X.prove('the bytes copied lie in order', z3.And(i.idx >= 0, i.idx <= j.idx, j.idx <= slen(i.base)))
            return X.sub(i.base, i.idx, simp(j.idx - i.idx))
        raise Unsupported('vector of these bytes')
    return dynbuf.h_cctor(X, e, fn, tid, t)


def srepx(X, n):
    r = srep(n, iv(0))
    X.assume(slen(r) == n)
    return r


# ---- std::span: a view of bytes
def m_span(X, tid, t, name):
    b = X.fresh(name, Str)
    X.assume(z3.And(slen(b) >= 0, slen(b) < 1 << 60))
    return View(b, iv(0), slen(b))


def span_ctor(X, e, fn, tid, t):
    v = X.rv(e['a'][0])
    if isinstance(v, View):
        return v
    raise Unsupported('span')


H = dict(dynbuf.HANDLERS)
H.update({'ctor:std::vector': h_vctor, 'memcpy': h_memcpy, 'std::memcpy': h_memcpy, 'vt::source::async_read_some': src_read, 'co_return': co_return,
          'default:' + BEC: lambda X, tid, t: fitmodel.mk_ec(iv(0), iv(0)), 'ctor:' + BEC: bec_ctor, BEC + '::(conv)': lambda X, c: c.self().f['value'] != 0,
          BEC + '::operator bool': lambda X, c: c.self().f['value'] != 0, BEC + '::failed': lambda X, c: c.self().f['value'] != 0,
          'boost::asio::error::make_error_code': fitmodel.H['std::make_error_code'],
          'boost::system::operator==': h_eq_eof, 'boost::system::operator!=': lambda X, c: z3.Not(h_eq_eof(X, c)), BEC + '::operator==': h_eq_eof,
          SF + '::async_read_some': f_read, SF + '::seek': f_seek, SF + '::size': lambda X, c: slen(c.self().f['content']), 'boost::asio::async_write': f_write,
          'ctor:' + SF: lambda X, e, fn, tid, t: X.rv(e['a'][0]),
          'ctor:boost::asio::use_awaitable_t': lambda X, e, fn, tid, t: UNIT, 'ctor:fitoria::as_expected_t': lambda X, e, fn, tid, t: UNIT,
          'boost::beast::http::make_chunk': lambda X, c: Rec('chunk', {'b': bufof(c.v(0))}), 'boost::beast::http::make_chunk_last': lambda X, c: Rec('lastchunk', {}),
          'boost::asio::buffer': h_netbuf, 'boost::asio::mutable_buffer::data': lambda X, c: c.self().f['p'], 'boost::asio::mutable_buffer::size': lambda X, c: c.self().f['n'],
          'ctor:std::span': span_ctor, 'std::span::empty': lambda X, c: c.self().n == 0, 'std::span::size': lambda X, c: c.self().n,
          'std::span::begin': lambda X, c: SPtr(c.self().base, c.self().off), 'std::span::end': lambda X, c: SPtr(c.self().base, simp(c.self().off + c.self().n)),
          'std::as_bytes': lambda X, c: c.v(0), 'std::vector::empty': lambda X, c: slen(c.self()) == 0})
MODELS = dict(dynbuf.MODELS)
MODELS.update({SF: m_file, TS: m_sink, BEC: m_bec, 'std::span': m_span, 'vt::source': lambda X, tid, t, name: Rec('vt::source', {'next': iv(0)}, t['id'])})


# ---- contracts
def srcnow(cx):
    return [v for v in (cx.final(i) for i in range(len(cx.raw))) if v.q == 'vt::source'][0].f['next']


def ended(cx, r, what):
    """the three ways a stream is read to its end; `what` is asked of the chunks that were delivered"""
    X = cx.X
    m = srcnow(cx) - 1
    i = X.fresh('i', I)
    for g in acc_def(m):
        X.assume(g)
    return [('reads until the end or an error', z3.And(m >= 0, z3.Implies(z3.And(i >= 0, i < m), z3.And(shas(i), sok(i)))))], m


def p_until(cx, r):
    g, m = ended(cx, r, None)
    return g + [('succeeds exactly at the end of the stream', r.has == z3.Not(shas(m))), ('an error of the stream is passed on', z3.Implies(z3.Not(r.has), z3.And(shas(m), z3.Not(sok(m)), r.err.f['value'] == serrv(m), r.err.f['category'] == serrc(m)))),
                ('the result is all chunks in order', z3.Implies(r.has, seqeq(r.val, acc(m))))]


def t_until(cx, t):
    X = cx.X
    m = srcnow(cx) - 1
    for g in acc_def(m):
        X.assume(g)
    ok = t.val == 'length_error' or (t.tid is not None and X.prog.t(X.prog.strip(t.tid))['q'] == 'std::length_error')
    return [('only std::length_error is thrown', z3.BoolVal(bool(ok))), ('throws only when the bytes exceed the container', slen(acc(m + 1)) > MAXSZ)]


def named(g):
    return [x if isinstance(x, tuple) else ('', x) for x in (g if isinstance(g, list) else [g])]


def objects(lc):
    """the modified cells and the objects they are parts of"""
    seen, out = set(), []
    for c in lc.cells:
        for n in range(len(c.path), -1, -1):
            k = (c.loc, c.path[:n])
            if repr(k) not in seen:
                seen.add(repr(k))
                try:
                    lc.e(LV(*k))
                except Exception:
                    continue
                out.append(LV(*k))
    return out


def until_pool(lc):
    X = lc.X
    if X.verifying not in (UNTIL, INTO, CHUNKS):
        return
    i = z3.Int('il')
    lc.fact(lambda s: acc_def(s.k) + acc_def(s.k - 1))
    for lv in objects(lc):
        v = lc.e(lv)
        if isinstance(v, Rec) and v.q == 'vt::source':
            lc.add('the next result is number k + 1', lambda s, lv=lv: s.get(lv).f['next'] == s.k + 1)
        if isinstance(v, Opt) and isinstance(v.val, Exp):
            lc.add('result k is at hand', lambda s, lv=lv: z3.And(s.get(lv).has == shas(s.k), s.get(lv).val.has == sok(s.k), z3.Implies(z3.And(shas(s.k), sok(s.k)), s.get(lv).val.val == chunk(s.k)),
                                                                  s.get(lv).val.err.f['value'] == serrv(s.k), s.get(lv).val.err.f['category'] == serrc(s.k)))
        if isinstance(v, Rec) and v.q == 'fitoria::dynamic_buffer':
            lc.add('every chunk so far is readable', lambda s, lv=lv: seqeq(dynbuf.readable(X, s.get(lv)), acc(s.k)))
            lc.add('the buffer is in order', lambda s, lv=lv: z3.And(*[f for _, f in named(dynbuf.inv(s.get(lv)))]))
            lc.add('as many bytes as the chunks have', lambda s, lv=lv: dynbuf.fl(s.get(lv))[2] - dynbuf.fl(s.get(lv))[1] == slen(acc(s.k)))
        if isinstance(v, Rec) and v.q == SF and X.verifying is INTO:
            C0 = X.cx.args[1].f['content']
            lc.add('the file is as long as it was and the chunks', lambda s, lv=lv: slen(s.get(lv).f['content']) == slen(C0) + slen(acc(s.k)))
            lc.add('the file stays smaller than a file can be', lambda s, lv=lv: slen(s.get(lv).f['content']) < 1 << 63)
            lc.add('every chunk so far is written', lambda s, lv=lv: seqeq(s.get(lv).f['content'], scat(C0, acc(s.k))))
        if isinstance(v, Rec) and v.q == TS:
            S0 = X.cx.args[0].f['sent']
            lc.add('every chunk so far is sent', lambda s, lv=lv: seqeq(s.get(lv).f['sent'], scat(S0, acc(s.k))))
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            lc.add('%r is the number of bytes so far' % (lv,), lambda s, lv=lv: s.get(lv) == slen(acc(s.k)))
    lc.add('no chunk so far is the end or an error', lambda s: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.k), z3.And(shas(i), sok(i))), patterns=[shas(i)]))


UNTIL = Contract(W + 'async_read_until_eof', post=p_until, tpost=t_until, modifies=lambda cx: [cx.raw[0]], terminates=False, name='async_read_until_eof')


def p_into(cx, r):
    X = cx.X
    g, m = ended(cx, r, None)
    C0, C1 = cx.args[1].f['content'], cx.final(1).f['content']
    return [('succeeds only at the end of the stream', z3.Implies(r.has, z3.Not(shas(m))))] + \
        [(a, z3.Implies(z3.Or(r.has, z3.Not(sok(m))), b)) for a, b in g] + \
        [('every chunk is written, in order', z3.Implies(r.has, seqeq(C1, scat(C0, acc(m))))), ('reports the number of bytes written', z3.Implies(r.has, r.val == slen(acc(m)))),
         ('an error of the stream is passed on', z3.Implies(z3.And(shas(m), z3.Not(sok(m))), z3.And(z3.Not(r.has), r.err.f['value'] == serrv(m), r.err.f['category'] == serrc(m)))),
         ('a failure leaves the chunks before it', z3.Implies(z3.Not(r.has), seqeq(C1, scat(C0, acc(m))))),
         ('an error is reported as one', z3.Implies(z3.And(z3.Not(r.has), sok(m)), r.err.f['value'] != 0))]


INTO = Contract(W + 'async_read_into_stream_file', post=p_into, modifies=lambda cx: [cx.raw[0], cx.raw[1]], terminates=False, name='async_read_into_stream_file')


def p_chunks(cx, r):
    X = cx.X
    g, m = ended(cx, r, None)
    o0, o1 = cx.args[0], cx.final(0)
    all_ = seqeq(o1.f['sent'], scat(o0.f['sent'], acc(m)))
    return [('succeeds only at the end of the stream', z3.Implies(r.has, z3.Not(shas(m))))] + \
        [(a, z3.Implies(z3.Or(r.has, z3.Not(sok(m))), b)) for a, b in g] + \
        [('a success has sent every byte, in order', z3.Implies(r.has, all_)), ('a success has sent the last chunk', z3.Implies(r.has, z3.And(o1.f['ended'], z3.Not(o1.f['broken'])))),
         ('the body is not completed without a success', z3.Implies(z3.Not(r.has), z3.Not(o1.f['ended']))),
         ('an error of the stream is passed on', z3.Implies(z3.And(shas(m), z3.Not(sok(m))), z3.And(z3.Not(r.has), r.err.f['value'] == serrv(m), r.err.f['category'] == serrc(m)))),
         ('an error is reported as one', z3.Implies(z3.And(z3.Not(r.has), sok(m)), r.err.f['value'] != 0))]


CHUNKS = Contract(W + 'async_write_chunks', post=p_chunks, modifies=lambda cx: [cx.raw[0], cx.raw[1]], terminates=False, name='async_write_chunks')


# vector stream
def held(v):
    o = [x for x in v.f.values() if isinstance(x, Opt)]
    if len(o) != 1:
        raise Unsupported('the bytes held')
    return o[0]


def p_vread(cx, r):
    h0, h1 = held(cx.this0), held(cx.this1)
    return [('delivers its bytes if it still has them', r.has == h0.has), ('delivers them completely and without an error', z3.Implies(h0.has, z3.And(r.val.has, seqeq(r.val.val, h0.val)))), ('has nothing left', z3.Not(h1.has))]


def p_vctor(cx, r):
    h = held(cx.this1)
    if not cx.args:
        return [('holds nothing', z3.Not(h.has))]
    v = cx.args[0]
    n = v.n if isinstance(v, View) else slen(v)
    t = cx.X.vterm(v)
    return [('holds bytes exactly when there are some', h.has == (n > 0)), ('holds all the bytes given', z3.Implies(h.has, seqeq(h.val, t)))]


ncp = lambda n: (lambda X, f: not f.get('cpctor') and not f.get('mvctor') and len(f['params']) in n)
VS = W + 'async_readable_vector_stream::'
VREAD = Contract(VS + 'async_read_some', post=p_vread, modifies=lambda cx: [cx.this], name='async_readable_vector_stream::async_read_some')
VCTOR = Contract(VS + '(ctor)', post=p_vctor, match=ncp((0, 1)), name='async_readable_vector_stream::async_readable_vector_stream')

# file stream: place = where the next byte comes from
FS = W + 'async_readable_file_stream::'


def place(o):
    return z3.If(o.f['offset_'] > 0, o.f['offset_'], o.f['file_'].f['pos'])


def p_fread(cx, r):
    X, o0, o1 = cx.X, cx.this0, cx.this1
    C, P, R = o0.f['file_'].f['content'], place(o0), o0.f['remaining_']
    n = slen(r.val.val)
    ok = z3.And(r.has, r.val.has)
    return [('the file stays as it is', o1.f['file_'].f['content'] == C),
            ('nothing more is delivered than asked for', z3.Implies(R == 0, z3.Not(r.has))),
            ('ends only when everything asked for is delivered or the file ends', z3.Implies(z3.Not(r.has), z3.Or(R == 0, P >= slen(C)))),
            ('delivers at least one byte and no more than asked for', z3.Implies(ok, z3.And(n >= 1, n <= R))),
            ('delivers the next bytes of the file', z3.Implies(ok, z3.And(P + n <= slen(C), seqeq(r.val.val, ssub(C, P, n))))),
            ('goes on behind the bytes delivered', z3.Implies(ok, z3.And(place(o1) == P + n, o1.f['remaining_'] == R - n))),
            ('otherwise goes on at the same place', z3.Implies(z3.Not(ok), z3.And(z3.Or(place(o1) == P, P >= slen(C)), o1.f['remaining_'] == R))),
            ('an error is reported as one', z3.Implies(z3.And(r.has, z3.Not(r.val.has)), r.val.err.f['value'] != 0))]


def p_fctor(cx, r):
    o = cx.this1
    f = cx.args[0]
    g = [('reads the file given', z3.And(o.f['file_'].f['content'] == f.f['content'], o.f['file_'].f['pos'] == f.f['pos']))]
    n = slen(f.f['content'])
    if len(cx.args) == 1:
        return g + [('reads all of it', z3.And(o.f['offset_'] == 0, o.f['remaining_'] >= n))]
    off, s = cx.args[1], cx.args[2]
    R = o.f['remaining_']
    m = lambda a: z3.If(a < n - off, a, n - off)        # what lies behind the end of the file makes no difference
    return g + [('reads from the offset', o.f['offset_'] == off), ('reads the size given', z3.Implies(z3.And(s.has, off <= n), m(R) == m(s.val))),
                ('reads the rest if no size is given', z3.Implies(z3.And(z3.Not(s.has), off <= n), R >= n - off))]


FREAD = Contract(FS + 'async_read_some', post=p_fread, modifies=lambda cx: [cx.this], name='async_readable_file_stream::async_read_some')
FCTOR = Contract(FS + '(ctor)', post=p_fctor, match=ncp((1, 3)), name='async_readable_file_stream::async_readable_file_stream')

W01 = [Unit_('stream', boost=True, targets=[Target(UNTIL, min=2), Target(INTO), Target(CHUNKS), Target(VREAD), Target(VCTOR, min=3), Target(FREAD), Target(FCTOR, min=2)], handlers=H, models=MODELS, axioms=dynbuf.AX, pools={'*': [until_pool]},
             notes=['a coroutine is verified as the sequence of steps between its suspensions: co_await hands over the modelled result of the operation awaited; the coroutine frame, scheduling and cancellation are not part of the proof',
                    'boost::asio::basic_stream_file (needs io_uring headers, absent here) is replaced by the interface in tu/file_stub.hpp: a content and a position; reads transfer 1..n bytes, report eof at the end, or fail without transferring; async_write writes all bytes or fails without writing'])]
UNITS = W01
