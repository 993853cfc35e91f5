"""encoding/base64: RFC 4648 sections 4 and 5."""
import z3
from sym import *
from engine import *
from base import *

j_ = z3.Int('jq')
BE, BD = 'fitoria::encoding::base64::basic_encoder', 'fitoria::encoding::base64::basic_decoder'


def u8(T, i):
    return sat(T, i) % 256


def sch(v):
    """unsigned byte -> (signed) char"""
    return z3.If(v >= 128, v - 256, v)


# character of a 6-bit value, written from RFC 4648 tables 1 and 2
def A(v, url):
    return z3.If(v < 26, 65 + v, z3.If(v < 52, 71 + v, z3.If(v < 62, v - 4, z3.If(v == 62, iv(45 if url else 43), iv(95 if url else 47)))))


def D(c, url):
    """6-bit value of a character, -1 outside the alphabet"""
    return z3.If(z3.And(c >= 65, c <= 90), c - 65, z3.If(z3.And(c >= 97, c <= 122), c - 71, z3.If(z3.And(c >= 48, c <= 57), c + 4,
           z3.If(c == (45 if url else 43), iv(62), z3.If(c == (95 if url else 47), iv(63), iv(-1))))))


def isurl(X, fn):
    t = X.prog.t(fn['rect'])
    return 'url' in X.prog.t(t['ta'][0]['t'])['q']


# ec(url,T,n,j): j-th character of the encoding of the first n bytes of T without padding
ec = z3.Function('ec', B, Str, I, I, I)


def ec_def(url, T, n, q):
    """definition of the four characters of group q"""
    b = lambda i: z3.If(i < n, u8(T, i), iv(0))
    i, u = 3 * q, z3.BoolVal(url)
    return [z3.And(ec(u, T, n, 4 * q) == A(b(i) / 4, url),
                   ec(u, T, n, 4 * q + 1) == A((b(i) % 4) * 16 + b(i + 1) / 16, url),
                   ec(u, T, n, 4 * q + 2) == A((b(i + 1) % 16) * 4 + b(i + 2) / 64, url),
                   ec(u, T, n, 4 * q + 3) == A(b(i + 2) % 64, url))]


def m(k):
    """characters emitted after k bytes, before the tail"""
    return k + k / 3


def mfull(n):
    return z3.If(n % 3 == 0, 4 * (n / 3), 4 * (n / 3) + n % 3 + 1)


def enum(X, rec_q, fieldt, name):
    for n, v in X.prog.t(fieldt)['en']:
        if n == name:
            return int(v)
    raise Unsupported('enumerator %s' % name)


def st_t(X, fn, fld='state_'):
    t = X.field_type(fn['rec'], fld)
    if t is None:
        raise Unsupported('field %s' % fld)
    return t


def enc_inv(X, fn, o, T, k):
    t = st_t(X, fn)
    E = lambda n: enum(X, None, t, n)
    st = o.f['state_']
    return [z3.And(k >= 0, z3.Or([z3.And(st == E('s%d' % r), k % 3 == r) for r in range(3)])),
            z3.Implies(k % 3 != 0, o.f['rest_'] == u8(T, k - 1)),
            z3.Or([o.f['padding_'] == enum(X, None, st_t(X, fn, 'padding_'), p) for p in ('yes', 'no')])]


def enc_setup(rng):
    def setup(X, fn):
        this = X.alloc(X.mk(fn['rect'], 'self'), fn['rect'])
        T = X.fresh('T', Str)
        X.assume(z3.And(slen(T) >= 0, slen(T) < (1 << 60)))
        k0, k1 = X.fint('k0'), X.fint('k1')
        X.assume(z3.And(k0 >= 0, k0 <= k1, k1 <= slen(T)))
        out = X.alloc(X.fresh('out', Str))
        X.assume(slen(X.read(out)) >= 0)
        et = X.prog.t(fn['params'][0]['t'])['to'] if rng else None
        args = ([SPtr(T, k0, et), SPtr(T, k1, et)] if rng else []) + [BackIns(out)]
        return this, args, dict(T=T, k0=k0, k1=k1 if rng else k0)
    return setup


class G:
    """ghost view of an encoder / decoder call"""
    def __init__(self, cx, rng=True):
        self.X = cx.X
        if rng:
            self.T, self.k0, self.k1 = cx.args[0].base, cx.args[0].idx, cx.args[1].idx
            if not cx.args[1].base.eq(self.T):
                raise Unsupported('iterators of different sequences')
            self.outlv = cx.args[2].lv
        else:
            ex = getattr(cx, 'extra', None) or cx.X.ghost64
            self.T, self.k0 = ex['T'], ex['k0']
            self.k1 = self.k0
            self.outlv = cx.args[0].lv
        if not hasattr(cx, 'out0'):
            cx.out0 = cx.X.read(self.outlv)
        self.out0 = cx.out0


def enc_pre(rng):
    def pre(cx):
        g = G(cx, rng)
        fs = enc_inv(cx.X, cx.fn, cx.this0, g.T, g.k0)
        return [('encoder state matches the bytes consumed so far', z3.And(fs))] + \
            ([('iterator range is valid', g.k0 <= g.k1)] if rng else [])
    return pre


def appended(X, out0, out1, cnt, expect, proving, T=None):
    n0 = slen(out0)
    j = X.fresh('pj', I) if proving else j_
    q = (lambda f: f) if proving else (lambda f: z3.ForAll([j], f))
    return [('output grows by the specified number of characters', slen(out1) == n0 + cnt),
            ('earlier output is untouched', q(z3.Implies(z3.And(j >= 0, j < n0), sat(out1, j) == sat(out0, j)))),
            ('appended characters are as specified', q(z3.Implies(z3.And(j >= n0, j < n0 + cnt), sat(out1, j) == expect(j - n0))))]


def enc_next_post(cx, r):
    g = G(cx)
    X = cx.X
    url = isurl(X, cx.fn)
    o1, out1 = cx.this1, X.read(g.outlv)
    fs = [('encoder state: ' + str(i), f) for i, f in enumerate(enc_inv(X, cx.fn, o1, g.T, g.k1))]
    fs.append(('padding option is kept', o1.f['padding_'] == cx.this0.f['padding_']))
    fs.append(('output iterator result', z3.BoolVal(isinstance(r, BackIns) and r.lv is g.outlv or same_lv(r.lv, g.outlv))))
    N = slen(g.T)
    fs += appended(X, cx.out0, out1, m(g.k1) - m(g.k0), lambda j: ec(z3.BoolVal(url), g.T, INF, m(g.k0) + j), cx.proving)
    return fs


INF = z3.IntVal(1 << 62)


def same_lv(a, b):
    return a is b or (a.loc == b.loc and a.path == b.path)


def out_ret(i):
    def f(cx):
        return cx.args[i]
    return f


def enc_rest_post(cx, r):
    g = G(cx, False)
    X = cx.X
    url = isurl(X, cx.fn)
    o1, out1 = cx.this1, X.read(g.outlv)
    k = g.k0
    q = k / 3
    yes = enum(X, None, st_t(X, cx.fn, 'padding_'), 'yes')
    pad = cx.this0.f['padding_'] == yes
    tail = z3.If(k % 3 == 0, iv(0), iv(1))
    cnt = z3.If(k % 3 == 0, iv(0), z3.If(pad, 4 - m(k) % 4, iv(1)))
    # last sextet, remaining bits zero
    last = z3.If(k % 3 == 1, A((u8(g.T, k - 1) % 4) * 16, url), A((u8(g.T, k - 1) % 16) * 4, url))
    fs = [('encoder is ready for a new text', o1.f['state_'] == enum(X, None, st_t(X, cx.fn), 's0')),
          ('padding option is kept', o1.f['padding_'] == cx.this0.f['padding_'])]
    fs += appended(X, cx.out0, out1, cnt, lambda j: z3.If(j == 0, last, iv(61)), cx.proving)
    return fs


def enc_post(cx, r):
    g = G(cx)
    X = cx.X
    url = isurl(X, cx.fn)
    o1, out1 = cx.this1, X.read(g.outlv)
    k = g.k1
    yes = enum(X, None, st_t(X, cx.fn, 'padding_'), 'yes')
    pad = cx.this0.f['padding_'] == yes
    body = mfull(k)
    total = z3.If(z3.And(pad, k % 3 != 0), 4 * (k / 3) + 4, body)
    fs = [('encoder is ready for a new text', o1.f['state_'] == enum(X, None, st_t(X, cx.fn), 's0')),
          ('padding option is kept', o1.f['padding_'] == cx.this0.f['padding_'])]
    # definition instances: the final group, with bytes past the end taken as zero
    u = z3.BoolVal(url)
    if cx.proving:
        for T_, n_, q_ in ((g.T, INF, k / 3), (g.T, k, k / 3)):
            for f in ec_def(url, T_, n_, q_):
                X.assume(f)
        X.assume(ec_prefix(url, g.T, k))
    fs += appended(X, cx.out0, out1, total - m(g.k0), lambda j: z3.If(m(g.k0) + j < body, ec(u, g.T, k, m(g.k0) + j), iv(61)), cx.proving)
    return fs


def ec_prefix(url, T, k):
    """the characters of complete groups do not depend on what follows (lemma ec_prefix, proved below)"""
    u = z3.BoolVal(url)
    return z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < m(k)), ec(u, T, k, j_) == ec(u, T, INF, j_)))


def enc_pool(lc):
    X = lc.X
    v = X.verifying
    if v is None or not getattr(v, 'b64', None):
        return
    fn = X.cx.fn
    g = G(X.cx)
    out0 = X.cx.out0
    for c in lc.of(SPtr):
        pos = lambda s, c=c: s.get(c).idx
        if v.b64 == 'enc':
            url = isurl(X, fn)
            lc.fact(lambda s, pos=pos: ec_def(url, g.T, INF, pos(s) / 3))
            obj = lambda s: s.get(X.cx.this)
            for i in range(2):
                lc.add('encoder invariant %d at %s' % (i, c.name), lambda s, i=i, pos=pos: enc_inv(X, fn, obj(s), g.T, pos(s))[i])
            cnt = lambda s, pos=pos: m(pos(s)) - m(g.k0)
            exp = lambda j: ec(z3.BoolVal(url), g.T, INF, m(g.k0) + j)
        else:
            url = isurl(X, fn)
            lc.fact(lambda s, pos=pos: dec_def(url, g.T, pos(s)))
            obj = lambda s: s.get(X.cx.this)
            for i in range(8):
                lc.add('decoder invariant %d at %s' % (i, c.name), lambda s, i=i, pos=pos: dec_inv(X, fn, obj(s), g.T, pos(s))[i])
            lc.add('no error so far', lambda s: obj(s).f['state_'] != enum(X, None, st_t(X, fn), 'error'))
            cnt = lambda s, pos=pos: dm(nval(url, g.T, pos(s))) - dm(nval(url, g.T, g.k0))
            exp = lambda j: db(z3.BoolVal(url), g.T, dm(nval(url, g.T, g.k0)) + j)
        out = lambda s: s.get(g.outlv)
        lc.add('output length', lambda s, cnt=cnt: slen(out(s)) == slen(out0) + cnt(s))
        lc.add('output prefix', lambda s: z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < slen(out0)), sat(out(s), j_) == sat(out0, j_))))
        lc.add('output so far', lambda s, cnt=cnt, exp=exp: z3.ForAll([j_], z3.Implies(
            z3.And(j_ >= slen(out0), j_ < slen(out0) + cnt(s)), sat(out(s), j_) == exp(j_ - slen(out0)))))


# ------------------------------------------------------------------ decoding
av = z3.Function('av', B, Str, I, B)          # the first k characters are all in the alphabet
db = z3.Function('db', B, Str, I, I)          # j-th decoded byte (as char)


def dec_axioms():
    T = z3.Const('T', Str)
    k, i = z3.Ints('k i')
    w = z3.Function('av_w', B, Str, I, I)
    ax = []
    for url in (False, True):
        u = z3.BoolVal(url)
        ax.append(z3.ForAll([T, k, i], z3.Implies(z3.And(av(u, T, k), i >= 0, i < k), D(sat(T, i), url) >= 0),
                            patterns=[z3.MultiPattern(av(u, T, k), sat(T, i))]))
        ax.append(z3.ForAll([T, k], z3.Implies(z3.Not(av(u, T, k)), z3.And(w(u, T, k) >= 0, w(u, T, k) < k, D(sat(T, w(u, T, k)), url) < 0)),
                            patterns=[av(u, T, k)]))
    return ax


def dec_def(url, T, k):
    """definition of the decoded bytes of group k/4"""
    u = z3.BoolVal(url)
    q = k / 4
    v = lambda i: D(sat(T, i), url)
    a, b, c, d = v(4 * q), v(4 * q + 1), v(4 * q + 2), v(4 * q + 3)
    return [z3.And(db(u, T, 3 * q) == sch(a * 4 + b / 16),
                   db(u, T, 3 * q + 1) == sch((b % 16) * 16 + c / 4),
                   db(u, T, 3 * q + 2) == sch((c % 4) * 64 + d))]


def e_at(T, i):
    return sat(T, i) == 61


def g0(url, T, k):
    return av(z3.BoolVal(url), T, k)


def g1(url, T, k):
    """one padding character after 2 mod 4 alphabet characters"""
    return z3.And(k % 4 == 3, k >= 3, g0(url, T, k - 1), e_at(T, k - 1))


def g2(url, T, k):
    """complete padding"""
    return z3.And(k % 4 == 0, k >= 4, e_at(T, k - 1), z3.Or(g0(url, T, k - 1), z3.And(g0(url, T, k - 2), e_at(T, k - 2))))


def viable(url, T, k):
    return z3.Or(g0(url, T, k), g1(url, T, k), g2(url, T, k))


def accepted(url, T, n):
    """the text is a base64 text: groups of four, optionally padded, never one stray character"""
    return z3.And(viable(url, T, n), z3.Or(n % 4 != 1))


def nval(url, T, k):
    """number of alphabet characters among the first k (of a viable text)"""
    return z3.If(g0(url, T, k), k, z3.If(g1(url, T, k), k - 1, z3.If(g0(url, T, k - 1), k - 1, k - 2)))


def dm(v):
    return 3 * (v / 4) + z3.If(v % 4 == 0, iv(0), v % 4 - 1)


def dec_inv(X, fn, o, T, k):
    t = st_t(X, fn)
    url = isurl(X, fn)
    st, rest = o.f['state_'], o.f['rest_']
    E = {n: enum(X, None, t, n) for n in ('s0', 's1', 's2', 's3', 'end1', 'end0', 'error')}
    fs = [z3.Or([st == v for v in E.values()])]
    for r in range(4):
        f = z3.And(k % 4 == r, g0(url, T, k))
        if r:
            f = z3.And(f, rest == D(sat(T, k - 1), url)) if r < 4 else f
        fs.append(z3.Implies(st == E['s%d' % r], f))
    fs.append(z3.Implies(st == E['end1'], g1(url, T, k)))
    fs.append(z3.Implies(st == E['end0'], g2(url, T, k)))
    fs.append(z3.Implies(st == E['error'], z3.Not(viable(url, T, k))))
    return fs


def dec_setup(X, fn):
    return enc_setup(True)(X, fn)


def dec_pre(fresh):
    def pre(cx):
        g = G(cx)
        if fresh:
            return [('iterator range is valid', z3.And(g.k0 == 0, g.k0 <= g.k1))]
        return [('decoder state matches the characters consumed so far', z3.And(dec_inv(cx.X, cx.fn, cx.this0, g.T, g.k0) + [g.k0 >= 0])),
                ('iterator range is valid', g.k0 <= g.k1)]
    return pre


def dec_next_post(cx, r):
    g = G(cx)
    X = cx.X
    url = isurl(X, cx.fn)
    o1, out1 = cx.this1, X.read(g.outlv)
    t = st_t(X, cx.fn)
    err = o1.f['state_'] == enum(X, None, t, 'error')
    fs = [('decoder state: %d' % i, f) for i, f in enumerate(dec_inv(X, cx.fn, o1, g.T, g.k1))]
    fs.append(('output iterator result', z3.BoolVal(same_lv(r.lv, g.outlv))))
    cnt = dm(nval(url, g.T, g.k1)) - dm(nval(url, g.T, g.k0))
    for nm, f in appended(X, cx.out0, out1, cnt, lambda j: db(z3.BoolVal(url), g.T, dm(nval(url, g.T, g.k0)) + j), cx.proving):
        fs.append(('unless in error: ' + nm, z3.Implies(z3.Not(err), f)))
    return fs


def dec_throws(cx):
    g = G(cx)
    url = isurl(cx.X, cx.fn)
    return z3.Not(accepted(url, g.T, g.k1))


def dec_post(cx, r):
    g = G(cx)
    X = cx.X
    url = isurl(X, cx.fn)
    out1 = X.read(g.outlv)
    fs = [('returns only for base64 texts', accepted(url, g.T, g.k1))]
    fs += appended(X, cx.out0, out1, dm(nval(url, g.T, g.k1)), lambda j: db(z3.BoolVal(url), g.T, j), cx.proving)
    fs.append(('the decoder object itself is not changed', z3.And([cx.this1.f[k] == cx.this0.f[k] for k in cx.this0.f])))
    return fs


def npar(n):
    return lambda X, fn: len(fn['params']) == n


def mod_out(i):
    return lambda cx: [cx.this, cx.args[i].lv]


ENC_NEXT = Contract(BE + '::encode_next', pre=enc_pre(True), post=enc_next_post, setup=enc_setup(True), match=npar(3),
                    modifies=mod_out(2), mkret=out_ret(2), name='basic_encoder::encode_next(range)')
ENC_NEXT.b64 = 'enc'
ENC_REST = Contract(BE + '::encode_rest', pre=enc_pre(False), post=enc_rest_post, setup=enc_setup(False),
                    modifies=mod_out(0), mkret=out_ret(0), name='basic_encoder::encode_rest')
ENC = Contract(BE + '::encode', pre=enc_pre(True), post=enc_post, setup=enc_setup(True), modifies=mod_out(2), mkret=out_ret(2),
               name='basic_encoder::encode')
ENC.b64 = 'enc'
DEC_NEXT = Contract(BD + '::decode_next', pre=dec_pre(False), post=dec_next_post, setup=dec_setup, match=npar(3),
                    modifies=mod_out(2), mkret=out_ret(2), name='basic_decoder::decode_next(range)')
DEC_NEXT.b64 = 'dec'
DEC = Contract(BD + '::decode', pre=dec_pre(True), post=dec_post, setup=dec_setup, throws=dec_throws, modifies=mod_out(2), mkret=out_ret(2),
               name='basic_decoder::decode')
DEC.b64 = 'dec'


def next_ghost(cx):
    """after encode_next(range) the ghost position of the encoder is the end of the range"""
    g = G(cx)
    cx.X.ghost64 = dict(T=g.T, k0=g.k1)


_use = ENC_NEXT.use


def use_next(X, call):
    cx = Cx(X, call.fn, call.this, call.args)
    X.ghost64 = dict(T=cx.args[0].base, k0=cx.args[1].idx)
    return _use(X, call)


ENC_NEXT.use = use_next


def T_(con, min=4):
    return Target(con, min=min)


def prefix_lemma(X):
    T = X.fresh('T', Str)
    k, j = X.fint('k'), X.fint('j')
    for url in (False, True):
        u = z3.BoolVal(url)
        for f in ec_def(url, T, k, j / 4) + ec_def(url, T, INF, j / 4):
            X.assume(f)
        X.assume(z3.And(slen(T) < INF, k <= slen(T)))
        yield 'complete characters do not depend on later bytes (url=%s)' % url, z3.Implies(z3.And(k >= 0, j >= 0, j < m(k)), ec(u, T, k, j) == ec(u, T, INF, j))


def roundtrip(X):
    """for every byte sequence P and every text S that the encoder may produce for it (padded or not):
    S is accepted, has |P| decoded bytes, and decoded byte i is P[i]"""
    for url in (False, True):
        u = z3.BoolVal(url)
        P, S = X.fresh('P', Str), X.fresh('S', Str)
        n = slen(P)
        L = slen(S)
        pad = X.fresh('pad', B)
        X.assume(z3.And(n >= 0, n < (1 << 60), L == z3.If(z3.And(pad, n % 3 != 0), 4 * (n / 3) + 4, mfull(n))))
        X.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L), sat(S, j_) == z3.If(j_ < mfull(n), ec(u, P, n, j_), iv(61))), patterns=[sat(S, j_)]))
        X.assume(z3.ForAll([j_], z3.And(sat(P, j_) >= -128, sat(P, j_) <= 127), patterns=[sat(P, j_)]))
        i = X.fint('i')
        X.assume(z3.And(i >= 0, i < mfull(n)))
        for f in ec_def(url, P, n, i / 4):
            X.assume(f)
        mark = len(X.st.pc)
        yield 'every character of the encoded body is in the alphabet (url=%s)' % url, D(sat(S, i), url) >= 0
        del X.st.pc[mark - 5:]
        X.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < mfull(n)), D(sat(S, j_), url) >= 0), patterns=[sat(S, j_)]))
        X.assume(L == z3.If(z3.And(pad, n % 3 != 0), 4 * (n / 3) + 4, mfull(n)))
        X.assume(z3.And(n >= 0, n < (1 << 60)))
        X.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < L), sat(S, j_) == z3.If(j_ < mfull(n), ec(u, P, n, j_), iv(61))), patterns=[sat(S, j_)]))
        X.assume(z3.ForAll([j_], z3.And(sat(P, j_) >= -128, sat(P, j_) <= 127), patterns=[sat(P, j_)]))
        yield 'the encoded text is accepted (url=%s)' % url, accepted(url, S, L)
        yield 'the decoded length is the original length (url=%s)' % url, dm(nval(url, S, L)) == n
        # one byte of one group, in three steps
        del X.st.pc[:]
        i = X.fint('i')
        q = i / 3
        X.assume(z3.And(n >= 0, n < (1 << 60), i >= 0, i < n))
        byte = lambda t: z3.If(t < n, u8(P, t), iv(0))
        b = [byte(3 * q + r) for r in range(3)]
        vs = [b[0] / 4, (b[0] % 4) * 16 + b[1] / 16, (b[1] % 16) * 4 + b[2] / 64, b[2] % 64]
        v = [X.fint('v%d' % r) for r in range(4)]
        bb = [X.fint('b%d' % r) for r in range(3)]
        rng = z3.And([z3.And(x >= 0, x < 256) for x in bb])
        six = z3.And(v[0] == bb[0] / 4, v[1] == (bb[0] % 4) * 16 + bb[1] / 16, v[2] == (bb[1] % 16) * 4 + bb[2] / 64, v[3] == bb[2] % 64)
        back = z3.And([z3.And(x >= 0, x < 64) for x in v] + [v[0] * 4 + v[1] / 16 == bb[0], (v[1] % 16) * 16 + v[2] / 4 == bb[1], (v[2] % 4) * 64 + v[3] == bb[2]])
        yield 'splitting three bytes into sextets and joining them is the identity', z3.Implies(z3.And(rng, six), back)
        w = X.fint('w')
        yield 'a sextet is recovered from its character (url=%s)' % url, z3.Implies(z3.And(w >= 0, w < 64), D(A(w, url), url) == w)
        del X.st.pc[:]
        X.assume(z3.And(n >= 0, n < (1 << 60), i >= 0, i < n, L >= mfull(n)))
        X.assume(z3.And([x == y for x, y in zip(bb, b)] + [back]))
        for r in range(4):
            X.assume(ec(u, P, n, 4 * q + r) == A(v[r], url))
            X.assume(D(A(v[r], url), url) == v[r])
            X.assume(z3.Implies(4 * q + r < mfull(n), sat(S, 4 * q + r) == ec(u, P, n, 4 * q + r)))
        d = [X.fint('d%d' % r) for r in range(4)]
        for r in range(4):
            X.assume(d[r] == D(sat(S, 4 * q + r), url))
        for r in range(4):
            yield 'sextet %d of the group is decoded (url=%s)' % (r, url), z3.Implies(4 * q + r < mfull(n), d[r] == v[r])
        facts = [z3.Implies(4 * q + r < mfull(n), d[r] == v[r]) for r in range(4)]
        del X.st.pc[:]
        for f in facts:
            X.assume(f)
        X.assume(z3.And(n >= 0, n < (1 << 60), i >= 0, i < n, back))
        X.assume(z3.And([x == y for x, y in zip(bb, b)]))
        X.assume(z3.And(db(u, S, 3 * q) == sch(d[0] * 4 + d[1] / 16), db(u, S, 3 * q + 1) == sch((d[1] % 16) * 16 + d[2] / 4),
                        db(u, S, 3 * q + 2) == sch((d[2] % 4) * 64 + d[3])))
        X.assume(z3.And(sat(P, i) >= -128, sat(P, i) <= 127))
        for r in range(3):
            yield 'decoded byte %d of a group is the original byte (url=%s)' % (r, url), z3.Implies(i % 3 == r, db(u, S, i) == sat(P, i))
        del X.st.pc[:]


CONTRACTS = [ENC_NEXT, ENC_REST, ENC, DEC_NEXT, DEC]
ENC_UNIT = Unit_('base64', contracts=CONTRACTS, targets=[T_(ENC_NEXT), T_(ENC_REST, 2), T_(ENC)], axioms=dec_axioms(), pools={'*': [enc_pool]},
                 lemmas=[Lemma('ec_prefix', prefix_lemma)])
DEC_UNIT = Unit_('base64', contracts=CONTRACTS, targets=[T_(DEC_NEXT), T_(DEC)], axioms=dec_axioms(), pools={'*': [enc_pool]})
RT_UNIT = Unit_('base64', contracts=CONTRACTS, targets=[], axioms=dec_axioms(), lemmas=[Lemma('round trip', roundtrip)])
UNITS = [ENC_UNIT, DEC_UNIT, RT_UNIT]
E01 = [ENC_UNIT, DEC_UNIT, RT_UNIT]
E02 = [DEC_UNIT]
