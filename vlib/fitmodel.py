"""Assumed contracts: fitoria::expected (verified against its own body by O02), std::error_code, std::from_chars."""
import z3
from sym import *
from engine import *
from interp import *
import stdmodel
from stdmodel import H, h, MODELS, NPOS, copy_or_move, convert, convert_obj, Nullopt

EC = 'std::error_code'


# ---------------------------------------------------------------- std::error_code: a value and a category
def mk_ec(v, cat):
    return Rec(EC, {'value': v, 'category': cat})


def m_ec(X, tid, t, name):
    return mk_ec(X.fint(name + '_value'), X.fint(name + '_cat'))


MODELS[EC] = m_ec
_cats = {}


def cat_id(q):
    if q not in _cats:
        _cats[q] = len(_cats) + 2
    return iv(_cats[q])


cat_id('std::errc')
for _q in ('fitoria::web::error', 'fitoria::web::brotli_error', 'boost::beast::http::error', 'boost::asio::error::misc_errors'):
    cat_id(_q)


@h('default:' + EC)
def _(X, tid, t):
    return mk_ec(iv(0), iv(0))


@h('ctor:' + EC)
def _(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    if not e['a']:
        return mk_ec(iv(0), iv(0))
    v = X.ev(e['a'][0])
    v = X.read(v) if isl(v) else v
    pt = X.prog.t(X.prog.strip(fn['params'][0]['t']))
    if len(e['a']) == 1 and pt['k'] == 'enum':
        return mk_ec(v, cat_id(pt['q']))
    if len(e['a']) == 2 and isinstance(v, z3.ExprRef):
        # the category object: identified by its class
        a = e['a'][1]
        while 'e' in a and a['k'] in ('Cast', 'Paren', 'Temp', 'Cleanups', 'BindTemp'):
            a = a['e']
        ct = X.prog.t(X.prog.strip(a['t']))
        if ct['k'] != 'rec' or ct['q'] == 'std::error_category':
            raise Unsupported('error_code of an unknown category')
        return mk_ec(v, cat_id(ct['q']))
    raise Unsupported('error_code constructor')


@h('std::make_error_code')
def _(X, c):
    pt = X.prog.t(X.prog.strip(c.fn['params'][0]['t']))
    return mk_ec(c.v(0), cat_id(pt['q']))


@h(EC + '::operator=')
def _(X, c):
    v = c.v(0)
    if isinstance(v, z3.ExprRef):
        v = mk_ec(v, cat_id(X.prog.t(X.prog.strip(c.fn['params'][0]['t']))['q']))
    X.write(c.this, v)
    return c.this


@h(EC + '::value')
def _(X, c):
    return c.self().f['value']


@h(EC + '::(conv)', EC + '::operator bool')
def _(X, c):
    return c.self().f['value'] != 0


@h(EC + '::clear')
def _(X, c):
    X.write(c.this, mk_ec(iv(0), iv(0)))
    return UNIT


# ---------------------------------------------------------------- fitoria::expected
EX = 'fitoria::expected'


def exp_args(X, t):
    return X.prog.strip(t['ta'][0]['t']), t['ta'][1]['t']


def is_void(X, tid):
    return X.prog.t(tid)['k'] == 'void'


def m_exp(X, tid, t, name):
    vt, et = exp_args(X, t)
    return Exp(X.fresh(name + '_has', B), UNIT if is_void(X, vt) else X.mk(vt, name + '_val'), X.mk(et, name + '_err'))


MODELS[EX] = m_exp


def noerr(X, et):
    return X.mk(et, 'noerr')


def good(X, t, v):
    vt, et = exp_args(X, t)
    return Exp(z3.BoolVal(True), UNIT if is_void(X, vt) else convert_obj(X, v, vt), noerr(X, et))


def bad(X, t, err):
    vt, et = exp_args(X, t)
    return Exp(z3.BoolVal(False), UNIT if is_void(X, vt) else X.mk(vt, 'noval'), convert_obj(X, err, et))


def is_unex(v):
    return isinstance(v, Rec) and v.q == 'fitoria::unexpected'


def unex_err(v):
    return list(v.f.values())[0]


@h('default:' + EX)
def exp_default(X, tid, t):
    vt, et = exp_args(X, t)
    return Exp(z3.BoolVal(True), UNIT if is_void(X, vt) else X.zero(vt), noerr(X, et))


@h('ctor:' + EX)
def exp_ctor(X, e, fn, tid, t):
    if fn.get('cpctor') or fn.get('mvctor'):
        return copy_or_move(X, e, fn)
    if not e['a']:
        return exp_default(X, tid, t)
    if len(e['a']) != 1:
        raise Unsupported('expected: in-place constructor')
    a = e['a'][0]
    src = v = X.ev(a)
    if isl(v):
        v = X.read(v)
        pt = X.prog.t(fn['params'][0]['t'])
        if pt['k'] == 'rref' and isinstance(src, LV) and a.get('vk') == 'x':
            X.write(src, X.moved(v))
    if isinstance(v, tuple):
        v = SPtr(v[1], iv(0))
    if is_unex(v):
        return bad(X, t, unex_err(v))
    if isinstance(v, Exp):
        vt, et = exp_args(X, t)
        return Exp(v.has, UNIT if is_void(X, vt) else convert(X, v.val, None, vt), convert(X, v.err, None, et))
    return good(X, t, v)


def part(c, which, what):
    X = c.X
    s = c.self()
    X.prove('expected holds %s when it is read' % what, s.has if which == 'o' else z3.Not(s.has))
    return c.this.step(which) if isinstance(c.this, LV) else ValLV(s.val if which == 'o' else s.err)


@h(EX + '::has_value', EX + '::(conv)', EX + '::operator bool')
def _(X, c):
    return c.self().has


@h(EX + '::operator*')
def _(X, c):
    s = c.self()
    if s.val is UNIT:
        X.prove('expected holds a value when it is read', s.has)
        return UNIT
    return part(c, 'o', 'a value')


@h(EX + '::operator->')
def _(X, c):
    return Ptr(part(c, 'o', 'a value'))


@h(EX + '::error')
def _(X, c):
    return part(c, 'e', 'an error')


@h(EX + '::value')
def _(X, c):
    s = c.self()
    if not X.branch(s.has):
        raise CppThrow(None, 'bad_expected_access')
    if s.val is UNIT:
        return UNIT
    return part(c, 'o', 'a value')


@h(EX + '::value_or')
def _(X, c):
    s = c.self()
    if X.branch(s.has):
        return s.val
    return convert(X, c.v(0), None, c.fn['ret'])


@h(EX + '::operator=')
def _(X, c):
    v = c.v(0)
    t = X.prog.t(c.fn['rect'])
    X.write(c.this, v if isinstance(v, Exp) else bad(X, t, unex_err(v)) if is_unex(v) else good(X, t, v))
    return c.this


@h(EX + '::emplace')
def _(X, c):
    t = X.prog.t(c.fn['rect'])
    if len(c.args) > 1:
        raise Unsupported('expected::emplace')
    X.write(c.this, good(X, t, c.v(0) if c.args else None))
    return c.this.step('o') if c.args else UNIT


# ---------------------------------------------------------------- decimal numbers, std::from_chars
decv = z3.Function('decv', Str, I, I, I)     # number written in decimal by s[i..j)
dend = z3.Function('dend', Str, I, I, I)     # first position in [i,e) that is not a digit, or e


def dig(c):
    return z3.And(c >= 48, c <= 57)


def axioms():
    s = z3.Const('s', Str)
    i, j, e, q = z3.Ints('i j e q')
    A = z3.ForAll
    D = dend(s, i, e)
    return [
        A([s, i, e], z3.Implies(i <= e, z3.And(D >= i, D <= e, z3.Implies(D < e, z3.Not(dig(sat(s, D)))))), patterns=[D]),
        A([s, i, e, q], z3.Implies(z3.And(q >= i, q < D), dig(sat(s, q))), patterns=[z3.MultiPattern(D, sat(s, q))]),
        A([s, i, j], decv(s, i, j) >= 0, patterns=[decv(s, i, j)]),
    ]


stdmodel.EXTRA_AXIOMS.append(axioms)


class IntSpec:
    """what a text window spells as an integer of type (lo, hi): [-]digits, '-' only when signed"""
    def __init__(self, X, base, off, end, lo, hi):
        self.neg = z3.And(off < end, sat(base, off) == 45) if lo < 0 else z3.BoolVal(False)
        self.p0 = z3.If(self.neg, off + 1, off)
        self.e = dend(base, self.p0, end)
        self.digits = self.e > self.p0
        self.val = z3.If(self.neg, -decv(base, self.p0, self.e), decv(base, self.p0, self.e))
        self.inrange = z3.And(self.val >= lo, self.val <= hi)
        self.whole = self.e == end
        self.ok = z3.And(self.digits, self.whole, self.inrange)


@h('std::from_chars')
def _(X, c):
    a, b = c.v(0), c.v(1)
    pt = X.prog.strip(c.fn['params'][2]['t'])
    if X.prog.t(pt)['k'] != 'int' or len(c.args) > 3 and not (z3.is_int_value(z3.simplify(c.v(3))) and z3.simplify(c.v(3)).as_long() == 10):
        raise Unsupported('std::from_chars on this type or base')
    X.same_base(a, b)
    X.prove('from_chars: valid range', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= slen(a.base)))
    lo, hi = X.range_of(pt)
    s = IntSpec(X, a.base, a.idx, b.idx, lo, hi)
    ok = z3.And(s.digits, s.inrange)
    old = X.read(c.args[2])
    X.write(c.args[2], z3.If(ok, s.val, old))
    t = X.prog.t(c.fn['ret'])
    ec = z3.If(ok, iv(0), z3.If(s.digits, iv(34), iv(22)))        # ERANGE, EINVAL
    return Rec(t['q'], {'ptr': SPtr(a.base, z3.If(s.digits, s.e, a.idx), a.et), 'ec': ec}, t['id'])


# ---------------------------------------------------------------- fmt::format with a literal format string
itos = z3.Function('itos', I, Str)             # decimal text of an integer
fmtv = z3.Function('fmtv', Str, I, Str)        # integer formatted with a replacement spec


def fmt_pieces(codes):
    """list of ('lit', codes) / ('arg', index, spec)"""
    s = ''.join(chr(c % 256) for c in codes)
    out, lit, i, auto = [], '', 0, 0
    while i < len(s):
        if s[i] in '{}' and s[i:i + 2] == s[i] * 2:
            lit += s[i]
            i += 2
        elif s[i] == '{':
            j = s.index('}', i)
            body = s[i + 1:j]
            idx, _, spec = body.partition(':')
            if '{' in body:
                raise Unsupported('nested format specification')
            if lit:
                out.append(('lit', lit))
                lit = ''
            if idx == '':
                idx = auto
                auto += 1
            out.append(('arg', int(idx), spec))
            i = j + 1
        else:
            lit += s[i]
            i += 1
    if lit:
        out.append(('lit', lit))
    return out


def fmt_arg(X, v, spec):
    if isinstance(v, z3.ExprRef) and v.sort() == I:
        return itos(v) if spec in ('', 'd') else fmtv(X.litstr(spec), v)
    if spec:
        raise Unsupported('format specification on text')
    if isinstance(v, z3.ExprRef) and v.sort() == B:
        return z3.If(v, X.litstr('true'), X.litstr('false'))
    return X.vterm(v)


def fmt_render(X, codes, vals):
    t = None
    for p in fmt_pieces(codes):
        x = X.litstr(p[1]) if p[0] == 'lit' else fmt_arg(X, vals[p[1]], p[2])
        t = x if t is None else X.cat(t, x)
    return t if t is not None else sempty


def fmt_lit(e):
    """character codes of the literal inside a format_string conversion"""
    while e['k'] in ('Cast', 'Ctor', 'Cleanups', 'BindTemp', 'Paren', 'Temp'):
        e = e['e'] if 'e' in e else e['a'][0]
    if e['k'] != 'Str':
        raise Unsupported('format string that is not a literal')
    return e['v']


@h('raw:fmt::format')
def _(X, e, fn):
    codes = fmt_lit(e['a'][0])
    vals = []
    for a in e['a'][1:]:
        v = X.ev(a)
        v = X.read(v) if isl(v) else v
        if isinstance(v, tuple):
            v = SPtr(v[1], iv(0))
        vals.append(v)
    return fmt_render(X, codes, vals)
