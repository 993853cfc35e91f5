"""mime/*.hpp: MIME type grammar, predefined types, parameters as a case-insensitive map."""
import z3
from sym import *
from engine import *
from interp import *
from base import *
import mapmodel
from mapmodel import fold, fold_axioms
from stdmodel import isalnum_t, tolower_t, inset
from props import strings
from props.strings import nxt, bnd, bnd_step, win, tlo, thi
from props.range import litfact, Two

M = 'fitoria::mime::'
MV, PV, NV = M + 'mime_view::', M + 'params_view::', M + 'name_view::'


def nkey(X, v):
    """normalised map key: the lower-cased text"""
    if isinstance(v, Rec):
        v = list(v.f.values())[0]
    return fold(X.vterm(v))


mapmodel.NORM['fitoria::mime::name_view'] = nkey


def txt(v):
    """the text window of a name_view"""
    return list(v.f.values())[0] if isinstance(v, Rec) else v


def nc(c):
    return z3.Or([isalnum_t(c)] + [c == ord(x) for x in '!#$&-^_'])


# ---- grammar
vname = z3.Function('vname', Str, I, I, B)
vwit = z3.Function('vname_w', Str, I, I, I)
pok = z3.Function('mpok', Str, I, I, I, B)           # parameter k is well-formed
pkey = z3.Function('mpkey', Str, I, I, I, Str)       # its folded name
pvo = z3.Function('mpvo', Str, I, I, I, I)           # its value: offset, length
pvn = z3.Function('mpvn', Str, I, I, I, I)
lastk = z3.Function('mlast', Str, I, I, I, Str, I)   # last parameter among 1..k-1 with this name, 0: none


def axioms():
    s = z3.Const('s', Str)
    a, b, q = z3.Ints('a b q')
    A = z3.ForAll
    V = vname(s, a, b)
    w = vwit(s, a, b)
    return strings.split_axioms() + fold_axioms() + [
        A([s, a, b], z3.Implies(V, z3.And(a < b, isalnum_t(sat(s, a)))), patterns=[V]),
        A([s, a, b, q], z3.Implies(z3.And(V, a < q, q < b), nc(sat(s, q))), patterns=[z3.MultiPattern(V, sat(s, q))]),
        A([s, a, b], z3.Or(V, a >= b, z3.Not(isalnum_t(sat(s, a))), z3.And(a < w, w < b, z3.Not(nc(sat(s, w))))), patterns=[V])]


def light():
    """the part of the axioms that does not look at single characters (enough for the structure of a MIME type)"""
    s, d = z3.Consts('s d', Str)
    a, b, o = z3.Ints('a b o')
    A = z3.ForAll
    L, H_, N, V = tlo(s, a, b), thi(s, a, b), nxt(s, d, a, b), vname(s, a, b)
    box = z3.Implies(a <= b, z3.And(a <= L, L <= H_, H_ <= b))
    return fold_axioms() + [A([s, a, b], box, patterns=[L]), A([s, a, b], box, patterns=[H_]),
                            A([s, d, a, b], z3.Implies(a <= b, z3.And(N >= a, N <= b)), patterns=[N]),
                            A([s, d, a, b], bnd(s, d, a, b, 0) == a, patterns=[bnd(s, d, a, b, 0)]),
                            A([s, a, b], z3.Implies(V, a < b), patterns=[V])]


def vn(w):
    return vname(w.base, w.off, simp(w.off + w.n))


class Primary:
    """type "/" subtype ["+" suffix] in the window w"""
    def __init__(self, X, w):
        P = X.litstr('+')
        t = Two(X, w.base, w.off, w.off + w.n, '/')
        lo, hi = t.b.off, t.b.off + t.b.n
        u = Two(X, w.base, lo, hi, '+')
        self.type = t.a
        self.one = nxt(w.base, P, lo, hi) == hi
        whole = win(w.base, lo, hi)
        self.sub = View(w.base, z3.If(self.one, whole.off, u.a.off), z3.If(self.one, whole.n, u.a.n))
        self.suf = u.b
        self.has_suf = z3.Not(self.one)
        self.ok = z3.And(t.two, vn(t.a), z3.If(self.one, vn(whole), z3.And(u.two, vn(u.a), vn(u.b))))
        self.defs = t.defs + u.defs


class Spec:
    def __init__(self, X, v):
        self.X, self.v, self.base = X, v, v.base
        self.lo, self.hi = v.off, simp(v.off + v.n)
        self.S = X.litstr(';')
        self.primary = Primary(X, self.piece(iv(0)))

    def b(self, k):
        return bnd(self.base, self.S, self.lo, self.hi, k)

    def n(self, k):
        return nxt(self.base, self.S, self.b(k), self.hi)

    def piece(self, k):
        return win(self.base, self.b(k), self.n(k))

    def par(self, k):
        w = self.piece(k)
        return Two(self.X, self.base, w.off, w.off + w.n, '=')

    def a(self, f, k, *more):
        return f(self.base, self.lo, self.hi, k, *more)

    def defs(self, k):
        u = self.par(k)
        x = z3.Const('xd', Str)
        ok = z3.And(u.two, vn(u.a), vn(u.b))
        return u.defs + [bnd_step(self.base, self.S, self.lo, self.hi, k), self.a(pok, k) == ok, self.a(pkey, k) == fold(self.X.vterm(u.a)),
                         self.a(pvo, k) == u.b.off, self.a(pvn, k) == u.b.n,
                         z3.ForAll([x], self.a(lastk, iv(1), x) == 0, patterns=[self.a(lastk, iv(1), x)]),
                         z3.ForAll([x], self.a(lastk, k + 1, x) == z3.If(self.a(pkey, k) == x, k, self.a(lastk, k, x)), patterns=[self.a(lastk, k + 1, x)])]


def themap(v):
    """the map inside a params_view"""
    m = [x for x in v.f.values() if isinstance(x, MapV)]
    if len(m) != 1:
        raise Unsupported('params_view without exactly one map')
    return m[0]


def entry(m, x):
    return mapleaf(m.arr, lambda a: z3.Select(a, x))


def mget(o, name, idx):
    return o.f[name] if name in o.f else list(o.f.values())[idx]


def parse_post(cx, r):
    X = cx.X
    v = cx.args[0]
    sp = Spec(X, v)
    for f in litfact(X, ';/+=') + sp.primary.defs + sp.defs(iv(0)) + sp.defs(iv(1)):
        X.assume(f)
    np_ = strings.npc(sp.base, sp.S, sp.lo, sp.hi)
    j = z3.Int('jt')
    # the number of pieces exists (the text is finite)
    X.assume(z3.And(np_ >= 1, sp.n(np_ - 1) == sp.hi, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < np_ - 1), sp.n(j) < sp.hi), patterns=[sp.n(j)])))
    X.assume(z3.And(sp.n(np_ - 1) == sp.n(np_ - 1), sp.b(np_) == sp.b(np_)))
    js, xs = X.fint('js'), X.fresh('xs', Str)
    for f in sp.defs(js):
        X.assume(f)
    L = z3.Implies
    P = sp.primary
    m = r.val
    g = [('accepted: type "/" subtype ["+" suffix]', L(r.has, P.ok))]
    g.append(('accepted: every parameter is name "=" value', L(z3.And(r.has, js >= 1, js < np_), sp.a(pok, js))))
    k = z3.Int('kr')
    g.append(('rejected only when malformed', L(z3.Not(r.has), z3.Or(z3.Not(P.ok), z3.Exists([k], z3.And(k >= 1, k < np_, z3.Not(sp.a(pok, k))), patterns=[sp.a(pok, k)])))))

    def same(nm, got, want):
        got = txt(got)
        g.append((nm, L(r.has, z3.And(got.base == want.base, got.n == want.n, L(got.n > 0, got.off == want.off)))))
    names = ['source_', 'essence_', 'type_', 'subtype_']
    for i, (nm, w) in enumerate(zip(names, (v, sp.piece(iv(0)), P.type, P.sub))):
        same('the %s is the text it names' % nm.rstrip('_'), mget(m, nm, i), w)
    suf = mget(m, 'suffix_', 4)
    g.append(('a suffix exactly when written', L(r.has, suf.has == P.has_suf)))
    s = txt(suf.val)
    g.append(('the suffix is the text after "+"', L(z3.And(r.has, P.has_suf), z3.And(s.base == P.suf.base, s.n == P.suf.n, s.off == P.suf.off))))
    mp = themap(mget(m, 'params_', 5))
    lk = sp.a(lastk, np_, xs)
    val = txt(entry(mp, xs).f['second'])
    g.append(('a parameter is present exactly when written', L(r.has, z3.Select(mp.dom, xs) == (lk >= 1))))
    g.append(('its value is that of its last occurrence', L(z3.And(r.has, lk >= 1), z3.And(val.base == sp.base, val.n == sp.a(pvn, lk), val.off == sp.a(pvo, lk)))))
    return g


def isname_post(cx, r):
    return [('accepts exactly the names of the grammar', r == vn(cx.X.as_view(cx.args[0])))]


ISNAME = Contract(MV + 'is_valid_name', post=isname_post, name='is_valid_name')
PARSE = Contract(MV + 'parse', post=parse_post, name='mime_view::parse')


def pool(lc):
    X = lc.X
    if X.verifying is not PARSE:
        return
    sp = Spec(X, X.cx.args[0])
    k1 = lambda s: s.k + 1
    lc.fact(lambda s: litfact(X, ';/+=') + sp.defs(k1(s)) + sp.defs(s.k) + sp.primary.defs + [sp.a(lastk, k1(s), fold(sempty)) == sp.a(lastk, k1(s), fold(sempty))])
    j = z3.Int('jr')
    x = z3.Const('xr', Str)
    lc.add('parameters so far are well-formed', lambda s: z3.ForAll([j], z3.Implies(z3.And(j >= 1, j < k1(s)), sp.a(pok, j)), patterns=[sp.a(pok, j)]))
    for c in lc.cells:
        if isinstance(c.val, MapV):
            lc.add('the map holds the parameters so far', lambda s, c=c: z3.ForAll([x], z3.And(
                z3.Select(s.get(c).dom, x) == (sp.a(lastk, k1(s), x) >= 1), sp.a(lastk, k1(s), x) >= 0, sp.a(lastk, k1(s), x) < k1(s)),
                patterns=[z3.Select(s.get(c).dom, x), sp.a(lastk, k1(s), x)]))

            def vals(s, c=c):
                w = txt(entry(s.get(c), x).f['second'])
                lk = sp.a(lastk, k1(s), x)
                return z3.ForAll([x], z3.Implies(lk >= 1, z3.And(w.base == sp.base, w.n == sp.a(pvn, lk), w.off == sp.a(pvo, lk))), patterns=[w.n, w.off, lk])
            lc.add('with the values of their last occurrences', vals)


# ---- predefined types
CONST = ['application_javascript', 'application_json', 'application_msgpack', 'application_octet_stream', 'application_pdf', 'application_shockwave_flash',
         'application_text', 'application_wasm', 'application_www_form_urlencoded', 'application_xml', 'image_bmp', 'image_gif', 'image_jpeg', 'image_png',
         'image_svg', 'image_tiff', 'multipart_form_data', 'text_css', 'text_csv', 'text_html', 'text_javascript', 'text_plain', 'text_xml', 'video_flv']
# the registered names
NAMES = {'application_octet_stream': 'application/octet-stream', 'application_shockwave_flash': 'application/x-shockwave-flash',
         'application_www_form_urlencoded': 'application/x-www-form-urlencoded', 'image_svg': 'image/svg+xml',
         'multipart_form_data': 'multipart/form-data', 'video_flv': 'video/x-flv'}
for _c in CONST:
    NAMES.setdefault(_c, _c.replace('_', '/'))
EXT = {'js': 'application_javascript', 'json': 'application_json', 'swf': 'application_shockwave_flash', 'wasm': 'application_wasm', 'xml': 'application_xml',
       'bmp': 'image_bmp', 'gif': 'image_gif', 'jpe': 'image_jpeg', 'jpeg': 'image_jpeg', 'jpg': 'image_jpeg', 'png': 'image_png', 'svg': 'image_svg',
       'svgz': 'image_svg', 'tif': 'image_tiff', 'tiff': 'image_tiff', 'css': 'text_css', 'htm': 'text_html', 'html': 'text_html', 'php': 'text_html',
       'txt': 'text_plain', 'flv': 'video_flv'}


def is_text(v, s):
    v = txt(v)
    return z3.And([v.n == len(s)] + [sat(v.base, v.off + i) == ord(c) for i, c in enumerate(s)])


def const_is(m, name):
    src = NAMES[name]
    ty, sub = src.split('/')
    sub, _, suf = sub.partition('+')
    s = mget(m, 'suffix_', 4)
    mp = themap(mget(m, 'params_', 5))
    fs = [('source', is_text(mget(m, 'source_', 0), src)), ('essence', is_text(mget(m, 'essence_', 1), src)), ('type', is_text(mget(m, 'type_', 2), ty)),
          ('subtype', is_text(mget(m, 'subtype_', 3), sub)), ('suffix presence', s.has == bool(suf)), ('no parameters', mp.n == 0)]
    if suf:
        fs.append(('suffix', is_text(s.val, suf)))
    return fs


def const_con(name):
    def post(cx, r):
        return [('the parts are those of "%s": %s' % (NAMES[name], nm), f) for nm, f in const_is(r, name)]
    return Contract(M + name, post=post, name='mime::' + name)


CONSTS = [const_con(n) for n in CONST]


def ci(v, w):
    return z3.And([v.n == len(w)] + [tolower_t(sat(v.base, v.off + i)) == ord(c) for i, c in enumerate(w)])


def ext_table(r, e):
    """r is what the extension text e stands for"""
    g = []
    known = {}
    for x, m in EXT.items():
        known.setdefault(m, []).append(ci(e, x))
    allk = z3.Or([f for fs in known.values() for f in fs])
    g.append(('a type exactly for the known extensions', r.has == allk))
    for m, fs in known.items():
        g.append(('the type of the extension is %s' % NAMES[m], z3.Implies(z3.Or(fs), z3.And([f for _, f in const_is(r.val, m)]))))
    return g


def ext_post(cx, r):
    return ext_table(r, cx.args[0])


EXTC = Contract(MV + 'from_extension', post=ext_post, name='mime_view::from_extension')


def path_post(cx, r):
    X = cx.X
    v = cx.args[0]
    dot = X.fint('dot')
    j = z3.Int('jd')
    has = X.fresh('hasdot', B)
    # the last dot of the path, if any
    X.assume(z3.If(has, z3.And(dot >= 0, dot < v.n, sat(v.base, v.off + dot) == 46), dot == -1))
    X.assume(z3.ForAll([j], z3.Implies(z3.And(j > v.off + dot, j < v.off + v.n), sat(v.base, j) != 46), patterns=[sat(v.base, j)]))
    e = View(v.base, v.off + dot + 1, v.n - dot - 1)
    return [('no type without an extension', z3.Implies(z3.Not(has), z3.Not(r.has)))] + \
        [('with an extension: ' + nm, z3.Implies(has, f)) for nm, f in ext_table(r, e)]


PATHC = Contract(MV + 'from_path', post=path_post, name='mime_view::from_path')


# ---- name_view: comparisons ignore ASCII case
def nv(X, a):
    while isinstance(a, Rec):
        a = txt(a)
    return X.as_view(a)


def nv_eq(cx, r):
    X = cx.X
    return [('equal exactly up to ASCII case', r == strings.eq_spec(X, nv(X, cx.args[0]), nv(X, cx.args[1])))]


def nv_tw(cx, r):
    X = cx.X
    a, b = nv(X, cx.args[0]), nv(X, cx.args[1])
    p, f = strings.fdiff_fact(a, b)
    X.assume(f)
    return [('lexicographic order of the lower-cased texts', z3.And(strings.lexrel(a, b, r, p)))]


def cstr_setup(X, fn):
    """const char* arguments are texts with a terminating zero"""
    this, args = X.default_setup(fn)
    for i, a in enumerate(args):
        if isinstance(a, SPtr):
            b = X.fresh('cs', Str)
            X.assume(slen(b) <= (1 << 60))
            args[i] = SPtr(X.ztext(b), iv(0))
    return this, args, {}


NEQ = Contract(M + 'operator==', post=nv_eq, setup=cstr_setup, name='name_view / mime_view operator==')
NTW = Contract(M + 'operator<=>', post=nv_tw, setup=cstr_setup, name='name_view / mime_view operator<=>')


def tostr_post(cx, r):
    X = cx.X
    v = txt(cx.this0)
    j = X.fint('jl')
    c = sat(v.base, v.off + j)
    return [('as long as the text', slen(r) == v.n),
            ('with ASCII capitals in lower case', z3.Implies(z3.And(j >= 0, j < v.n), sat(r, j) == z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))]


NSTR = Contract(NV + 'to_string', post=tostr_post, name='name_view::to_string')


# ---- params_view: a map with case-insensitive names
def karg(cx, i=0):
    return nkey(cx.X, cx.args[i])


def only_k(cx, k):
    """entries under other names are untouched"""
    m0, m1 = themap(cx.this0), themap(cx.this1)
    x = cx.X.fresh('xo', Str) if cx.proving else z3.Const('xo', Str)
    a, b = txt(entry(m0, x).f['second']), txt(entry(m1, x).f['second'])
    f = z3.Implies(x != k, z3.And(z3.Select(m1.dom, x) == z3.Select(m0.dom, x), z3.Implies(z3.Select(m0.dom, x), z3.And(a.base == b.base, a.off == b.off, a.n == b.n))))
    return ('other names are unaffected', f if cx.proving else z3.ForAll([x], f, patterns=[z3.Select(m1.dom, x)]))


def same_all(cx):
    return only_k(cx, cx.X.fresh('nokey', Str)) if False else ('nothing changes', unchanged(cx))


def unchanged(cx):
    m0, m1 = themap(cx.this0), themap(cx.this1)
    return z3.And([x == y for x, y in zip(allleaves(m0), allleaves(m1))])


def val_is(X, a, b):
    a, b = txt(a), txt(b)
    return z3.And(a.n == b.n, X.streq(a, b))


def has(m, k):
    return z3.Select(m.dom, k)


def grow(m0, m1, k):
    return m1.n == m0.n + z3.If(has(m0, k), iv(0), iv(1))


def pv_set(cx, r):
    k = karg(cx)
    m0, m1 = themap(cx.this0), themap(cx.this1)
    return [('the name is present', has(m1, k)), ('with the given value', val_is(cx.X, entry(m1, k).f['second'], cx.args[1])), ('the size counts the names', grow(m0, m1, k)), only_k(cx, k)]


def pv_get(cx, r):
    k = karg(cx)
    m = themap(cx.this0)
    return [('a value exactly when the name is present', r.has == has(m, k)), ('the stored value', z3.Implies(r.has, val_is(cx.X, r.val, entry(m, k).f['second']))), same_all(cx)]


def pv_erase(cx, r):
    k = karg(cx)
    m0, m1 = themap(cx.this0), themap(cx.this1)
    return [('a value exactly when the name was present', r.has == has(m0, k)), ('the removed value', z3.Implies(r.has, val_is(cx.X, r.val, entry(m0, k).f['second']))),
            ('the name is gone', z3.Not(has(m1, k))), ('the size counts the names', m1.n == m0.n - z3.If(has(m0, k), iv(1), iv(0))), only_k(cx, k)]


def pv_at(cx, r):
    X, k = cx.X, karg(cx)
    m = themap(cx.this0)
    return [('returns only for a present name', has(m, k)), ('the stored value', val_is(X, X.read(r), entry(m, k).f['second'])), same_all(cx)]


def pv_idx(cx, r):
    X, k = cx.X, karg(cx)
    m0, m1 = themap(cx.this0), themap(cx.this1)
    ok = isinstance(r, LV) and r.loc == cx.this.loc
    v = txt(X.read(r))
    return [('the name is present', has(m1, k)), ('an existing value is returned', z3.Implies(has(m0, k), val_is(X, X.read(r), entry(m0, k).f['second']))),
            ('a new value is empty', z3.Implies(z3.Not(has(m0, k)), v.n == 0)), ('refers into the map', z3.BoolVal(bool(ok) and ('k', k) in [(s[0], s[1]) for s in r.path if s[0] == 'k' and s[1].eq(k)])),
            ('the size counts the names', grow(m0, m1, k)), only_k(cx, k)]


MAPCON = [Contract(PV + 'set', frame=False, post=pv_set, name='params_view::set'), Contract(PV + 'get', post=pv_get, name='params_view::get'),
          Contract(PV + 'erase', frame=False, post=pv_erase, name='params_view::erase'),
          Contract(PV + 'at', post=pv_at, throws=lambda cx: z3.Not(has(themap(cx.this0), karg(cx))), name='params_view::at'),
          Contract(PV + 'operator[]', frame=False, post=pv_idx, name='params_view::operator[]'),
          Contract(PV + 'contains', post=lambda cx, r: [('exactly for the stored names', r == has(themap(cx.this0), karg(cx))), same_all(cx)], name='params_view::contains'),
          Contract(PV + 'size', post=lambda cx, r: [('number of names', r == themap(cx.this0).n)], name='params_view::size'),
          Contract(PV + 'empty', post=lambda cx, r: [('exactly with no name', r == (themap(cx.this0).n == 0))], name='params_view::empty'),
          Contract(PV + 'clear', frame=False, post=lambda cx, r: [('no name is left', themap(cx.this1).n == 0), ('no name is present', z3.Not(has(themap(cx.this1), cx.X.fresh('xc', Str))))], name='params_view::clear')]

ACC = []
for _n, _i in (('source', 0), ('essence', 1), ('type', 2), ('subtype', 3)):
    ACC.append(Contract(MV + _n, post=(lambda i: lambda cx, r: [('returns the stored text', val_is(cx.X, r, list(cx.this0.f.values())[i]))])(_i), name='mime_view::' + _n))

ACC.append(Contract(MV + 'suffix', post=lambda cx, r: (lambda s: [('present as stored', r.has == s.has), ('returns the stored text', z3.Implies(s.has, val_is(cx.X, r.val, s.val)))])(mget(cx.this0, 'suffix_', 4)), name='mime_view::suffix'))
ACC.append(Contract(MV + 'params', post=lambda cx, r: [('refers to the stored parameters', z3.BoolVal(isinstance(r, LV) and r.loc == cx.this.loc)), ('returns the stored parameters', z3.And([x == y for x, y in zip(allleaves(themap(cx.X.read(r))), allleaves(themap(mget(cx.this0, 'params_', 5))))]))], name='mime_view::params'))

NOTE = ['std::map<name_view, name_view> orders its keys with name_view::operator<=>, whose contract makes two keys equivalent exactly when they are equal up to ASCII case']
PL = strings.pools(pool)
M01 = [Unit_('mime', contracts=strings.deps(ISNAME), targets=[Target(PARSE, axioms=light())] + [Target(c) for c in ACC], axioms=axioms(), pools=PL, notes=NOTE)]
M02 = [Unit_('mime', contracts=strings.deps(), targets=[Target(EXTC)] + [Target(c) for c in CONSTS], axioms=axioms(), pools=PL),
       Unit_('mime', contracts=strings.deps(EXTC), targets=[Target(PATHC)], axioms=axioms(), pools=PL)]
M03 = [Unit_('mime', contracts=strings.deps(), targets=[Target(c, min=2 if c.q.endswith(('::get', '::at')) else 1) for c in MAPCON] +
             [Target(NEQ, min=5), Target(NTW, min=5), Target(NSTR)], axioms=axioms(), pools=PL, notes=NOTE)]
UNITS = M01 + M02 + M03
