"""C++ statement / expression semantics on top of engine.X"""
import z3, time
from sym import *
from engine import *


class Call:
    __slots__ = ('fn', 'q', 'this', 'args', 'node', 'X')

    def __init__(self, X, fn, this, args, node):
        self.X, self.fn, self.q, self.this, self.args, self.node = X, fn, fn['q'], this, args, node

    def v(self, i):
        a = self.args[i]
        return self.X.read(a) if isinstance(a, (LV, TextLV, ValLV)) else a

    def self(self):
        return self.X.read(self.this) if isinstance(self.this, (LV, TextLV, ValLV)) else self.this

    def ret(self):
        return self.fn['ret']


def isl(v):
    return isinstance(v, (LV, TextLV, ValLV))


class Interp(X):
    # ------------------------------------------------------------ helpers
    def rv(self, e):
        v = self.ev(e)
        return self.read(v) if isl(v) else v

    def lv(self, e):
        v = self.ev(e)
        if isl(v):
            return v
        return self.alloc(v, e.get('t'))

    def ev(self, e):
        if e is None:
            raise Unsupported('missing expression')
        if 'l' in e:
            self.line = e['l'] or self.line
        if 'cv' in e and e.get('vk') == 'p':
            return self.const(int(e['cv']), e['t'])
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s %s line %s' % (e['k'], e.get('cls', ''), e.get('l')))
        return m(e)

    def const(self, n, tid):
        t = self.prog.t(tid)
        if t['k'] == 'bool':
            return z3.BoolVal(bool(n))
        return iv(n)

    def ex(self, s):
        if s is None:
            return
        if s['k'].startswith('Unsupported'):
            raise Unsupported('%s %s' % (s['k'], s.get('cls')))
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            self.ev(s)
            return
        if 'l' in s:
            self.line = s['l'] or self.line
        m(s)

    def frame(self):
        return self.st.frames[-1]

    # ------------------------------------------------------------ expressions
    def e_Int(self, e):
        return self.const(int(e['v']), e['t'])

    def e_Bool(self, e):
        return z3.BoolVal(bool(e['v']))

    def e_Const(self, e):
        raise Unsupported('non-constant trait expression')

    def e_Float(self, e):
        return z3.RealVal(e['v'])

    def e_Null(self, e):
        return NullP()

    def e_Str(self, e):
        return ('strlit', self.lit(e['v']))

    def e_UnsupportedExpr(self, e):
        if e.get('cls') == 'SourceLocExpr':     # file / line of an assertion message
            return iv(0) if self.prog.t(e['t'])['k'] == 'int' else SPtr(self.ztext(self.fresh('srcloc', Str)), iv(0))
        raise Unsupported('expression %s line %s' % (e.get('cls', ''), e.get('l')))

    def e_Cleanups(self, e):
        return self.ev(e['e'])

    def e_BindTemp(self, e):
        return self.ev(e['e'])

    def e_MatTemp(self, e):
        v = self.ev(e['e'])
        if isl(v):
            return v
        return self.alloc(v, e['t'])

    def e_Opaque(self, e):
        f = self.frame()
        if e['n'] not in f.opaque:
            f.opaque[e['n']] = self.ev(e['e'])
        return f.opaque[e['n']]

    def e_This(self, e):
        f = self.frame()
        if f.this is None:
            raise Unsupported('this outside member')
        return Ptr(f.this)

    def e_StdInitList(self, e):
        return self.ev(e['e'])

    def e_ZeroInit(self, e):
        return self.zero(e['t'])

    def zero(self, tid):
        t = self.prog.t(tid)
        k = t['k']
        if k == 'bool':
            return z3.BoolVal(False)
        if k in ('int', 'enum'):
            return iv(0)
        if k == 'ptr':
            return NullP()
        if k == 'float':
            return z3.RealVal(0)
        if k == 'rec':
            h = self.handlers.get('default:' + t['q'])
            if h:
                return h(self, tid, t)
            rec = self.prog.rec[t['id']]
            return Rec(t['q'], {f['n']: self.zero(f['t']) for f in rec['fields']}, t['id'])
        if k == 'arr':
            el = self.zero(t['to'])
            return Vec(iv(t['n']), mapleaf(el, lambda x: z3.K(I, x)), t['to'])
        raise Unsupported('zero of ' + t['s'])

    def e_Ref(self, e):
        rk = e['rk']
        if rk == 'enum':
            return iv(int(e['v']))
        if rk == 'fn':
            return FnV(e['id'])
        if rk in ('var', 'bind'):
            f = self.frame()
            x = f.vars.get(e['id'])
            if x is None:
                raise Unsupported('unbound variable %s' % e['n'])
            return x
        if rk == 'gvar':
            return self.gvar(e['id'])
        if rk == 'tpo':
            return ValLV(self.apval(e['val'], e['t']))
        raise Unsupported('reference to ' + rk)

    def gvar(self, vid):
        f = self.frame() if self.st.frames else None
        if f and vid in f.vars:
            return f.vars[vid]
        var = self.prog.var.get(vid)
        if var is None:
            raise Unsupported('global variable')
        h = self.handlers.get('gvar:' + var['q'])
        if h:
            return ValLV(h(self, var))
        if 'val' in var:
            try:
                return ValLV(self.apval(var['val'], var['t']))
            except Unsupported:
                pass
        if 'init' in var:
            v = self.ev(var['init'])
            if isinstance(v, tuple):
                return v
            return ValLV(self.read(v) if isl(v) else v)
        raise Unsupported('global variable %s without constant value' % var['q'])

    def apval(self, a, tid):
        t = self.prog.t(self.prog.strip(tid))
        if 'i' in a:
            return self.const(int(a['i']), self.prog.strip(tid))
        if 's' in a:
            if t['q'] == 'std::array':
                return self.table(a['s'][0], t['ta'][0]['t'])
            rec = self.prog.rec[t['id']]
            if 'fields' in rec and not rec.get('bases'):
                return Rec(t['q'], {f['n']: self.apval(x, f['t']) for f, x in zip(rec['fields'], a['s'])}, t['id'])
            if t['q'] == 'std::strong_ordering':
                return iv(int(a['s'][0]['i']) if int(a['s'][0]['i']) < 128 else int(a['s'][0]['i']) - 256)
            if t['q'] == 'std::basic_string_view':
                n = int(a['s'][0]['i'])
                p = a['s'][1]
                if 'str' in p:
                    return View(self.lit(p['str']), iv(p['off']), iv(n))
        if 'a' in a:
            return self.table(a, t['to'])
        if 'str' in a:
            return SPtr(self.lit(a['str']), iv(a['off']), t.get('to'))
        if a.get('null'):
            return NullP()
        raise Unsupported('constant of type ' + t['s'])

    def table(self, a, et):
        vals = []
        for x in a['a']:
            if 'i' not in x:
                raise Unsupported('constant table of non-integers')
            vals.append(int(x['i']))
        if self.prog.t(et)['k'] == 'int' and self.prog.t(et)['w'] == 8 and self.prog.t(et).get('ch') and len(vals) > 600:
            raise Unsupported('big table')
        return Table(vals, et)

    def e_Member(self, e):
        rk = e['rk']
        if rk == 'gvar':
            return self.gvar(e['id'])
        if rk == 'enum':
            return iv(int(e['v']))
        if rk == 'fn':
            raise Unsupported('bound member function value')
        b = self.ev(e['b'])
        if e['arrow']:
            b = self.read(b) if isl(b) else b
            b = self.deref(b)
        elif not isl(b):
            b = self.alloc(b, e['b']['t'])
        if e.get('anon'):
            return b
        lv = self.member(b, e['n'])
        # reference members
        if isinstance(lv, LV):
            v = None
            try:
                v = self.read(lv)
            except Unsupported:
                v = None
            if isinstance(v, RefV):
                return v.lv
        return lv

    def member(self, b, name):
        if isinstance(b, ValLV):
            return ValLV(self.sel(b.val, ('f', name)))
        if isinstance(b, TextLV):
            raise Unsupported('member of text')
        return b.f(name)

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.nn is not None:
                self.prove('pointer is not null', p.nn)
            return p.lv
        if isinstance(p, SPtr):
            self.prove('dereferenced character pointer is inside its sequence', z3.And(p.idx >= 0, p.idx < slen(p.base)))
            return TextLV(p.base, p.idx, p.et)
        if isinstance(p, VIter):
            return self.viter_deref(p)
        if isinstance(p, NullP):
            self.prove('null pointer is not dereferenced', False)
            raise PathDead()
        h = self.handlers.get('deref:' + type(p).__name__)
        if h:
            return h(self, p)
        raise Unsupported('dereference of %s' % type(p).__name__)

    def viter_deref(self, p):
        c = self.read(p.lv)
        n = c.n if isinstance(c, Vec) else slen(c)
        self.prove('dereferenced iterator is inside its container', z3.And(p.idx >= 0, p.idx < n))
        if isinstance(p.lv, ValLV):
            return ValLV(self.sel(p.lv.val, ('i', p.idx)))
        return p.lv.i(p.idx)

    def index(self, base, idx, e):
        """base: value or lvalue of array-like"""
        c = self.read(base) if isl(base) else base
        if isinstance(c, Table):
            self.prove('table index is within bounds', z3.And(idx >= 0, idx < len(c.vals)))
            return ValLV(c.at(idx))
        if isinstance(c, SPtr):
            q = SPtr(c.base, simp(c.idx + idx), c.et)
            return self.deref(q)
        if isinstance(c, Vec):
            self.prove('array index is within bounds', z3.And(idx >= 0, idx < c.n))
            if isl(base) and isinstance(base, LV):
                return base.i(idx)
            return ValLV(self.sel(c, ('i', idx)))
        if isinstance(c, Ptr) and isinstance(self.read(c.lv), (Vec, Table)):
            return self.index(c.lv, idx, e)
        raise Unsupported('index of %s' % type(c).__name__)

    def e_Idx(self, e):
        a, b = self.ev(e['a']), self.rv(e['b'])
        if isinstance(a, tuple):
            a = SPtr(a[1], iv(0))
        return self.index(a, b, e)

    def e_Cast(self, e):
        ck = e['ck']
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'Dependent'):
            return self.ev(e['e'])
        if ck == 'LValueToRValue':
            l = self.ev(e['e'])
            if isinstance(l, tuple):
                return l
            v = self.read(l) if isl(l) else l
            self.range_fact(v, e['t'])
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e['e'])
            if isinstance(v, tuple) and v[0] == 'strlit':
                return SPtr(v[1], iv(0), self.prog.t(e['t'])['to'])
            if isl(v):
                return Ptr(v)
            raise Unsupported('array decay')
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(e['e'])
        if ck == 'NullToPointer':
            return NullP()
        if ck == 'ToVoid':
            self.ev(e['e'])
            return UNIT
        if ck in ('IntegralCast',):
            v = self.rv(e['e'])
            return self.conv_int(v, e['e']['t'], e['t'])
        if ck == 'IntegralToBoolean':
            v = self.rv(e['e'])
            return v if v.sort() == B else v != 0
        if ck == 'BooleanToSignedIntegral':
            return z3.If(self.rv(e['e']), iv(-1), iv(0))
        if ck == 'PointerToBoolean':
            v = self.rv(e['e'])
            if isinstance(v, NullP):
                return z3.BoolVal(False)
            if isinstance(v, Ptr):
                return v.nn if v.nn is not None else z3.BoolVal(True)
            return z3.BoolVal(True)
        if ck == 'BitCast':
            return self.ev(e['e'])
        if ck == 'IntegralToFloating':
            return z3.ToReal(self.rv(e['e']))
        raise Unsupported('cast ' + ck)

    def conv_int(self, v, ft, tt):
        t = self.prog.t(tt)
        if v.sort() == B:
            if t['k'] == 'bool':
                return v
            return z3.If(v, iv(1), iv(0))
        if t['k'] == 'bool':
            return v != 0
        self.range_fact(v, ft)
        a, b = self.trange(self.prog.strip(ft)), self.trange(self.prog.strip(tt))
        if a is not None and b is not None and b[0] <= a[0] and a[1] <= b[1]:
            return v
        return self.wrap(v, tt)

    def trange(self, tid):
        t = self.prog.t(tid)
        if 'w' not in t:
            return None
        w = t['w']
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t['sg'] else (0, (1 << w) - 1)

    def wrap(self, v, tid):
        """reduce a mathematical integer to the value range of a type"""
        r = self.trange(tid)
        if r is None:
            return v
        v = simp(v)
        if z3.is_int_value(v):
            n = v.as_long()
            m = r[1] - r[0] + 1
            return iv((n - r[0]) % m + r[0])
        if self.quick(z3.And(v >= r[0], v <= r[1])):
            return v
        m = r[1] - r[0] + 1
        if r[0] == 0:
            return v % m
        x = v % m
        return z3.If(x > r[1], x - m, x)

    def e_Un(self, e):
        op = e['op']
        if op == '!':
            return z3.Not(self.tobool(self.rv(e['e'])))
        if op == '&':
            l = self.ev(e['e'])
            if isinstance(l, TextLV):
                return SPtr(l.base, l.idx, l.et)
            if isinstance(l, FnV):
                return l
            return Ptr(l)
        if op == '*':
            v = self.rv(e['e'])
            if isinstance(v, FnV):
                return v
            return self.deref(v)
        if op in ('++', '--'):
            l = self.ev(e['e'])
            old = self.read(l)
            d = 1 if op == '++' else -1
            self.range_fact(old, e['e']['t'])
            new = self.padd(old, iv(d)) if not isinstance(old, z3.ExprRef) else self.arith('+', old, iv(d), e['e']['t'])
            self.write(l, new)
            return old if e['post'] else l
        v = self.rv(e['e'])
        if op == '-':
            return self.arith('-', iv(0), v, e['t'])
        if op == '+':
            return v
        if op == '~':
            r = self.trange(e['t'])
            return self.wrap(-v - 1, e['t'])
        if op == '__extension__':
            return self.ev(e['e'])
        raise Unsupported('unary ' + op)

    def tobool(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == B:
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            return v != 0
        raise Unsupported('condition of type %s' % type(v).__name__)

    def padd(self, p, n):
        if isinstance(p, SPtr):
            i = simp(p.idx + n)
            self.prove('character pointer stays within [begin,end]', z3.And(i >= 0, i <= slen(p.base)))
            return SPtr(p.base, i, p.et)
        if isinstance(p, VIter):
            c = self.read(p.lv)
            i = simp(p.idx + n)
            self.prove('iterator stays within [begin,end]', z3.And(i >= 0, i <= (c.n if isinstance(c, Vec) else slen(c))))
            return VIter(p.lv, i)
        h = self.handlers.get('padd:' + type(p).__name__)
        if h:
            return h(self, p, n)
        raise Unsupported('pointer arithmetic on %s' % type(p).__name__)

    def same_base(self, a, b):
        if not a.base.eq(b.base):
            self.prove('pointers belong to the same sequence', a.base == b.base)

    def arith(self, op, a, b, tid):
        t = self.prog.t(tid)
        if t['k'] == 'float':
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
        r = self.trange(tid)
        if op == '+':
            x = a + b
        elif op == '-':
            x = a - b
        elif op == '*':
            x = a * b
        elif op in ('/', '%'):
            self.prove('division by zero does not happen', b != 0)
            if self.quick(z3.And(a >= 0, b > 0)):
                x = a / b if op == '/' else a % b
            else:
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                x = q if op == '/' else a - b * q
        elif op in ('<<', '>>'):
            sb = simp(b)
            if not z3.is_int_value(sb):
                w = t['w']
                self.prove('shift distance is within the type', z3.And(sb >= 0, sb < w))
                if op == '<<' and z3.is_int_value(simp(a)) and simp(a).as_long() == 1:
                    if t.get('sg'):
                        self.prove('no signed overflow', sb < w - 1)
                    self.assume(z3.And(bit1(sb) >= 1, bit1(sb) <= (1 << (w - (2 if t.get('sg') else 1)))))
                    return bit1(sb)
                raise Unsupported('shift by a non-constant')
            k = sb.as_long()
            x = a * (1 << k) if op == '<<' else a / (1 << k)
            return self.wrap(x, tid)
        elif op == '&':
            return self.bitand(a, b, tid)
        elif op in ('|', '^'):
            return self.bitor(op, a, b, tid)
        else:
            raise Unsupported('operator ' + op)
        x = simp(x)
        if t.get('sg'):
            if not self.quick(z3.And(x >= r[0], x <= r[1])):
                self.prove('no signed overflow', z3.And(x >= r[0], x <= r[1]))
            return x
        return self.wrap(x, tid)

    def bitand(self, a, b, tid):
        a, b = simp(a), simp(b)
        if z3.is_int_value(a):
            a, b = b, a
        if z3.is_int_value(b):
            m = b.as_long()
            if m < 0:
                raise Unsupported('negative mask')
            res, k = iv(0), 0
            while m >> k:
                if (m >> k) & 1:
                    j = k
                    while (m >> j) & 1:
                        j += 1
                    part = (a / (1 << k)) % (1 << (j - k)) if k else a % (1 << j)
                    res = res + part * (1 << k)
                    k = j
                else:
                    k += 1
            return simp(res)
        if not self.prog.t(tid)['sg']:
            return band(a, b)
        return self.bv(lambda x, y: x & y, a, b, tid)

    def bitor(self, op, a, b, tid):
        a, b = simp(a), simp(b)
        if op == '|' and not self.prog.t(tid)['sg'] and any(x.decl().name() in ('bit1', 'bor', 'band') for x in (a, b)):
            return bor(a, b)
        if op == '|':
            for x, y in ((a, b), (b, a)):
                for k in range(1, 64):
                    if self.quick(z3.And(y >= 0, y < (1 << k), x >= 0)):
                        if self.quick(x % (1 << k) == 0):
                            return x + y
                        break
            if not self.prog.t(tid)['sg']:
                return bor(a, b)
        return self.bv((lambda x, y: x | y) if op == '|' else (lambda x, y: x ^ y), a, b, tid)

    def bv(self, f, a, b, tid):
        w = self.prog.t(tid)['w']
        r = z3.BV2Int(f(z3.Int2BV(a, w), z3.Int2BV(b, w)), self.prog.t(tid)['sg'])
        return r

    def e_Bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            b = self.rv(e['b'])
            l = self.ev(e['a'])
            self.assign(l, b, e['a']['t'])
            return l
        if op in ('&&', '||'):
            a = self.tobool(self.rv(e['a']))
            a = simp(a)
            if z3.is_true(a) or z3.is_false(a):
                if (op == '&&') == z3.is_true(a):
                    return self.tobool(self.rv(e['b']))
                return a
            g = a if op == '&&' else z3.Not(a)
            if self.pure(e['b']):
                b = self.guarded(g, lambda: self.tobool(self.rv(e['b'])))
                if b is not None:
                    return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            if self.branch(g):
                return self.tobool(self.rv(e['b']))
            return z3.BoolVal(op == '||')
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e):
        if op == '<=>':
            if isinstance(a, z3.ExprRef):
                if a.sort() == B:
                    a, b = z3.If(a, iv(1), iv(0)), z3.If(b, iv(1), iv(0))
                return z3.If(a < b, iv(-1), z3.If(a == b, iv(0), iv(1)))
            if isinstance(a, SPtr):
                self.same_base(a, b)
                return z3.If(a.idx < b.idx, iv(-1), z3.If(a.idx == b.idx, iv(0), iv(1)))
            raise Unsupported('<=>')
        if isinstance(a, SPtr) or isinstance(b, SPtr):
            if isinstance(a, SPtr) and isinstance(b, SPtr):
                self.same_base(a, b)
                d = {'==': a.idx == b.idx, '!=': a.idx != b.idx, '<': a.idx < b.idx, '<=': a.idx <= b.idx,
                     '>': a.idx > b.idx, '>=': a.idx >= b.idx, '-': a.idx - b.idx}
                if op in d:
                    return d[op]
            elif isinstance(a, SPtr) and isinstance(b, NullP) or isinstance(a, NullP):
                if op == '==':
                    return z3.BoolVal(False)
                if op == '!=':
                    return z3.BoolVal(True)
            elif op in ('+', '-'):
                if isinstance(a, SPtr):
                    return self.padd(a, b if op == '+' else -b)
                return self.padd(b, a)
            raise Unsupported('pointer operator ' + op)
        if isinstance(a, VIter) and isinstance(b, VIter):
            d = {'==': lambda: a.idx == b.idx, '!=': lambda: a.idx != b.idx, '<': lambda: a.idx < b.idx, '<=': lambda: a.idx <= b.idx,
                 '>': lambda: a.idx > b.idx, '>=': lambda: a.idx >= b.idx, '-': lambda: simp(a.idx - b.idx)}
            if op in d:
                if not (isl(a.lv) and isl(b.lv) and (a.lv is b.lv or repr(a.lv) == repr(b.lv))):
                    raise Unsupported('pointers into different arrays')
                return d[op]()
        if isinstance(a, VIter) and op in ('+', '-') and isinstance(b, z3.ExprRef):
            return self.padd(a, b if op == '+' else -b)
        if isinstance(a, (Ptr, NullP)) and isinstance(b, (Ptr, NullP)):
            if op in ('==', '!='):
                if isinstance(a, NullP) and isinstance(b, NullP):
                    r = z3.BoolVal(True)
                elif isinstance(a, NullP) or isinstance(b, NullP):
                    p = b if isinstance(a, NullP) else a
                    r = z3.Not(p.nn) if p.nn is not None else z3.BoolVal(False)
                else:
                    r = self.lv_same(a.lv, b.lv)
                return r if op == '==' else z3.Not(r)
        if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)):
            raise Unsupported('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if a.sort() == B and b.sort() == I:
                a = z3.If(a, iv(1), iv(0))
            if b.sort() == B and a.sort() == I:
                b = z3.If(b, iv(1), iv(0))
            if a.sort() == B and op in ('<', '<=', '>', '>='):
                a, b = z3.If(a, iv(1), iv(0)), z3.If(b, iv(1), iv(0))
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                    '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        if a.sort() == B:
            a = z3.If(a, iv(1), iv(0))
        if b.sort() == B:
            b = z3.If(b, iv(1), iv(0))
        if op in ('&', '|') and e['t'] is not None and self.prog.t(e['t'])['k'] == 'bool':
            return z3.And(a, b) if op == '&' else z3.Or(a, b)
        return self.arith(op, a, b, e['t'])

    def lv_same(self, a, b):
        if isinstance(a, LV) and isinstance(b, LV):
            if a.loc != b.loc or len(a.path) != len(b.path):
                return z3.BoolVal(False)
            cs = []
            for x, y in zip(a.path, b.path):
                if x[0] != y[0]:
                    return z3.BoolVal(False)
                if x[0] == 'f':
                    if x[1] != y[1]:
                        return z3.BoolVal(False)
                elif len(x) > 1:
                    cs.append(x[1] == y[1])
            return z3.And(cs) if cs else z3.BoolVal(True)
        raise Unsupported('address comparison')

    # -- evaluation without forking --------------------------------------
    def pure(self, e):
        """syntactically free of writes (calls allowed; checked dynamically)"""
        return True

    def guarded(self, g, fn):
        """evaluate fn() under assumption g without committing to it; returns None if it forked or wrote"""
        if self.pos < len(self.prefix) and self.prefix[self.pos] in ('G', 'N'):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d == 'N':
                return None
            return self._guard_run(g, fn)
        # trial on a cloned state
        saved_st, saved_fs = self.st, self.fs
        r = self._guard_try(g, fn)
        self.st, self.fs = saved_st, saved_fs
        d = 'G' if r else 'N'
        self.pos += 1
        self.trace.append(d)
        if not r:
            return None
        return self._guard_run(g, fn)

    def _guard_try(self, g, fn):
        """does fn() evaluate on exactly one feasible path, without writes to existing locations?"""
        st0 = self.st.clone()
        st0.pc.append(g)
        tr = (set(), self.st.nloc)
        self.trackers.append(tr)
        self.mute += 1
        try:
            res = self.explore(fn, st0)
        finally:
            self.mute -= 1
            self.trackers.pop()
        return len(res) == 1 and res[0][0] == 'normal' and not tr[0]

    def _guard_run(self, g, fn):
        """run under guard: facts learnt are weakened to (g => fact)"""
        npc = len(self.st.pc)
        saved_fs = self.fs
        seen = set(self.st.seen)
        self.fs = None
        self.st.pc.append(g)
        v = fn()
        new = self.st.pc[npc + 1:]
        self.st.pc = self.st.pc[:npc]
        self.st.seen = seen
        self.fs = saved_fs
        # range facts recorded in 'seen' under the guard stay valid only guarded; they are
        # unconditional facts about terms (type ranges, literal definitions), re-add guarded
        for f in new:
            self.assume(z3.Implies(g, f))
        return v

    def e_Asg(self, e):
        op = e['op'][:-1]
        b = self.rv(e['b'])
        l = self.ev(e['a'])
        old = self.read(l)
        if not isinstance(old, z3.ExprRef):
            new = self.padd(old, b if op == '+' else -b)
        else:
            self.range_fact(old, e['a']['t'])
            ct = e['ct']
            a = self.conv_int(old, e['a']['t'], ct)
            new = self.binop(op, a, b, dict(t=e['crt']))
            new = self.conv_int(new, e['crt'], e['a']['t'])
        self.write(l, new)
        return l

    def e_Cond(self, e):
        c = simp(self.tobool(self.rv(e['c'])))
        if z3.is_true(c):
            return self.ev(e['a'])
        if z3.is_false(c):
            return self.ev(e['b'])
        if e['vk'] == 'p' and self.prog.t(e['t'])['k'] in ('int', 'bool', 'enum'):
            a = self.guarded(c, lambda: self.rv(e['a']))
            if a is not None:
                b = self.guarded(z3.Not(c), lambda: self.rv(e['b']))
                if b is not None:
                    return z3.If(c, a, b)
                if self.branch(c):
                    return a
                return self.rv(e['b'])
        if self.branch(c):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_InitList(self, e):
        tid = e['t']
        t = self.prog.t(tid)
        if t['k'] == 'arr':
            vals = [self.rv(x) for x in e['a']]
            return InitArr(vals, t['to'])
        if t['k'] in ('int', 'bool', 'enum', 'ptr'):
            return self.rv(e['a'][0]) if e['a'] else self.zero(tid)
        if t['k'] == 'rec':
            if t['q'] == 'std::array':
                x = e['a'][0]
                v = self.ev(x)
                if isinstance(v, InitArr):
                    return self.arr_to_vec(v, t['ta'][0]['t'])
                return v
            rec = self.prog.rec[t['id']]
            if 'fields' not in rec:
                h = self.handlers.get('aggr:' + t['q'])
                if h:
                    return h(self, e)
                raise Unsupported('aggregate ' + t['s'])
            if rec.get('bases'):
                raise Unsupported('aggregate with bases')
            f = {}
            for fl, x in zip(rec['fields'], e['a']):
                ft = self.prog.t(fl['t'])
                if ft['k'] in ('lref', 'rref'):
                    f[fl['n']] = RefV(self.ev(x))
                else:
                    f[fl['n']] = self.init_value(x, fl['t'])
            return Rec(t['q'], f, t['id'])
        raise Unsupported('init list of ' + t['s'])

    def init_value(self, x, tid):
        v = self.ev(x)
        if isl(v):
            v = self.read(v)
        if isinstance(v, InitArr):
            v = self.arr_to_vec(v, v.et)
        if isinstance(v, tuple) and v[0] == 'strlit':
            # char array member initialised from a literal
            t = self.prog.t(tid)
            return StrArr(v[1], t['n']) if t['k'] == 'arr' else v
        return v

    def arr_to_vec(self, ia, et):
        if not ia.vals:
            el = self.mk(et, 'el')
            arr = lift_const(el, lambda s: self.fresh('arr0', s))
            return Vec(iv(0), arr, et)
        arr = mapleaf(ia.vals[0], lambda x: z3.K(I, x))
        for i, v in enumerate(ia.vals[1:], 1):
            arr = map2leaf(arr, v, lambda a, x: z3.Store(a, i, x))
        return Vec(iv(len(ia.vals)), arr, et)

    def e_Lambda(self, e):
        rec = self.prog.rec[e['rec']]
        f = {}
        for c, x in zip(rec['caps'], e['a']):
            if c['k'] == 'this':
                f['#this'] = self.rv(x)
            elif c.get('byref'):
                f['#%d' % c['v']] = RefV(self.ev(x))
            else:
                f['#%d' % c['v']] = self.rv(x)
        return Rec(rec['q'], f, e['rec'])

    def call_lambda(self, lam, args, node=None, fid=None):
        """lam: Rec (closure); args: values/lvalues"""
        rec = self.prog.rec[lam.rid]
        if not rec.get('lambda'):
            raise Unsupported('call of non-lambda object ' + lam.q)
        fid = fid or self.lambda_fn(rec, args)
        fn = self.prog.fn[fid]
        return self.inline(fn, None, args, closure=lam)

    def lambda_fn(self, rec, args):
        if rec.get('generic'):
            c = [s for s in rec.get('specs', []) if 'body' in self.prog.fn.get(s, {})]
            if len(c) == 1:
                return c[0]
            raise Unsupported('generic lambda with %d specialisations' % len(c))
        return rec['call']

    def call_value(self, f, args, node=None):
        """invoke a callable value with already evaluated arguments"""
        if isl(f):
            f = self.read(f)
        if isinstance(f, Rec):
            return self.call_lambda(f, args, node)
        if isinstance(f, FnV):
            return self.call(self.prog.fn[f.fid], None, args, node or {'k': 'Call'})
        h = self.handlers.get('callv:' + type(f).__name__)
        if h:
            return h(self, f, args)
        raise Unsupported('call through %s' % type(f).__name__)

    # ------------------------------------------------------------ calls
    def eval_args(self, fn, argnodes, skip=0):
        out = []
        ps = fn['params']
        for i, a in enumerate(argnodes):
            if i < len(ps):
                pt = self.prog.t(ps[i]['t'])
                if pt['k'] in ('lref', 'rref'):
                    v = self.ev(a)
                    if isinstance(v, tuple) and v[0] == 'strlit':
                        v = ValLV(SPtr(v[1], iv(0)))
                    if isinstance(v, InitArr):
                        v = ValLV(v)
                    if not isl(v) and not isinstance(v, FnV):
                        v = self.alloc(v, a['t'])
                    out.append(v)
                    continue
            v = self.ev(a)
            if isl(v):
                v = self.read(v)
            out.append(v)
        return out

    def e_Call(self, e):
        if 'fn' not in e:
            if 'callee' in e:
                f = self.rv(e['callee'])
                if isinstance(f, FnV):
                    fn = self.prog.fn[f.fid]
                    args = self.eval_args(fn, e['a'])
                    return self.call(fn, None, args, e)
                args = [self.ev(a) for a in e['a']]
                return self.call_value(f, args, e)
            raise Unsupported('indirect call')
        fn = self.prog.fn[e['fn']]
        raw = self.handlers.get('raw:' + fn['q'])
        if raw:
            r = raw(self, e, fn)
            if r is not NotImplemented:
                return r
        this = None
        argn = e['a']
        if 'this' in e:
            o = self.ev(e['this'])
            if e.get('thisptr'):
                o = self.read(o) if isl(o) else o
                this = o if not isinstance(o, (Ptr,)) else self.deref(o)
                if isinstance(o, VIter):
                    this = self.deref(o)
            else:
                this = o if isl(o) else self.alloc(o, e['this']['t'])
        elif fn['kind'] in ('method', 'conv') and 'op' in e:
            o = self.ev(argn[0])
            this = o if isl(o) else self.alloc(o, argn[0]['t'])
            argn = argn[1:]
        if self.prog.rec.get(fn.get('rec'), {}).get('lambda') and fn['name'] == 'operator()':
            lam = self.read(this)
            args = self.eval_args(fn, argn)
            return self.inline(fn, None, args, closure=lam)
        args = self.eval_args(fn, argn)
        return self.call(fn, this, args, e)

    def call(self, fn, this, args, node):
        q = fn['q']
        c = self.contract_for(fn)
        if c is not None:
            self.used_contracts.add(c.name)
            return c.use(self, Call(self, fn, this, args, node))
        h = self.handlers.get(q)
        if h is not None:
            if not fn.get('inscope'):
                self.assumed.add(q)
            r = h(self, Call(self, fn, this, args, node))
            if r is not NotImplemented:
                return r
        if fn['defaulted'] and (fn.get('cpasg') or fn.get('mvasg')) and fn.get('inscope'):
            src = args[0]
            v = self.read(src)
            self.write(this, v)
            if fn.get('mvasg') and isinstance(src, LV):
                self.write(src, self.moved(v))
            return this
        if 'body' in fn:
            self.inlined.add('%s (%s:%s)' % (q, fn.get('file', '').split('/include/')[-1], fn.get('line')))
            return self.inline(fn, this, args)
        raise Unsupported('call of %s (no contract, no body) at line %s' % (q, self.line))

    def contract_for(self, fn):
        for c in self.contracts.get(fn['q'], []):
            if c.match(self, fn) and not (c is self.verifying and len(self.st.frames) == 0):
                return c
        return None

    verifying = None

    def inline(self, fn, this, args, closure=None):
        if len(self.st.frames) > 60:
            raise Unsupported('call depth (recursion without a contract) in ' + fn['q'])
        fr = Frame(fn, this)
        for p, a in zip(fn['params'], args):
            pt = self.prog.t(p['t'])
            if pt['k'] in ('lref', 'rref'):
                if not isl(a) and not isinstance(a, FnV):
                    a = self.alloc(a, p['t'])
                fr.vars[p['id']] = a
            else:
                if isl(a):
                    a = self.read(a)
                fr.vars[p['id']] = self.alloc(a, p['t'])
        if len(args) < len(fn['params']):
            raise Unsupported('missing arguments for ' + fn['q'])
        if closure is not None:
            for k, v in closure.f.items():
                if k == '#this':
                    fr.this = v.lv
                elif isinstance(v, RefV):
                    fr.vars[int(k[1:])] = v.lv
                else:
                    fr.vars[int(k[1:])] = self.alloc(v)
        self.st.frames.append(fr)
        saved_line = self.line
        nfr = len(self.st.frames)
        try:
            if fn['kind'] == 'ctor':
                self.ctor_inits(fn, this)
            self.ex(fn['body'])
            ret = UNIT
        except CfReturn as r:
            ret = r.val
        except CppThrow:
            if fn.get('noexcept'):
                self.prove('exception does not escape noexcept function %s' % fn['q'], False)
                raise PathDead()
            raise
        finally:
            # the state object may have been replaced (loops): pop by depth
            del self.st.frames[nfr - 1:]
            self.line = saved_line
        return ret

    def ctor_inits(self, fn, this):
        for i in fn.get('inits', []):
            if 'f' in i:
                e = i['e']
                if 'chain' in i:
                    # member of an anonymous union: its fields are fields of the enclosing record here
                    self.write(this.f(i['fn']), self.init_value(e, e['t']))
                    continue
                ft = self.field_type(fn['rec'], i['fn'])
                if ft is not None and self.prog.t(ft)['k'] in ('lref', 'rref'):
                    self.write(this.f(i['fn']), RefV(self.ev(e)))
                    continue
                v = self.init_value(e, ft if ft is not None else e['t'])
                self.write(this.f(i['fn']), v)
            elif 'base' in i:
                bt = self.prog.t(i['base'])
                e = i['e']
                if e['k'] == 'Ctor':
                    bf = self.prog.fn[e['fn']]
                    if 'body' in bf:
                        args = self.eval_args(bf, e['a'])
                        self.inline(bf, this, args)
                    elif bf.get('inscope') and (bf['trivial'] or bf['defaulted']):
                        pass
                    else:
                        h = self.handlers.get('base:' + bt['q'])
                        if h:
                            h(self, this, e)
                        elif bt['q'].startswith('std::enable_shared') or bt['q'].startswith('std::'):
                            pass
                        else:
                            raise Unsupported('base initialiser ' + bt['s'])
                else:
                    raise Unsupported('base initialiser form')
            elif i.get('deleg'):
                e = i['e']
                bf = self.prog.fn[e['fn']]
                self.inline(bf, this, self.eval_args(bf, e['a']))

    def field_type(self, rid, name):
        rec = self.prog.rec.get(rid)
        if rec and 'fields' in rec:
            for f in rec['fields']:
                if f['n'] == name:
                    return f['t']
        return None

    def e_Ctor(self, e):
        t = self.prog.t(e['t'])
        fn = self.prog.fn[e['fn']]
        if t['k'] == 'arr':
            raise Unsupported('array construction')
        return self.construct(e['t'], t, fn, e)

    def construct(self, tid, t, fn, e):
        q = t['q']
        c = self.contract_for(fn)
        if c is None:
            h = self.handlers.get('ctor:' + q)
            if h is not None:
                if not fn.get('inscope'):
                    self.assumed.add(fn['q'])
                r = h(self, e, fn, tid, t)
                if r is not NotImplemented:
                    return r
        if (fn.get('cpctor') or fn.get('mvctor')) and (fn['defaulted'] or fn['trivial']):
            src = self.ev(e['a'][0])
            if not isl(src):
                return src
            v = self.read(src)
            if fn.get('mvctor') and isinstance(src, LV):
                self.write(src, self.moved(v))
            return v
        rec = self.prog.rec.get(t['id'])
        if rec and 'fields' in rec:
            if rec.get('lambda'):
                raise Unsupported('lambda construction')
            if fn['trivial'] and not e['a']:
                if e.get('zero'):
                    return self.zero(tid)
                return self.uninit(tid, t, rec)
            tmp = self.alloc(self.uninit(tid, t, rec), tid)
            args = self.eval_args(fn, e['a'])
            self.call_ctor(fn, tmp, args, e)
            return self.read(tmp)
        raise Unsupported('construction of ' + t['s'])

    def uninit(self, tid, t, rec):
        h = self.handlers.get('uninit:' + t['q'])
        if h:
            return h(self, tid, t)
        f = {}
        for b in rec.get('bases', []):
            bt = self.prog.t(b)
            br = self.prog.rec.get(bt.get('id'))
            if br and 'fields' in br:
                f.update(self.uninit(b, bt, br).f)
        for fl in rec['fields']:
            f[fl['n']] = None
        return Rec(t['q'], f, t['id'])

    def call_ctor(self, fn, this, args, e):
        c = self.contract_for(fn)
        if c is not None:
            self.used_contracts.add(c.name)
            return c.use(self, Call(self, fn, this, args, e))
        if 'body' not in fn:
            if fn['defaulted'] and not args:
                # default member initialisers
                rec = self.prog.rec[fn['rec']]
                for fl in rec['fields']:
                    if 'init' in fl:
                        self.write(this.f(fl['n']), self.init_value(fl['init'], fl['t']))
                    else:
                        ft = self.prog.t(fl['t'])
                        if ft['k'] == 'rec':
                            h = self.handlers.get('default:' + ft['q'])
                            if h:
                                self.write(this.f(fl['n']), h(self, fl['t'], ft))
                return
            raise Unsupported('constructor without body ' + fn['q'])
        self.inlined.add('%s (%s:%s)' % (fn['q'], fn.get('file', '').split('/include/')[-1], fn.get('line')))
        self.inline(fn, this, args)

    def moved(self, v):
        """value left behind in a moved-from object"""
        if isinstance(v, z3.ExprRef):
            if v.sort() == Str:
                r = self.fresh('movedstr', Str)
                return r
            return v
        if isinstance(v, Vec):
            return Vec(iv(0), v.arr, v.et)
        if isinstance(v, Rec):
            h = self.handlers.get('moved:' + v.q)
            if h:
                return h(self, v)
            return Rec(v.q, {k: self.moved(x) for k, x in v.f.items()}, v.rid)
        if isinstance(v, Opt):
            return Opt(v.has, self.moved(v.val))
        if isinstance(v, Exp):
            return Exp(v.has, self.moved(v.val), self.moved(v.err))
        if isinstance(v, MapV):
            return self.fresh_like(v)
        h = self.handlers.get('moved:' + type(v).__name__)
        if h:
            return h(self, v)
        return v

    def assign(self, l, v, tid):
        if isinstance(v, InitArr):
            v = self.arr_to_vec(v, v.et)
        self.write(l, v)

    def e_Throw(self, e):
        if e.get('e') is None:
            cur = self.st.ghost.get('exc')
            if cur is None:
                raise Unsupported('rethrow')
            raise CppThrow(cur[0], cur[1])
        v = self.ev(e['e'])
        if isl(v):
            v = self.read(v)
        raise CppThrow(e['e']['t'], v)

    def e_Await(self, e):
        return self.ev(e['e'])

    def e_New(self, e):
        if e['pl'] or e['array']:
            raise Unsupported('placement/array new')
        t = self.prog.t(e['at'])
        v = self.ev(e['init']) if 'init' in e else self.uninit(e['at'], t, self.prog.rec[t['id']])
        return Ptr(self.alloc(v, e['at']))

    # ------------------------------------------------------------ statements
    def s_Block(self, s):
        self.scope(lambda: [self.ex(x) for x in s['b']])

    def scope(self, fn):
        fn()

    def s_Decl(self, s):
        for d in s['d']:
            self.decl(d)

    def decl(self, d):
        if d['k'] == 'OtherDecl':
            return
        t = self.prog.t(d['t'])
        fr = self.frame()
        if d['k'] == 'Decomp':
            self.decomp(d)
            return
        if t['k'] in ('lref', 'rref'):
            v = self.ev(d['init'])
            if isinstance(v, tuple):
                v = ValLV(SPtr(v[1], iv(0)))
            if not isl(v) and not isinstance(v, FnV):
                v = self.alloc(v, d['t'])
            self.frame().vars[d['id']] = v
            return
        if d.get('static') and not d.get('constexpr') and not t.get('const'):
            raise Unsupported('mutable static local')
        if 'init' in d:
            v = self.ev(d['init'])
            if isl(v):
                v = self.read(v)
            if isinstance(v, tuple):
                if v[0] == 'strlit':
                    v = StrArr(v[1], t.get('n'))
            if isinstance(v, InitArr):
                if t['k'] == 'arr':
                    v = self.arr_to_vec(v, v.et)
        else:
            if t['k'] in ('int', 'bool', 'enum'):
                v = self.mk(d['t'], 'uninit')
            elif t['k'] == 'arr':
                v = self.mk(d['t'], 'uninit')
            elif t['k'] == 'ptr':
                v = NullP()
            else:
                raise Unsupported('uninitialised local of type ' + t['s'])
        self.frame().vars[d['id']] = self.alloc(v, d['t'])

    def decomp(self, d):
        v = self.ev(d['init'])
        t = self.prog.t(d['t'])
        lv = v if isl(v) else self.alloc(v, d['t'])
        if t['k'] not in ('lref', 'rref') and isl(v):
            lv = self.alloc(self.read(v), d['t'])
        self.frame().vars[d['id']] = lv
        val = self.read(lv)
        for i, b in enumerate(d['b']):
            if isinstance(val, Rec):
                names = list(val.f.keys())
                x = self.member(lv, names[i])
                self.frame().vars[b['id']] = x
                if 'hold' in b:
                    self.frame().vars[b['hold']['id']] = x
            else:
                raise Unsupported('structured binding of %s' % type(val).__name__)

    def s_Null(self, s):
        pass

    def s_If(self, s):
        if s.get('init'):
            self.ex(s['init'])
        if s.get('cv'):
            self.ex(s['cv'])
        if s.get('constexpr') and s['c'].get('cv') is None and s['c']['k'] == 'Const':
            raise Unsupported('if constexpr')
        c = self.tobool(self.rv(s['c']))
        if self.branch(c):
            self.ex(s['th'])
        else:
            self.ex(s['el'])

    def s_Return(self, s):
        if s.get('e') is None:
            raise CfReturn(UNIT)
        fn = self.frame().fn
        rt = self.prog.t(fn['ret'])
        v = self.ev(s['e'])
        if isinstance(v, tuple):
            v = SPtr(v[1], iv(0))
        if rt['k'] in ('lref', 'rref'):
            raise CfReturn(v)
        if isl(v):
            v = self.read(v)
        if s.get('co'):
            h = self.handlers.get('co_return')
            if h:
                v = h(self, v, s, fn)
        raise CfReturn(v)

    def s_Break(self, s):
        raise CfBreak()

    def s_Continue(self, s):
        raise CfContinue()

    def s_Coro(self, s):
        self.ex(s['b'])

    def s_Try(self, s):
        nfr = len(self.st.frames)
        try:
            self.ex(s['body'])
        except CppThrow as t:
            del self.st.frames[nfr:]
            for h in s['h']:
                if 't' not in h or self.catches(h['t'], t.tid):
                    old = self.st.ghost.get('exc')
                    self.st.ghost['exc'] = (t.tid, t.val)
                    if 'id' in h:
                        self.frame().vars[h['id']] = self.alloc(t.val, h['t'])
                    try:
                        self.ex(h['b'])
                    finally:
                        self.st.ghost['exc'] = old
                    return
            raise

    def catches(self, ht, tid):
        a, b = self.prog.t(self.prog.strip(ht)), self.prog.t(self.prog.strip(tid))
        if a.get('q') == b.get('q'):
            return True
        seen = [b]
        while seen:
            x = seen.pop()
            if x.get('q') == a.get('q'):
                return True
            for y in self.prog.rec.get(x.get('id'), {}).get('bases', []):
                seen.append(self.prog.t(y))
        return False

    def s_Switch(self, s):
        if s.get('init'):
            self.ex(s['init'])
        if s.get('cv'):
            self.ex(s['cv'])
        c = self.rv(s['c'])
        if c.sort() == B:
            c = z3.If(c, iv(1), iv(0))
        # flatten body
        items = []   # (labels, stmt)
        b = s['body']
        stm = b['b'] if b['k'] == 'Block' else [b]
        flat = []
        for x in stm:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(int(x['v']) if x['k'] == 'Case' else None)
                x = x['b']
            flat.append((labels, x))
        allv = [v for ls, _ in flat for v in ls if v is not None]
        start = None
        order = list(enumerate(flat))
        for i, (ls, _) in order:
            for v in ls:
                if v is not None and start is None:
                    if self.branch(c == v):
                        start = i
            if start is not None:
                break
        if start is None:
            for i, (ls, _) in order:
                if None in ls:
                    start = i
        if start is None:
            return
        try:
            for _, x in flat[start:]:
                if x is not None:
                    self.ex(x)
        except CfBreak:
            pass

    def s_Case(self, s):
        self.ex(s['b'])

    s_Default = s_Case

    # ------------------------------------------------------------ loops
    def s_While(self, s):
        def cond():
            if s.get('cv'):
                self.ex(s['cv'])
            return self.tobool(self.rv(s['c']))
        self.loop(s, cond, lambda: self.ex(s['body']), None)

    def s_Do(self, s):
        self.loop(s, lambda: self.tobool(self.rv(s['c'])), lambda: self.ex(s['body']), None, post=True)

    def s_For(self, s):
        if s.get('init'):
            self.ex(s['init'])
        def cond():
            if s.get('cv'):
                self.ex(s['cv'])
            if s.get('c') is None:
                return z3.BoolVal(True)
            return self.tobool(self.rv(s['c']))
        self.loop(s, cond, lambda: self.ex(s['body']), (lambda: self.ev(s['inc'])) if s.get('inc') else None)

    def s_ForRange(self, s):
        if s.get('init'):
            self.ex(s['init'])
        self.ex(s['range'])
        self.ex(s['begin'])
        self.ex(s['end'])
        def body():
            self.ex(s['var'])
            self.ex(s['body'])
        self.loop(s, lambda: self.tobool(self.rv(s['c'])), body, lambda: self.ev(s['inc']))

    def one_iter(self, cond, body, inc, post):
        nfr = len(self.st.frames)
        if not post:
            if not self.branch(cond()):
                raise CfBreak()
        try:
            body()
        except CfContinue:
            pass
        if inc:
            inc()
        if post:
            if not self.branch(cond()):
                raise CfBreak()
        return None

    def loop(self, s, cond, body, inc, post=False):
        key = ('loop', id(s), tuple(self.trace))
        hit = self.cache.get(key)
        if hit is None:
            hit = self.analyse_loop(s, cond, body, inc, post)
            self.cache[key] = hit
        exits = hit
        k = self.choose(len(exits))
        kind, payload, st = exits[k]
        self._setstate(st.clone())
        if kind == 'return':
            raise CfReturn(payload)
        if kind == 'throw':
            raise payload

    def concrete_unroll(self, s, cond, body, inc, post):
        return None

    def analyse_loop(self, s, cond, body, inc, post):
        from loops import analyse
        return analyse(self, s, cond, body, inc, post)


class RefV(V):
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def leaves(self):
        return []

    def rebuild(self, l):
        return self


class InitArr(V):
    """brace-enclosed array / initializer_list backing"""
    __slots__ = ('vals', 'et')

    def __init__(self, vals, et):
        self.vals, self.et = vals, et

    def leaves(self):
        return []

    def rebuild(self, l):
        return self


class StrArr(V):
    """char array initialised from a literal"""
    __slots__ = ('term', 'n')

    def __init__(self, term, n):
        self.term, self.n = term, n

    def leaves(self):
        return []

    def rebuild(self, l):
        return self


class Table(V):
    """constant integer table"""
    __slots__ = ('vals', 'et')

    def __init__(self, vals, et):
        self.vals, self.et = vals, et

    def leaves(self):
        return []

    def rebuild(self, l):
        return self

    def at(self, i):
        return table_term(self.vals, i)


def table_term(vals, i):
    """piecewise-linear closed form of a constant table (exact)"""
    i = simp(i)
    if z3.is_int_value(i):
        return iv(vals[i.as_long()])
    runs = []   # (lo, hi, kind, c)
    p, n = 0, len(vals)
    while p < n:
        a = p
        while a + 1 < n and vals[a + 1] == vals[p]:
            a += 1
        b = p
        while b + 1 < n and vals[b + 1] - (b + 1) == vals[p] - p:
            b += 1
        if a >= b:
            runs.append((p, a, 0, vals[p]))
            p = a + 1
        else:
            runs.append((p, b, 1, vals[p] - p))
            p = b + 1
    # the most frequent constant run value becomes the default
    const = {}
    for lo, hi, k, c in runs:
        if k == 0:
            const[c] = const.get(c, 0) + 1
    if const:
        dflt = max(const, key=lambda c: const[c])
    else:
        dflt = None
    res = None
    if dflt is not None:
        res = iv(dflt)
    for lo, hi, k, c in reversed(runs):
        if k == 0 and c == dflt:
            continue
        v = iv(c) if k == 0 else i + c
        if res is None:
            res = v
        else:
            res = z3.If(z3.And(i >= lo, i <= hi) if lo != hi else i == lo, v, res)
    return res
