"""Contracts: precondition, postcondition (functional or relational), frame; used at calls, verified on bodies."""
import z3, time, traceback
from sym import *
from engine import *
from interp import *
import loops


class Cx:
    """contract instance: entry values, and (after the call) final values"""
    def __init__(self, X, fn, this, args):
        self.X, self.fn, self.this = X, fn, this
        self.raw = args
        self.args = [X.read(a) if isl(a) else a for a in args]
        self.this0 = None
        if isinstance(this, (LV, ValLV)):
            self.this0 = X.read(this)
        self.exc = None
        self.proving = False

    def final(self, i):
        return self.X.read(self.raw[i])

    @property
    def this1(self):
        return self.X.read(self.this)


class Contract:
    def __init__(self, q, post=None, spec=None, pre=None, match=None, modifies=None, setup=None, name=None,
                 mkret=None, throws=None, tpost=None, frame=True, terminates=True, top=True, required=True, measure=None):
        self.q, self.post, self.spec, self.pre, self._match = q, post, spec, pre, match
        self.modifies, self.setup, self.mkret = modifies, setup, mkret
        self.throws, self.tpost = throws, tpost
        self.name = name or q
        self.frame = frame
        self.terminates = terminates
        self.top = top
        self.required = required
        self.measure = measure    # recursion: a tuple of non-negative integers that decreases lexicographically at calls
        self.assumed = False

    def match(self, X, fn):
        return self._match is None or self._match(X, fn)

    def havoc(self, X, cx):
        for lv in (self.modifies(cx) if self.modifies else []):
            v = X.read(lv)
            X.write(lv, X.fresh_like(v, 'post'))

    def use(self, X, call):
        cx = Cx(X, call.fn, call.this, call.args)
        if self.pre:
            for lab, f in self.pre(cx):
                X.prove('precondition of %s: %s' % (self.name, lab), f)
        if not self.frame or (self.tpost is not None and self.throws is None):
            raise Unsupported('%s is called, but its contract does not say what the call may change or throw' % self.name)
        v = getattr(X, 'verifying', None)
        if self.measure is not None and v is not None and v.measure is not None and getattr(X, 'cx', None) is not None:
            X.prove('recursive call of %s decreases the measure' % self.name, lexlt(self.measure(cx), v.measure(X.cx)))
        if self.throws is not None:
            t = self.throws(cx)          # formula: throws iff
            if X.branch(t):
                if call.fn.get('noexcept'):
                    raise PathDead()
                self.havoc(X, cx)
                raise CppThrow(None, None)
        if self.spec is not None:
            return self.spec(cx)
        self.havoc(X, cx)
        rt = X.prog.t(call.fn['ret'])
        if self.mkret:
            ret = self.mkret(cx)
        elif rt['k'] == 'void' or call.fn['kind'] in ('ctor', 'dtor'):
            ret = UNIT
        elif rt['k'] in ('lref', 'rref'):
            raise Unsupported('relational contract with reference result needs mkret')
        else:
            ret = X.mk(call.fn['ret'], 'r')
        for lab, f in self.post(cx, ret):
            X.assume(f)
        return ret


def lexlt(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(z3.And(x < y, y >= 0), z3.And(x == y, r))
    return r


class FnResult:
    def __init__(self, name, loc):
        self.name, self.loc = name, loc
        self.obligs = []
        self.error = None
        self.paths = 0
        self.reach = 0
        self.secs = 0
        self.assumed, self.inlined, self.used = set(), set(), set()
        self.by = {}
        self.loops = []
        self.nonterm = []
        self.queries = 0

    def failed(self):
        return [o for o in self.obligs if not o.ok]


class Verifier(Interp):
    def pools_for(self, node):
        fn = self.frame().fn
        q = fn['q']
        r = []
        for f in self.st.frames[::-1]:
            for p in self.pools.get(f.fn['q'], []):
                if p not in r:
                    r.append(p)
        r += self.pools.get('*', [])
        return r

    pools = {}
    effort = 1

    def houdini_check(self, pc, g):
        ok, _, _, _ = self.solve(pc, g, timeout=1500 * self.effort)
        return ok

    def verify(self, fn, con):
        """check a function body against its contract; returns FnResult"""
        loc = '%s:%s' % (fn.get('file', '').split('/include/')[-1], fn.get('line'))
        res = FnResult(con.name, loc)
        self.top = con.name
        self.obligs = []
        self.nonterm = []
        self.loopinfo = []
        self.verifying = con
        t0 = time.time()
        try:
            st = State()
            self._setstate(st)
            self.trace, self.prefix, self.pos, self.work, self.cache = [], [], 0, [], {}
            self.st.frames = []
            pre_facts = None
            this, args, extra = None, [], {}
            if con.setup:
                this, args, extra = con.setup(self, fn)
            else:
                this, args = self.default_setup(fn)
            cx = Cx(self, fn, this, args)
            cx.extra = extra
            cx.proving = True
            self.cx = cx
            if con.pre:
                for lab, f in con.pre(cx):
                    self.assume(f)
            base = self.st
            ok, why, _, _ = self.solve(base.pc, z3.BoolVal(False), timeout=2000)
            if ok:
                raise Unsupported('precondition is contradictory (vacuous contract)')
            self.line = fn.get('line')
            outs = []
            f0, mods = self.frame_of(con, cx, fn)

            def run():
                self.line = fn.get('line')
                f = fn
                if f['kind'] == 'ctor':
                    self.st.frames = []
                    self.call_ctor_body(f, this, args)
                    ret = UNIT
                else:
                    ret = self.inline_top(f, this, args)
                self.line = f.get('endline', f.get('line'))
                cx2 = cx
                self.check_frame(con, cx, fn, mods, f0)
                for lab, g in self.post_goals(con, cx2, ret):
                    self.prove('postcondition: ' + lab, g)
                return ret

            def run_t():
                try:
                    return run()
                except CppThrow as t:
                    self.check_frame(con, cx, fn, mods, f0)
                    if con.tpost is not None:
                        for lab, g in con.tpost(cx, t):
                            self.prove('exceptional postcondition: ' + lab, g)
                    elif con.throws is not None:
                        self.prove('throws only when specified', con.throws(cx))
                    else:
                        self.prove('no exception escapes', False)
                    return None
            outs = self.explore(run_t, base)
            res.paths = len(outs)
            for kind, v, s2 in outs:
                if kind in ('break', 'continue'):
                    raise Unsupported('stray control flow')
                sat_, why, _, _ = self.solve(s2.pc, z3.BoolVal(False), timeout=800)
                if not sat_:
                    res.reach += 1
            if res.reach == 0 and not any(not o.ok for o in self.obligs):
                raise Unsupported('no reachable path to the postcondition (vacuous)')
            if con.terminates and self.nonterm:
                for f, l in self.nonterm:
                    self.obligs.append(Oblig('loop terminates (a measure decreases)', f, l, False, 'no measure found'))
        except Giveup:
            pass
        except Unsupported as u:
            res.error = 'outside the verified subset: %s (near line %s)' % (u, self.line)
        except RecursionError:
            res.error = 'recursion limit in the verifier'
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, z3.Z3Exception) as ex:
            res.error = 'verifier could not interpret the code: %s: %s (near line %s)' % (type(ex).__name__, str(ex)[:300], self.line)
            if self.debug:
                print("".join(traceback.format_exc().split("\n  File")[-9:]))
        res.obligs = self.obligs
        res.secs = time.time() - t0
        res.assumed, res.inlined, res.used = self.assumed, self.inlined, self.used_contracts
        res.by = dict(self.stats.by)
        res.loops = self.loopinfo
        res.nonterm = list(self.nonterm)
        res.queries = self.stats.queries
        return res

    def frame_of(self, con, cx, fn):
        """entry values of the caller's objects, and what the contract allows to change"""
        if not con.frame:
            return [], []
        objs = []
        if isinstance(cx.this, LV) and fn['kind'] not in ('ctor', 'dtor'):
            objs.append(('*this', cx.this))
        for p, a in zip(fn['params'], cx.raw):
            t = self.prog.t(p['t'])
            if isinstance(a, LV) and t['k'] in ('lref', 'rref'):
                objs.append((p['n'] or 'argument', a))
        mods = [lv for lv in (con.modifies(cx) if con.modifies else []) if isinstance(lv, LV)]
        return [(n, lv, self.read(lv)) for n, lv in objs], mods

    def check_frame(self, con, cx, fn, mods, f0):
        for n, lv, v0 in f0:
            v1 = self.read(lv)
            if loops.vsame(v0, v1):
                continue
            k = len(lv.path)
            if any(m.loc == lv.loc and m.path == lv.path[:len(m.path)] for m in mods):
                continue
            t = self.alloc(v1)
            for m in mods:
                if m.loc == lv.loc and m.path[:k] == lv.path:
                    x = v0
                    for s in m.path[k:]:
                        x = self.sel(x, s)
                    self.write(LV(t.loc, m.path[k:]), x)
            v1 = self.read(t)
            if loops.vsame(v0, v1):
                continue
            for s, f in self.eqf(v1, v0):
                self.prove('frame: %s%s is not changed' % (n, s), f)

    debug = False

    def inline_top(self, fn, this, args):
        v = self.verifying
        return self.inline(fn, this, args)

    def call_ctor_body(self, fn, this, args):
        self.inline(fn, this, args)

    def contract_for(self, fn):
        for c in self.contracts.get(fn['q'], []):
            if c is self.verifying and not self.allow_self and c.measure is None:
                continue
            if c.match(self, fn):
                return c
        return None

    allow_self = False

    def post_goals(self, con, cx, ret):
        if isl(ret):
            ret_v = self.read(ret)
        else:
            ret_v = ret
        goals = []
        if con.spec is not None:
            want = con.spec(cx)
            if isl(want):
                want = self.read(want)
            goals += [('result%s equals its specification' % s, f) for s, f in self.eqf(ret_v, want)]
        if con.post is not None:
            goals += con.post(cx, ret if not isl(ret) else ret)
        return goals

    def default_setup(self, fn):
        this = None
        if fn['kind'] in ('method', 'conv', 'ctor'):
            if fn['kind'] == 'ctor':
                t = self.prog.t(fn['rect'])
                this = self.alloc(self.uninit(fn['rect'], t, self.prog.rec[fn['rec']]), fn['rect'])
            else:
                this = self.alloc(self.mk(fn['rect'], 'self'), fn['rect'])
        args = []
        for p in fn['params']:
            t = self.prog.t(p['t'])
            if t['k'] in ('lref', 'rref'):
                args.append(self.alloc(self.mk(t['to'], p['n'] or 'a'), t['to']))
            else:
                args.append(self.mk(p['t'], p['n'] or 'a'))
        return this, args
