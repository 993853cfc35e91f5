"""Deductive verifier: symbolic execution of extracted function bodies, contracts at calls,
inductive invariants at loops (candidate pools pruned Houdini-style), obligations to an SMT solver."""
import json, time, os, subprocess, tempfile, re
import z3
from sym import *


RL = 15000      # solver resource units per millisecond of budget


class Unsupported(Exception):
    pass


class PathDead(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, tid, val):
        self.tid, self.val = tid, val


class CfBreak(Exception):
    pass


class CfContinue(Exception):
    pass


class CfReturn(Exception):
    def __init__(self, val):
        self.val = val


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.fn = {int(k): v for k, v in d['functions'].items()}
        self.rec = {int(k): v for k, v in d['records'].items()}
        self.var = {int(k): v for k, v in d['vars'].items()}
        self.types = d['types']
        self.unsupported = d['unsupported']
        for k, v in self.fn.items():
            v['id'] = k
        self.byq = {}
        for v in self.fn.values():
            self.byq.setdefault(v['q'], []).append(v)

    def t(self, tid):
        return self.types[tid]

    def strip(self, tid):
        """remove references"""
        t = self.types[tid]
        while t['k'] in ('lref', 'rref'):
            tid = t['to']
            t = self.types[tid]
        return tid

    def find(self, q, pred=None, body=True):
        r = [f for f in self.byq.get(q, []) if (not body or 'body' in f) and (pred is None or pred(f))]
        return r

    def tstr(self, tid):
        return self.types[tid]['s']


class Frame:
    __slots__ = ('fn', 'vars', 'this', 'opaque')

    def __init__(self, fn, this=None):
        self.fn, self.vars, self.this, self.opaque = fn, {}, this, {}

    def clone(self):
        f = Frame(self.fn, self.this)
        f.vars = dict(self.vars)
        f.opaque = dict(self.opaque)
        return f


class State:
    __slots__ = ('store', 'pc', 'frames', 'nloc', 'ctr', 'seen', 'ghost', 'ltypes')

    def __init__(self):
        self.store, self.pc, self.frames, self.nloc, self.ctr, self.seen, self.ghost = {}, [], [], 0, 0, set(), {}
        self.ltypes = {}

    def clone(self):
        s = State()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.frames = [f.clone() for f in self.frames]
        s.nloc, s.ctr, s.seen, s.ghost = self.nloc, self.ctr, set(self.seen), dict(self.ghost)
        s.ltypes = dict(self.ltypes)
        return s


class Oblig:
    __slots__ = ('label', 'fn', 'line', 'ok', 'why', 'solver', 'secs', 'pc', 'goal')

    def __init__(self, label, fn, line, ok, why='', solver='', secs=0.0):
        self.label, self.fn, self.line, self.ok, self.why, self.solver, self.secs = label, fn, line, ok, why, solver, secs
        self.pc = self.goal = None


HQ = {}          # ast id -> (ast, has quantifier); the reference keeps the id from being reused


def has_quant(t):
    h = HQ.get(t.get_id())
    if h is not None:
        return h[1]
    if len(HQ) > 400000:
        HQ.clear()
    stack, seen, r = [t], set(), False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = HQ.get(i)
        if h is not None:
            if h[1]:
                r = True
                break
            continue
        if z3.is_quantifier(x):
            r = True
            break
        if z3.is_app(x):
            stack.extend(x.children())
    HQ[t.get_id()] = (t, r)
    return r


class Stats:
    def __init__(self):
        self.by = {}
        self.secs = 0.0
        self.queries = 0


class X:
    """executor for one function under contract"""

    def __init__(self, prog, contracts=None, models=None, axioms=None, timeout=6000, tier='quick'):
        self.prog = prog
        self.contracts = contracts or {}
        self.models = models or {}
        self.axioms = base_axioms() + list(axioms or [])
        self.timeout = timeout
        self.tier = tier
        self.obligs = []
        self.st = State()
        self.trace, self.prefix, self.pos = [], [], 0
        self.work = None
        self.cache = {}
        self.mute = 0
        self.trackers = []
        self.fs = None
        self.fs_n = 0
        self.stats = Stats()
        self.top = None
        self.loop_pools = {}
        self.maxpaths = 4000
        self.depth = 0
        self.assumed = set()
        self.inlined = set()
        self.used_contracts = set()
        self.fail_limit = 3
        self.reached = 0
        self.loopinfo = []
        self.handlers = {}
        self.deadline = None

    # -------------------------------------------------------------- naming / facts
    def fresh(self, name, sort):
        self.st.ctr += 1
        return z3.Const('%s!%d' % (name, self.st.ctr), sort)

    def fint(self, name='i'):
        return self.fresh(name, I)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.st.pc.append(f)
        if self.fs is not None and not has_quant(f):
            self.fs.add(f)

    def _fsolver(self):
        if self.fs is None:
            self.fs = z3.SimpleSolver()
            self.fs.set('smt.auto_config', False)
            self.fs.set('timeout', 6000)
            self.fs.set('rlimit', 8000000)
            self.fs.set('smt.mbqi', False)
            for f in self.st.pc:
                if not has_quant(f):
                    self.fs.add(f)
        return self.fs

    def _setstate(self, st):
        self.st = st
        self.fs = None

    def quick(self, f):
        """is f implied by the quantifier-free path facts? (True / False=unknown)"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        s = self._fsolver()
        s.push()
        s.add(z3.Not(f))
        t0 = time.time()
        r = s.check()
        self.stats.secs += time.time() - t0
        self.stats.queries += 1
        s.pop()
        return r == z3.unsat

    def feasible(self, f):
        s = self._fsolver()
        s.push()
        s.add(f)
        t0 = time.time()
        r = s.check()
        self.stats.secs += time.time() - t0
        self.stats.queries += 1
        s.pop()
        return r != z3.unsat

    # -------------------------------------------------------------- proving
    def solve(self, pc, goal, timeout=None):
        """returns (proved, why, backend, secs)"""
        t0 = time.time()
        self.stats.queries += 1
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.stats.by['simplifier'] = self.stats.by.get('simplifier', 0) + 1
            return True, '', 'z3-simplify', 0.0
        to = timeout or self.timeout
        why = ''
        plans = [dict(mbqi=False, to=to, seed=0), dict(mbqi=False, to=to, seed=7, arith2=True), dict(mbqi=True, to=3000, seed=3)]
        if timeout is not None:
            plans = [plans[0], dict(mbqi=False, to=to, seed=5, again=True), dict(mbqi=False, to=to, seed=11, arith2=True, again=True), dict(mbqi=False, to=to // 8, seed=5, rel0=True, again=True)]
        else:
            plans.insert(2, dict(mbqi=False, to=min(to, 4000), seed=5, rel0=True))
        for i, p in enumerate(plans):
            s = z3.SimpleSolver()
            s.set('timeout', p['to'] * 8)
            s.set('rlimit', p['to'] * RL)
            s.set('smt.auto_config', False)
            s.set('smt.mbqi', p['mbqi'])
            s.set('smt.random_seed', p['seed'])
            if p.get('again') and (timeout < 1000 or 'incomplete' not in why):
                break
            if p.get('rel0'):
                s.set('smt.relevancy', 0)
            if p.get('arith2'):
                s.set('smt.arith.solver', 2)
            for a in self.axioms:
                s.add(a)
            for f in pc:
                s.add(f)
            s.add(z3.Not(goal))
            t1 = time.time()
            r = s.check()
            if os.environ.get('VRL') and time.time() - t1 > 0.3:
                print('RL', r, time.time() - t1, [s.statistics().get_key_value(k) for k in s.statistics().keys() if k == 'rlimit count'], timeout, i)
            if r == z3.unsat:
                dt = time.time() - t0
                self.stats.secs += dt
                self.stats.by['z3'] = self.stats.by.get('z3', 0) + 1
                return True, '', 'z3', dt
            why = str(r) + ((': ' + s.reason_unknown()) if r == z3.unknown else '')
            if r == z3.sat:
                try:
                    why = 'sat: ' + str(s.model())[:2000]
                except z3.Z3Exception:
                    pass
                break
            if i == 0 and r == z3.unknown:
                try:
                    why += ' candidate model: ' + str(s.model())[:1500]
                except z3.Z3Exception:
                    pass
        if timeout is None:
            if os.environ.get('VSMT'):
                s = z3.Solver()
                for f in self.axioms + list(pc) + [z3.Not(goal)]:
                    s.add(f)
                open(os.environ['VSMT'], 'w').write(s.to_smt2())
            ok = self.cvc5(pc, goal)
            if ok:
                dt = time.time() - t0
                self.stats.secs += dt
                self.stats.by['cvc5'] = self.stats.by.get('cvc5', 0) + 1
                return True, '', 'cvc5', dt
        dt = time.time() - t0
        self.stats.secs += dt
        return False, why, 'z3', dt

    def cvc5(self, pc, goal, tmo=8):
        s = z3.Solver()
        for a in self.axioms:
            s.add(a)
        for f in pc:
            s.add(f)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write(txt)
            r = subprocess.run(['cvc5', '--tlimit=%d' % (tmo * 1000), p], capture_output=True, text=True, timeout=tmo + 5)
            return r.stdout.strip().split('\n')[0] == 'unsat'
        except Exception:
            return False
        finally:
            os.unlink(p)

    def prove(self, label, goal, line=None):
        """obligation"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.mute or self.pos < len(self.prefix) - 0 and self._replaying():
            self.assume(goal)
            return True
        nf = sum(1 for o in self.obligs if not o.ok)
        if nf >= self.fail_limit:
            raise Giveup()
        if self.deadline and time.time() > self.deadline:
            o = Oblig('time budget of the function exhausted before: ' + label, self.top, line or self.line, False, 'timeout')
            self.obligs.append(o)
            raise Giveup()
        ok, why, backend, secs = self.solve(self.st.pc, goal)
        o = Oblig(label, self.top, line or self.line, ok, why, backend, secs)
        if not ok:
            o.pc = list(self.st.pc)
            o.goal = goal
        self.obligs.append(o)
        self.assume(goal)
        return ok

    def _replaying(self):
        return self.pos < len(self.prefix)

    line = 0

    # -------------------------------------------------------------- exploration
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if not ft and not ff:
                raise PathDead()
            if ft and ff:
                d = True
                self.work.append(self.trace + [False])
            else:
                d = ft
        self.pos += 1
        self.trace.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """n-way nondeterministic choice"""
        if n <= 0:
            raise PathDead()
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.work.append(self.trace + [j])
        self.pos += 1
        self.trace.append(d)
        return d

    def explore(self, fn, st0):
        """run fn() on every path from st0; returns list of (kind, payload, state)"""
        saved = (self.trace, self.prefix, self.pos, self.work, self.cache, self.st, self.fs)
        results = []
        self.work = [[]]
        self.cache = {}
        n = 0
        try:
            while self.work:
                n += 1
                if n > self.maxpaths:
                    raise Unsupported('too many paths')
                self.prefix = self.work.pop()
                self.trace, self.pos = [], 0
                self._setstate(st0.clone())
                try:
                    v = fn()
                    results.append(('normal', v, self.st))
                except CfReturn as r:
                    results.append(('return', r.val, self.st))
                except CfBreak:
                    results.append(('break', None, self.st))
                except CfContinue:
                    results.append(('continue', None, self.st))
                except CppThrow as t:
                    results.append(('throw', t, self.st))
                except PathDead:
                    pass
        finally:
            (self.trace, self.prefix, self.pos, self.work, self.cache, self.st, self.fs) = saved
        return results

    # -------------------------------------------------------------- storage
    def alloc(self, val, tid=None):
        self.st.nloc += 1
        self.st.store[self.st.nloc] = val
        if tid is not None:
            self.st.ltypes[self.st.nloc] = tid
        return LV(self.st.nloc)

    def sel(self, v, step):
        k = step[0]
        if k == 'f':
            if isinstance(v, Rec):
                if step[1] not in v.f:
                    raise Unsupported('no field %s in %s' % (step[1], v.q))
                return v.f[step[1]]
            raise Unsupported('field %s of %s' % (step[1], type(v).__name__))
        if k == 'i':
            if isinstance(v, Vec):
                return mapleaf(v.arr, lambda a: a.arg(0) if z3.is_K(a) else z3.Select(a, step[1]))
            if z3.is_expr(v) and v.sort() == Str:
                return sat(v, step[1])
            raise Unsupported('index of %s' % type(v).__name__)
        if k == 'o':
            return v.val
        if k == 'e':
            return v.err
        if k == 'k':
            return mapleaf(v.arr, lambda a: z3.Select(a, step[1]))
        raise Unsupported('path step ' + k)

    def put(self, v, path, nv):
        if not path:
            return nv
        step = path[0]
        k = step[0]
        if k == 'f':
            if not isinstance(v, Rec):
                raise Unsupported('field write on %s' % type(v).__name__)
            return v.with_(step[1], self.put(v.f.get(step[1]), path[1:], nv))
        if k == 'i':
            if isinstance(v, Vec):
                inner = self.sel(v, step)
                x = self.put(inner, path[1:], nv)
                return Vec(v.n, map2leaf(v.arr, x, lambda a, e: stored(a, step[1], e)), v.et)
            if z3.is_expr(v) and v.sort() == Str:
                return supd(v, step[1], nv)
        if k == 'o':
            x = self.put(v.val, path[1:], nv)
            return Opt(v.has, x) if isinstance(v, Opt) else Exp(v.has, x, v.err)
        if k == 'e':
            return Exp(v.has, v.val, self.put(v.err, path[1:], nv))
        if k == 'k':
            inner = self.sel(v, step)
            x = self.put(inner, path[1:], nv)
            return MapV(v.dom, map2leaf(v.arr, x, lambda a, e: z3.Store(a, step[1], e)), v.n, v.kt, v.vt, v.norm, v.keyrep)
        raise Unsupported('put ' + k)

    def read(self, lv):
        if isinstance(lv, TextLV):
            v = sat(lv.base, lv.idx)
            self.range_fact(v, lv.et)
            return v
        if isinstance(lv, ValLV):
            return lv.val
        if not isinstance(lv, LV):
            raise Unsupported('read of %r' % (lv,))
        if lv.loc not in self.st.store:
            raise Unsupported('read of unknown location')
        v = self.st.store[lv.loc]
        for s in lv.path:
            v = self.sel(v, s)
        return v

    def write(self, lv, val):
        if isinstance(lv, (TextLV, ValLV)):
            raise Unsupported('write through read-only lvalue')
        for tr in self.trackers:
            if lv.loc <= tr[1]:
                p = []
                for s in lv.path:
                    if s[0] != 'f':
                        break
                    p.append(s)
                tr[0].add((lv.loc, tuple(p)))
        self.st.store[lv.loc] = self.put(self.st.store.get(lv.loc), lv.path, val)

    def range_of(self, tid):
        if tid is None:
            return None
        t = self.prog.t(tid)
        if t['k'] == 'int' or (t['k'] == 'enum' and 'w' in t):
            w, sg = t['w'], t['sg']
            if t['k'] == 'enum' and not t.get('isbits'):
                # scoped enums: enumerators only (assumed), std::byte: full range
                if t.get('en') and not t.get('q', '').startswith('std::'):
                    vs = [int(e[1]) for e in t['en']] + [0]
                    return (min(vs), max(vs))
            return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        return None

    def range_fact(self, v, tid):
        if not z3.is_expr(v) or v.sort() != I or z3.is_int_value(v):
            return
        r = self.range_of(tid)
        if r is None:
            return
        key = (v.get_id(), r)
        if key in self.st.seen:
            return
        self.st.seen.add(key)
        # keep v alive through pc
        self.assume(z3.And(v >= r[0], v <= r[1]))

    # -------------------------------------------------------------- fresh values per C++ type
    def mk(self, tid, name, depth=0):
        """fresh value of a C++ type"""
        t = self.prog.t(tid)
        k = t['k']
        if k == 'bool':
            return self.fresh(name, B)
        if k in ('int', 'enum'):
            v = self.fresh(name, I)
            self.range_fact(v, tid)
            return v
        if k == 'rec':
            return self.mk_rec(tid, t, name)
        if k == 'ptr':
            to = self.prog.t(t['to'])
            if to['k'] in ('int',) and to['w'] == 8 or (to['k'] == 'enum' and to['q'] == 'std::byte'):
                b = self.fresh(name + '_txt', Str)
                self.assume(slen(b) >= 0)
                return SPtr(b, iv(0), t['to'])
        if k == 'nullptr':
            return NullP()
        if k == 'arr':
            el = self.mk(t['to'], name + '_el')
            return Vec(iv(t['n']), lift_const(el, lambda s: self.fresh(name + '_arr', s)), t['to'])
        if k == 'float':
            return self.fresh(name, z3.RealSort())
        raise Unsupported('fresh value of type ' + t['s'])

    def mk_rec(self, tid, t, name):
        q = t['q']
        m = self.models.get(q)
        if m is not None:
            return m(self, tid, t, name)
        rec = self.prog.rec.get(t['id'])
        if rec and 'fields' in rec:
            f = {}
            for b in rec.get('bases', []):
                bt = self.prog.t(b)
                if self.prog.rec.get(bt.get('id'), {}).get('inscope') or bt['q'] in self.models:
                    bv = self.mk(b, name)
                    if isinstance(bv, Rec):
                        f.update(bv.f)
            for fl in rec['fields']:
                f[fl['n']] = self.mk(fl['t'], name + '.' + fl['n'])
            return Rec(q, f, t['id'])
        raise Unsupported('fresh value of class ' + t['s'])

    def targ(self, t, i):
        return t['ta'][i]['t']

    def fresh_like(self, v, name='h', keepbase=True):
        if isinstance(v, z3.ExprRef):
            if v.sort() == I:
                return self.fresh(name, I)
            r = self.fresh(name, v.sort())
            if v.sort() == Str:
                self.assume(slen(r) >= 0)
            return r
        if isinstance(v, SPtr):
            return SPtr(v.base if keepbase else self.fresh(name + '_b', Str), self.fresh(name, I), v.et)
        if isinstance(v, View):
            return View(v.base if keepbase else self.fresh(name + '_b', Str), self.fresh(name + 'o', I), self.fresh(name + 'n', I))
        if isinstance(v, Vec):
            n = self.fresh(name + 'n', I) if not z3.is_array(v.n) else self.fresh(name + 'n', v.n.sort())
            if n.sort() == I:
                self.assume(n >= 0)
            return Vec(n, mapleaf(v.arr, lambda a: self.fresh(name + 'a', a.sort())), v.et)
        if isinstance(v, (Ptr, BackIns, NullP, FnV, Unit)):
            return v
        if isinstance(v, Rec):
            return Rec(v.q, {k: self.fresh_like(x, name + '.' + k) for k, x in v.f.items()}, v.rid)
        if v is None:
            return None
        if isinstance(v, MapV):
            r = v.rebuild([mapleaf(x, lambda a: self.fresh(name, a.sort())) for x in v.leaves()])
            self.assume(r.n >= 0)
            return r
        return v.rebuild([self.fresh_like(x, name) if isinstance(x, z3.ExprRef) or x is not None else None for x in v.leaves()])

    # -------------------------------------------------------------- literals
    def lit(self, codes):
        if not codes:
            return sempty
        name = 'lit_' + '_'.join(str(c) for c in codes)
        s = z3.Const(name, Str)
        if name not in self.st.seen:
            self.st.seen.add(name)
            self.assume(z3.And([slen(s) == len(codes)] + [sat(s, i) == (c if c < 128 else c - 256) for i, c in enumerate(codes)]))
        return s

    def litstr(self, txt):
        return self.lit(list(txt.encode('latin-1')))

    def litcodes(self, term):
        if z3.is_const(term):
            n = term.decl().name()
            if n == 'sempty':
                return []
            if n.startswith('lit_'):
                return [int(x) for x in n[4:].split('_')]
        return None

    def sub(self, b, o, n):
        t = mksub(b, o, n)
        if t.num_args() == 3 and t.decl().name() == 'ssub':
            key = ('sub', t.get_id())
            if key not in self.st.seen:
                self.st.seen.add(key)
                self.assume(z3.Implies(z3.And(t.arg(1) >= 0, t.arg(2) >= 0, t.arg(1) + t.arg(2) <= slen(t.arg(0))),
                                       slen(t) == t.arg(2)))
        return t

    def vterm(self, v):
        """character sequence denoted by a string-like value"""
        if isinstance(v, View):
            return self.sub(v.base, v.off, v.n)
        if isinstance(v, z3.ExprRef) and v.sort() == Str:
            return v
        if isinstance(v, SPtr):   # zero-terminated literal
            c = self.litcodes(v.base)
            if c is not None and z3.is_int_value(simp(v.idx)) and simp(v.idx).as_long() == 0:
                return v.base
            if v.base.get_id() in getattr(self, 'zstr', {}) and z3.is_int_value(simp(v.idx)) and simp(v.idx).as_long() == 0:
                return v.base
        raise Unsupported('not a string: %s' % type(v).__name__)

    def cat(self, a, b):
        if a.eq(sempty):
            return b
        if b.eq(sempty):
            return a
        t = scat(a, b)
        key = ('cat', t.get_id())
        if key not in self.st.seen:
            self.st.seen.add(key)
            self.assume(slen(t) == slen(a) + slen(b))
            self.assume(z3.And(slen(a) >= 0, slen(b) >= 0))
        return t

    def unit(self, c):
        t = sunit(c)
        key = ('unit', t.get_id())
        if key not in self.st.seen:
            self.st.seen.add(key)
            self.assume(z3.And(slen(t) == 1, sat(t, 0) == c))
        return t

    def ztext(self, b):
        """mark a sequence as the text before the terminating zero of a C string"""
        self.zstr = getattr(self, 'zstr', {})
        self.zstr[b.get_id()] = b
        return b

    def as_view(self, v):
        if isinstance(v, View):
            return v
        t = self.vterm(v)
        return View(t, iv(0), slen(t))

    def streq(self, a, b):
        """formula: the two character sequences are equal"""
        for x, y in ((a, b), (b, a)):
            try:
                ty = self.vterm(y)
            except Unsupported:
                continue
            c = self.litcodes(ty)
            if c is not None:
                v = self.as_view(x)
                return z3.And([v.n == len(c)] + [sat(v.base, v.off + i) == (k if k < 128 else k - 256) for i, k in enumerate(c)])
        return seqeq(self.vterm(a), self.vterm(b))

    # -------------------------------------------------------------- structural equality goals
    def eqf(self, a, b, skolem=True):
        """list of (suffix, formula) whose conjunction says the two values are equal"""
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == Str:
                return [('', seqeq(a, b))]
            return [('', a == b)]
        if isinstance(a, View) or isinstance(b, View):
            return [('', self.streq(a, b))]
        if isinstance(a, Rec):
            r = []
            for k in a.f:
                r += [('.' + k + s, f) for s, f in self.eqf(a.f[k], b.f[k], skolem)]
            return r
        if isinstance(a, Opt):
            return [('.has', a.has == b.has)] + [('.val' + s, z3.Implies(a.has, f)) for s, f in self.eqf(a.val, b.val, skolem)]
        if isinstance(a, Exp):
            return [('.has', a.has == b.has)] + \
                   ([] if a.val is None else [('.val' + s, z3.Implies(a.has, f)) for s, f in self.eqf(a.val, b.val, skolem)]) + \
                   ([] if a.err is None else [('.err' + s, z3.Implies(z3.Not(a.has), f)) for s, f in self.eqf(a.err, b.err, skolem)])
        if isinstance(a, Vec):
            i = self.fresh('sk', I)
            ea, eb = self.sel(a, ('i', i)), self.sel(b, ('i', i))
            fs = self.eqf(ea, eb, skolem)
            r = [('.size', a.n == b.n)]
            for s, f in fs:
                g = z3.Implies(z3.And(i >= 0, i < a.n), f)
                r.append(('[i]' + s, g if skolem else z3.ForAll([i], g)))
            return r
        if isinstance(a, SPtr):
            return [('.base', a.base == b.base), ('.idx', a.idx == b.idx)]
        if isinstance(a, (Unit, NullP)) or a is None:
            return []
        raise Unsupported('eqf %s' % type(a).__name__)


def stored(a, i, e):
    if z3.is_select(e) and e.arg(0).eq(a) and e.arg(1).eq(i):
        return a
    return z3.Store(a, i, e)


class Giveup(Exception):
    pass
