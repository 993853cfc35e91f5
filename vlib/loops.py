"""Loop rule: modified-set discovery, havoc, candidate invariants (Houdini), final obligations, termination measure."""
import z3, time, os
from sym import *
from engine import *


DBG = os.environ.get('VDBG')


class Cell:
    """one modified storage cell at a loop head"""
    def __init__(self, loc, path, val, name, tid=None):
        self.loc, self.path, self.val, self.name, self.tid = loc, path, val, name, tid
        self.lv = LV(loc, path)


class S:
    """a state in which candidates are evaluated"""
    def __init__(self, lc, st, k):
        self.lc, self.st, self.k = lc, st, k

    def get(self, cell):
        X = self.lc.X
        sv, fs = X.st, X.fs
        X.st, X.fs = self.st, None
        try:
            return X.read(cell.lv if isinstance(cell, Cell) else cell)
        finally:
            X.st, X.fs = sv, fs

    def term(self, v):
        """character sequence of a string-like value, with definitional facts in this state"""
        X = self.lc.X
        sv, fs = X.st, X.fs
        X.st, X.fs = self.st, None
        try:
            return X.vterm(v)
        finally:
            X.st, X.fs = sv, fs


class LoopCtx:
    def __init__(self, X, node, entry, cells):
        self.X, self.node, self.entry, self.cells = X, node, entry, cells
        self.cands = []
        self.facts = []

    def add(self, name, fn):
        self.cands.append((name, fn))

    def fact(self, fn):
        self.facts.append(fn)

    def e(self, cell):
        return S(self, self.entry, iv(0)).get(cell)

    def of(self, cls):
        return [c for c in self.cells if isinstance(c.val, cls)]

    def ints(self):
        return [c for c in self.cells if isinstance(c.val, z3.ExprRef) and c.val.sort() == I]

    def bools(self):
        return [c for c in self.cells if isinstance(c.val, z3.ExprRef) and c.val.sort() == B]

    def strs(self):
        return [c for c in self.cells if isinstance(c.val, z3.ExprRef) and c.val.sort() == Str]

    def named(self, suffix):
        """modified cells whose field path ends with a given member name"""
        return [c for c in self.cells if c.path and c.path[-1] == ('f', suffix)]


def cell_name(X, loc, path):
    return 'm%d%s' % (loc, ''.join('.' + s[1] for s in path))


def split_cells(X, st, mods):
    out = []

    def rec(loc, path, v):
        if isinstance(v, Rec) and not any(k.startswith('#') for k in v.f):
            for k, x in v.f.items():
                rec(loc, path + (('f', k),), x)
        elif v is None or isinstance(v, (Unit,)):
            pass
        else:
            out.append(Cell(loc, path, v, cell_name(X, loc, path)))
    for loc, path in sorted(mods, key=lambda x: (x[0], str(x[1]))):
        # drop if a prefix is also modified
        if any((loc, path[:i]) in mods for i in range(len(path))):
            continue
        v = st.store.get(loc)
        for s in path:
            v = X.sel(v, s) if v is not None else None
        if v is None:
            continue
        rec(loc, path, v)
    return out


def intlike(v):
    """integer-valued projections of a cell value: [(name, term)]"""
    if isinstance(v, z3.ExprRef):
        if v.sort() == I:
            return [('', v)]
        if v.sort() == Str:
            return [('.len', slen(v))]
        return []
    if isinstance(v, SPtr):
        return [('.idx', v.idx)]
    if isinstance(v, View):
        return [('.off', v.off), ('.n', v.n)]
    if isinstance(v, Vec):
        return [('.n', v.n)] if z3.is_expr(v.n) and v.n.sort() == I else []
    if isinstance(v, VIter_types()):
        return [('.idx', v.idx)]
    if isinstance(v, MapV):
        return [('.n', v.n)]
    return []


def VIter_types():
    return (VIter,)


def default_pool(lc):
    X = lc.X
    for c in lc.cells:
        e0 = c.val if False else lc.e(c)
        if isinstance(c.val, z3.ExprRef) and c.val.sort() == B:
            lc.add('%s unchanged' % c.name, lambda s, c=c, e0=e0: s.get(c) == e0)
            continue
        # never moved: string/opaque cells unchanged
        if isinstance(c.val, z3.ExprRef) and c.val.sort() not in (I, B):
            lc.add('%s unchanged' % c.name, lambda s, c=c, e0=e0: s.get(c) == e0)
        ps0 = intlike(e0)
        for j, (nm, t0) in enumerate(ps0):
            for d in (1, -1):
                lc.add('%s%s == init%+d*k' % (c.name, nm, d), lambda s, c=c, j=j, t0=t0, d=d: intlike(s.get(c))[j][1] == t0 + d * s.k)
            lc.add('%s%s == init' % (c.name, nm), lambda s, c=c, j=j, t0=t0: intlike(s.get(c))[j][1] == t0)
            lc.add('%s%s >= init' % (c.name, nm), lambda s, c=c, j=j, t0=t0: intlike(s.get(c))[j][1] >= t0)
            lc.add('%s%s <= init' % (c.name, nm), lambda s, c=c, j=j, t0=t0: intlike(s.get(c))[j][1] <= t0)
            lc.add('%s%s >= 0' % (c.name, nm), lambda s, c=c, j=j: intlike(s.get(c))[j][1] >= 0)
        if isinstance(c.val, SPtr):
            lc.add('%s <= end' % c.name, lambda s, c=c: s.get(c).idx <= slen(s.get(c).base))
        if isinstance(c.val, View):
            lc.add('%s within base' % c.name, lambda s, c=c: s.get(c).off + s.get(c).n <= slen(s.get(c).base))
            lc.add('%s suffix' % c.name, lambda s, c=c, e0=e0: s.get(c).off + s.get(c).n == e0.off + e0.n)
        if isinstance(c.val, VIter):
            def vend(s, c=c):
                it = s.get(c)
                cont = s.get(it.lv)
                return it.idx <= (cont.n if isinstance(cont, (Vec, MapV)) else slen(cont))
            lc.add('%s <= size' % c.name, vend)
    # pairwise orders between same-kind cells, and against other scope values
    sc = scope_values(lc)
    for c in lc.cells:
        for j, (nm, _) in enumerate(intlike(c.val)):
            for (on, getter, kind, base) in sc:
                if isinstance(c.val, SPtr):
                    if kind != 'sptr' or not base.eq(c.val.base):
                        continue
                elif isinstance(c.val, View):
                    continue
                elif kind != 'int' or not isinstance(c.val, z3.ExprRef) or c.val.sort() != I:
                    continue
                lc.add('%s%s <= %s' % (c.name, nm, on), lambda s, c=c, j=j, g=getter: intlike(s.get(c))[j][1] <= g(s))
                lc.add('%s%s >= %s' % (c.name, nm, on), lambda s, c=c, j=j, g=getter: intlike(s.get(c))[j][1] >= g(s))
    cs = [c for c in lc.cells if isinstance(c.val, SPtr)]
    for a in cs:
        for b in cs:
            if a is not b and a.val.base.eq(b.val.base):
                lc.add('%s <= %s' % (a.name, b.name), lambda s, a=a, b=b: s.get(a).idx <= s.get(b).idx)
    ci = lc.ints()
    if len(ci) <= 4:
        for a in ci:
            for b in ci:
                if a is not b:
                    lc.add('%s <= %s' % (a.name, b.name), lambda s, a=a, b=b: s.get(a) <= s.get(b))


def scope_values(lc):
    """unmodified integer / pointer values visible in the current frame (and *this)"""
    X = lc.X
    out = []
    st = lc.entry
    fr = st.frames[-1]
    modlocs = {(c.loc, c.path) for c in lc.cells}

    def visit(loc, path, v, name):
        if (loc, path) in modlocs:
            return
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            out.append((name, lambda s, l=LV(loc, path): s.get(l), 'int', None))
        elif isinstance(v, SPtr):
            out.append((name, lambda s, l=LV(loc, path): s.get(l).idx, 'sptr', v.base))
        elif isinstance(v, (View, Vec)):
            out.append((name + '.n', lambda s, l=LV(loc, path): s.get(l).n, 'int', None))
        elif isinstance(v, z3.ExprRef) and v.sort() == Str:
            out.append((name + '.len', lambda s, l=LV(loc, path): slen(s.get(l)), 'int', None))
        elif isinstance(v, Rec):
            for k, x in v.f.items():
                visit(loc, path + (('f', k),), x, name + '.' + k)
    lvs = [v for v in fr.vars.values() if isinstance(v, LV)]
    if isinstance(fr.this, LV):
        lvs.append(fr.this)
    seen = set()
    for l in lvs:
        if l.loc in seen and not l.path:
            continue
        if any(s[0] != 'f' for s in l.path):
            continue
        v = st.store.get(l.loc)
        try:
            for s in l.path:
                v = X.sel(v, s)
        except Exception:
            continue
        seen.add(l.loc)
        visit(l.loc, l.path, v, 'v%d' % l.loc)
    return out[:14]


def havoc(X, mods, rebased, entry):
    """havoc the modified cells in the current state"""
    cells = split_cells(X, entry, mods)
    for c in cells:
        nv = X.fresh_like(c.val, c.name, keepbase=(c.loc, c.path) not in rebased)
        X.st.store[c.loc] = X.put(X.st.store[c.loc], c.path, nv)
        c.val = nv
        if isinstance(nv, z3.ExprRef) and nv.sort() == I:
            tid = cell_type(X, c)
            c.tid = tid
            if tid is not None:
                X.range_fact(nv, tid)
    return cells


def cell_type(X, c):
    tid = X.st.ltypes.get(c.loc)
    if tid is None:
        return None
    tid = X.prog.strip(tid)
    for s in c.path:
        t = X.prog.t(tid)
        if t['k'] != 'rec':
            return None
        ft = X.field_type(t['id'], s[1])
        if ft is None:
            return None
        tid = X.prog.strip(ft)
    return tid


def same_anchor(X, st, c, head):
    """pointer-like cell still anchored at the same object after an iteration"""
    v = st.store.get(c.loc)
    for s in c.path:
        v = X.sel(v, s)
    h = c.val
    if isinstance(h, (SPtr, View)):
        if not isinstance(v, type(h)):
            raise Unsupported('pointer cell changes kind in loop')
        return v.base.eq(h.base)
    if isinstance(h, VIter):
        return isinstance(v, VIter) and v.lv.loc == h.lv.loc and len(v.lv.path) == len(h.lv.path)
    if isinstance(h, Ptr):
        return isinstance(v, Ptr) and v.lv is h.lv
    return True


def vsame(a, b):
    """structurally the same value"""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, VIter):
        return a.lv.loc == b.lv.loc and a.lv.path == b.lv.path and vsame(a.idx, b.idx)
    if isinstance(a, Rec):
        return a.q == b.q and list(a.f) == list(b.f) and all(vsame(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, (View, SPtr, Vec, Opt, Exp, MapV)):
        la, lb = a.leaves(), b.leaves()
        return len(la) == len(lb) and all(vsame(x, y) for x, y in zip(la, lb))
    return False


def changed(X, head, back, loc, path):
    """is the cell different at the end of some iteration that goes on?"""
    def at(st):
        v = st.store[loc]
        for s in path:
            v = X.sel(v, s)
        return v
    try:
        h = at(head)
        return any(not vsame(h, at(s)) for s in back)
    except Exception:
        return True


def analyse(X, node, cond, body, inc, post):
    entry = X.st.clone()
    nloc0 = entry.nloc
    one = lambda: X.one_iter(cond, body, inc, post)
    mods, rebased = set(), set()

    def headstate():
        st = entry.clone()
        X._setstate(st)
        cells = havoc(X, mods, rebased, entry)
        k = X.fresh('k', I)
        X.assume(k >= 0)
        return X.st, cells, k

    # 1. what does one iteration modify (fixpoint)
    for _ in range(12):
        st, cells, k = headstate()
        head0 = st.clone()
        tr = (set(), nloc0)
        X.trackers.append(tr)
        X.mute += 1
        try:
            res = X.explore(one, st)
        finally:
            X.mute -= 1
            X.trackers.pop()
        backs = [s2 for kind, pl, s2 in res if kind in ('normal', 'continue')]
        new = {(l, p) for (l, p) in tr[0] if (l, p) in mods or changed(X, head0, backs, l, p)}
        # rebased pointers
        reb = set()
        for kind, pl, s2 in res:
            if kind in ('normal', 'continue'):
                for c in cells:
                    if not same_anchor(X, s2, c, st):
                        if isinstance(c.val, (SPtr, View)):
                            reb.add((c.loc, c.path))
                        else:
                            raise Unsupported('pointer variable re-targeted in loop')
        if new <= mods and reb <= rebased:
            break
        mods |= new
        rebased |= reb
    else:
        raise Unsupported('loop modification analysis did not converge')
    back = [r for r in res if r[0] in ('normal', 'continue')]
    # 2. candidates
    st, cells, k = headstate()
    lc = LoopCtx(X, node, entry, cells)
    if back:
        for pool in X.pools_for(node):
            pool(lc)
        default_pool(lc)
    X._setstate(entry.clone())
    for fct in lc.facts:
        for g in fct(S(lc, X.st, iv(0))):
            X.assume(g)
    live = []
    for nm, f in lc.cands:
        es = X.st.clone()
        try:
            g = f(S(lc, es, iv(0)))
        except Inapplicable:
            continue
        ok = X.houdini_check(es.pc, g)
        if ok:
            live.append((nm, f))
        elif DBG:
            print('  init drop', nm)
    # 3. Houdini
    def assume_live(st, cells, k):
        X._setstate(st)
        for fct in lc.facts:
            for g in fct(S(lc, X.st, k)):
                X.assume(g)
        for nm, f in live:
            X.assume(f(S(lc, X.st, k)))
        return X.st

    rounds = 0
    while back and live:
        rounds += 1
        st, cells, k = headstate()
        lc.cells_head = cells
        st = assume_live(st, cells, k)
        X.mute += 1
        try:
            res = X.explore(one, st)
        finally:
            X.mute -= 1
        dead = set()
        for kind, pl, s2 in res:
            if kind not in ('normal', 'continue'):
                continue
            X._setstate(s2)
            extra = []
            for fct in lc.facts:
                extra += fct(S(lc, X.st, k + 1))
            for x in extra:
                X.assume(x)
            sol = None
            for i, (nm, f) in enumerate(live):
                if i in dead:
                    continue
                g = f(S(lc, X.st, k + 1))
                if not X.houdini_check(X.st.pc, g):
                    dead.add(i)
                    if DBG:
                        print('  round', rounds, 'drop', nm)
                        if DBG in nm:
                            print('GOAL', g, '\nPC\n  ', '\n  '.join(str(x)[:300] for x in X.st.pc))
                            sv = z3.Solver()
                            for x in list(X.axioms) + list(X.st.pc) + [z3.Not(g)]:
                                sv.add(x)
                            open('/tmp/dbg.smt2', 'w').write(sv.to_smt2())
        if not dead:
            break
        live = [x for i, x in enumerate(live) if i not in dead]
        if rounds > 25:
            raise Unsupported('Houdini did not converge')
    # 4. final exploration with obligations
    st, cells, k = headstate()
    st = assume_live(st, cells, k)
    head = st.clone()
    res = X.explore(one, st)
    exits = []
    measures = None
    if not X.mute and not X._replaying():
        for nm, f in live:
            X.obligs.append(Oblig('loop invariant (init+step): ' + nm, X.top, X.line, True, '', 'z3', 0))
    for kind, pl, s2 in res:
        if kind in ('normal', 'continue'):
            if not X.mute and not X._replaying():
                m = term_measures(X, lc, head, cells, s2)
                measures = m if measures is None else [a for a in measures if a in m]
        else:
            exits.append((kind if kind != 'break' else 'normal', pl, s2))
    if measures is not None:
        if measures:
            X.obligs.append(Oblig('loop terminates: measure ' + measures[0], X.top, X.line, True, '', 'z3', 0))
        else:
            X.nonterm.append((X.top, X.line))
    X.loopinfo.append((X.top, X.line, [nm for nm, _ in live]))
    X._setstate(entry)
    # keep symbol counters monotone
    mx = max([s2.ctr for _, _, s2 in res] + [entry.ctr])
    ml = max([s2.nloc for _, _, s2 in res] + [entry.nloc])
    for _, _, s2 in exits:
        s2.ctr, s2.nloc = mx, ml
    return exits


class Inapplicable(Exception):
    pass


def term_measures(X, lc, head, cells, s2):
    """names of candidate measures that decrease and are bounded below on this back edge"""
    ms = {}
    hs = S(lc, head, None)
    ns = S(lc, s2, None)
    sc = [(n, g) for n, g, kind, b in scope_values(lc) if kind == 'int']
    for c in cells:
        for j, (nm, _) in enumerate(intlike(c.val)):
            ms[c.name + nm] = lambda s, c=c, j=j: intlike(s.get(c))[j][1]
            if isinstance(c.val, SPtr):
                ms['end-' + c.name] = lambda s, c=c: slen(s.get(c).base) - s.get(c).idx
            if isinstance(c.val, VIter):
                def m(s, c=c):
                    it = s.get(c)
                    ct = s.get(it.lv)
                    return (ct.n if isinstance(ct, (Vec, MapV)) else slen(ct)) - it.idx
                ms['size-' + c.name] = m
            if isinstance(c.val, z3.ExprRef) and c.val.sort() == I:
                rg = X.range_of(cell_type(X, c))
                if rg:
                    ms['max-' + c.name] = lambda s, c=c, rg=rg: rg[1] - s.get(c)
                for n, g in sc:
                    ms['%s-%s' % (n, c.name)] = lambda s, c=c, g=g: g(s) - s.get(c)
    for n, f in getattr(lc, 'measures', []):
        ms[n] = f
    ok = []
    for n, f in ms.items():
        try:
            a, b = f(hs), f(ns)
        except Exception:
            continue
        if X.houdini_check(s2.pc, z3.And(b < a, a >= 0)):
            ok.append(n)
    return ok
