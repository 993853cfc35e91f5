"""Checks: extraction, targets, lemmas, parallel verification."""
import sys, os, subprocess, time, json, hashlib, traceback
import multiprocessing as mp
import z3
from sym import *
from engine import *
from interp import *
import stdmodel
import fitmodel
import mapmodel
import contract as C
from contract import Contract, Verifier, FnResult, Cx

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FITORIA_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')


def flags(boost):
    f = ['-std=c++20', '-I' + REPO + '/include', '-DFITORIA_HAS_FMT', '-Wno-everything']
    if boost:
        f = ['-I' + BUILD + '/ov'] + f
    return f


def extract(tu, boost=False, out=None, defs=()):
    """re-extract the bodies from the current tree; returns Prog"""
    out = out or os.path.join(BUILD, 'x_%s_%d.json' % (tu, os.getpid()))
    cmd = [os.path.join(BUILD, 'extract'), out, os.path.join(ROOT, 'tu', tu + '.cpp'), REPO + '/include', '--',
           '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + flags(boost) + list(defs)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise ExtractError((r.stderr or r.stdout)[-3000:])
    p = Prog(out)
    os.unlink(out)
    return p


class ExtractError(Exception):
    pass


class Target:
    """a function of /repo under contract"""
    def __init__(self, con, match=None, min=1, pools=None, handlers=None, models=None, timeout=None, label=None, axioms=None):
        self.con, self.match, self.min = con, match, min
        self.axioms = axioms      # a smaller axiom set tried first (the full one is used on the second pass)
        self.pools, self.handlers, self.models, self.timeout, self.label = pools, handlers, models, timeout, label


class Lemma:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Unit_:
    """one translation unit with contracts"""
    def __init__(self, tu, boost=False, contracts=(), targets=(), lemmas=(), handlers=None, models=None, axioms=(),
                 pools=None, defs=(), notes=()):
        self.notes = list(notes)
        self.tu, self.boost = tu, boost
        self.contracts, self.targets, self.lemmas = list(contracts), list(targets), list(lemmas)
        self.handlers, self.models, self.axioms, self.pools = handlers or {}, models or {}, list(axioms), pools or {}
        self.defs = defs


_G = {}
EFFORT = 1


def mkverifier(unit, prog, tgt=None, tier='quick'):
    cons = {}
    for c in unit.contracts:
        cons.setdefault(c.q, []).append(c)
    models = dict(stdmodel.MODELS)
    models.update(unit.models)
    hs = dict(stdmodel.H)
    hs.update(unit.handlers)
    if tgt is not None:
        hs.update(tgt.handlers or {})
        models.update(tgt.models or {})
    hs = {k: v for k, v in hs.items() if v is not None}
    models = {k: v for k, v in models.items() if v is not None}
    v = Verifier(prog, cons, models, stdmodel.axioms() + list(tgt.axioms if tgt is not None and tgt.axioms is not None and EFFORT == 1 else unit.axioms), timeout=(tgt and tgt.timeout) or 10000, tier=tier)
    v.handlers = hs
    v.pools = dict(unit.pools)
    if tgt is not None and tgt.pools:
        v.pools.update(tgt.pools)
    return v


def _job(a):
    ui, kind, ti, fid = a
    sys.setrecursionlimit(20000)
    unit, prog, dbg, tier = _G['units'][ui], _G['progs'][ui], _G['dbg'], _G['tier']
    if kind == 'lemma':
        return (a, run_lemma(unit, prog, unit.lemmas[ti], tier))
    t = unit.targets[ti]
    v = mkverifier(unit, prog, t, tier)
    v.debug = dbg
    v.effort = EFFORT
    v.timeout *= min(EFFORT, 3)
    v.deadline = time.time() + (_G.get('budget') or 240)
    r = v.verify(prog.fn[fid], t.con)
    r.tu = unit.tu
    for o in r.obligs:
        if o.pc is not None and dbg:
            o.why = (o.why or '')[:400] + '\nGOAL ' + str(o.goal)[:1500] + '\nPC\n  ' + '\n  '.join(str(x)[:400] for x in o.pc)
        o.pc = o.goal = None
    return (a, r)


def run_lemma(unit, prog, lem, tier):
    r = FnResult('lemma: ' + lem.name, 'lemma')
    r.tu = unit.tu
    v = mkverifier(unit, prog, None, tier)
    v.top = r.name
    t0 = time.time()
    try:
        st = State()
        v._setstate(st)
        for lab, goal in lem.fn(v):
            v.prove(lab, goal)
        ok, _, _, _ = v.solve([], z3.BoolVal(False), timeout=2000)
        if ok:
            r.error = 'the axioms are contradictory'
    except Giveup:
        pass
    except Exception as ex:
        r.error = 'lemma could not be evaluated: %s %s' % (type(ex).__name__, ex)
        if _G.get('dbg'):
            traceback.print_exc()
    for o in v.obligs:
        if o.pc is not None and _G.get('dbg'):
            o.why = (o.why or '')[:400] + '\nGOAL ' + str(o.goal)[:1500]
        o.pc = o.goal = None
    r.obligs = v.obligs
    r.reach = r.paths = 1
    r.secs = time.time() - t0
    r.by = dict(v.stats.by)
    r.queries = v.stats.queries
    return r


def run_units(units, dbg=False, tier='quick', only=None, procs=8, budget=240):
    """extract and verify; returns (results, errors)"""
    progs, errors, jobs = [], [], []
    from concurrent.futures import ThreadPoolExecutor

    def ex(u):
        try:
            return extract(u.tu, u.boost, defs=u.defs)
        except ExtractError as e:
            return e
    uniq = {}
    for u in units:
        uniq.setdefault((u.tu, u.boost, tuple(u.defs)), u)
    with ThreadPoolExecutor(4) as tp:
        got = dict(zip(uniq.keys(), tp.map(ex, uniq.values())))
    ps = [got[(u.tu, u.boost, tuple(u.defs))] for u in units]
    for ui, (u, p) in enumerate(zip(units, ps)):
        if isinstance(p, ExtractError):
            errors.append('extraction of tu/%s.cpp failed: %s' % (u.tu, str(p)[:1500]))
            progs.append(None)
            continue
        progs.append(p)
        for ti, t in enumerate(u.targets):
            if only and not any(o in t.con.name for o in only):
                continue
            fs = [f for f in p.find(t.con.q) if (t.match is None or t.match(p, f)) and t.con.match(None, f) and f.get('inscope', True)]
            fs = dedupe(p, fs)
            if len(fs) < t.min:
                errors.append('function under contract not found in the current tree: %s (found %d, expected at least %d)' % (t.con.name, len(fs), t.min))
            for f in fs:
                jobs.append((ui, 'fn', ti, f['id']))
        for li, l in enumerate(u.lemmas):
            if only and not any(o in l.name for o in only):
                continue
            jobs.append((ui, 'lemma', li, 0))
    _G.update(units=units, progs=progs, dbg=dbg, tier=tier, budget=budget)
    res = []
    if jobs and procs == 1:
        for j in jobs:
            res.append(_job(j)[1])
    elif jobs:
        with mp.get_context('fork').Pool(min(procs, len(jobs))) as pool:
            for a, r in pool.imap_unordered(_job, jobs):
                res.append(r)
    return res, errors


def dedupe(p, fs):
    return fs


def show(r, verbose=True):
    bad = r.failed()
    print('%-4s %-60s %3d/%3d obl  %d paths (%d reach) %.1fs %s' % ('OK' if not bad and not r.error else 'FAIL', r.name + ' ' + r.loc,
          len(r.obligs) - len(bad), len(r.obligs), r.paths, r.reach, r.secs, r.by))
    if '-s' in sys.argv:
        for o in sorted(r.obligs, key=lambda o: -o.secs)[:6]:
            print('       %.1fs %s %s' % (o.secs, o.solver, o.label))
    if r.error:
        print('     ERROR', r.error)
    for o in bad:
        print('     FAILED %s (line %s) %.1fs: %s' % (o.label, o.line, o.secs, (o.why or '')[:6000]))


def main_dev(argv):
    import importlib
    mod = importlib.import_module('props.' + argv[0])
    only = [a for a in argv[1:] if not a.startswith('-')]
    t0 = time.time()
    res, errs = run_units(mod.UNITS, dbg='-d' in argv, only=only, procs=1 if '-1' in argv else 8)
    for e in errs:
        print('ERR', e)
    for r in sorted(res, key=lambda r: r.loc):
        show(r)
        if '-l' in argv:
            for t, l, n in r.loops:
                print('       loop %s: %s' % (l, n))
        if '-a' in argv:
            print('       assumed', sorted(r.assumed), 'inlined', sorted(r.inlined), 'used', sorted(r.used))
    print('total %.1fs' % (time.time() - t0))
