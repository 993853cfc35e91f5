#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: verify every function the property depends on, from /repo's current tree."""
import sys, os, time, json, subprocess, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
sys.setrecursionlimit(20000)
from base import *
import registry

GENERAL = [
    'clang 18 front end: name lookup, overload resolution, template instantiation and constant folding are taken from its AST; g++ is assumed to give the same meaning',
    'the extractor (tools/extract.cpp) and the verification-condition generator (vlib/*.py) are trusted',
    'z3 and cvc5 are trusted when they answer unsat',
    'containers and texts are shorter than 2^60 elements; memory allocation succeeds',
    'machine integers: unsigned wrap-around and narrowing are modelled exactly, signed overflow is an obligation',
    'objects reached through different references do not alias unless the contract says so',
    'template code is verified for the instantiations listed in tu/*.cpp',
]


def compile_replay(name, boost):
    src = os.path.join(ROOT, 'replay', name + '.cpp')
    out = os.path.join(BUILD, 'replay_%s_%d' % (name, os.getpid()))
    cmd = ['g++-13', '-std=c++20', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all'] + \
        [f for f in flags(boost) if f != '-Wno-everything'] + ['-w', '-I' + os.path.join(ROOT, 'replay'), src, '-o', out, '-lfmt', '-lpthread']
    if boost:
        cmd += ['-lboost_url', '-lboost_system']
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=280)
    return (out if r.returncode == 0 else None), ' '.join(cmd), r.stderr[-3000:]


def replay(name, boost, log):
    """search for a concrete failing input on the real code; returns (found, text)"""
    if not name or not os.path.exists(os.path.join(ROOT, 'replay', name + '.cpp')):
        return False, 'no replay harness'
    try:
        exe, cmd, err = compile_replay(name, boost)
    except subprocess.TimeoutExpired:
        return False, 'the replay harness did not compile in time'
    if exe is None:
        return False, 'the replay harness does not compile against this tree:\n' + cmd + '\n' + err
    try:
        env = dict(os.environ)
        env.setdefault('VERIF_SEED', '1')
        scratch = os.path.join(BUILD, 'scratch_%d' % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        r = subprocess.run([exe, log], capture_output=True, text=True, errors='replace', timeout=180, cwd=scratch, env=env)
        txt = 'built by: %s\nexit %d\n%s\n%s' % (cmd, r.returncode, r.stdout[-6000:], r.stderr[-6000:])
        return 'FAILING-INPUT' in r.stdout, txt
    except subprocess.TimeoutExpired as e:
        return False, 'replay harness: time limit'
    finally:
        os.unlink(exe)
        subprocess.run(['rm', '-rf', os.path.join(BUILD, 'scratch_%d' % os.getpid())])


def close(units):
    """every contract used must itself be discharged in this run: iterate to a fixpoint"""
    done, res, errs = set(), [], []
    for u in units:
        for t in u.targets:
            done.add((u.tu, t.con.name))
    r, e = run_units(units, tier=tier, budget=budget)
    res += r
    errs += e
    for _ in range(6):
        more = []
        used = set()
        for x in res:
            used |= {(x.tu, n) for n in x.used}
        for u in units:
            ts = []
            for c in u.contracts:
                if (u.tu, c.name) in used and (u.tu, c.name) not in done and not c.assumed:
                    ts.append(Target(c, pools=u.pools))
                    done.add((u.tu, c.name))
            if ts:
                more.append(Unit_(u.tu, u.boost, u.contracts, ts, (), u.handlers, u.models, u.axioms, u.pools, u.defs))
        if not more:
            break
        r, e = run_units(more, tier=tier, budget=budget)
        res += r
        errs += e
    return res, errs


def main():
    global tier, budget
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = 300 if tier == 'quick' else 1500
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replay_out'), exist_ok=True)
    rp = os.path.join(ROOT, 'replay_out', pid + '.txt')
    if not os.path.exists(os.path.join(BUILD, 'extract')):
        subprocess.run(['bash', os.path.join(ROOT, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    units, harness = registry.get(pid)
    boost = any(u.boost for u in units)
    def judge(res, errs):
        bad = [(r, o) for r in res for o in r.failed()]
        failed = list(errs)
        for r in res:
            if r.error:
                failed.append('%s (%s): obligation "the body satisfies its contract" is not discharged: %s' % (r.name, r.loc, r.error))
        for r, o in bad:
            failed.append('%s (%s): obligation "%s" near line %s is not discharged' % (r.name, r.loc, o.label, o.line))
        return bad, failed

    import base
    base.EFFORT = 1
    res, errs = close(units)
    bad, failed = judge(res, errs)
    found, txt = False, ''
    if failed:
        found, txt = replay(harness, boost, pid)
        if not found and bad and not errs and not any(r.error for r in res):
            # no concrete input: spend a larger solver budget before calling a close obligation undischarged
            base.EFFORT = 4
            res, errs = close(units)
            bad, failed = judge(res, errs)
    obl = sum(len(r.obligs) for r in res)
    if obl == 0 and not failed:
        failed.append('no obligation was generated (vacuous run)')
        found, txt = replay(harness, boost, pid)
    hres = None
    if tier == 'thorough' and not failed:
        found, txt = replay(harness, boost, pid)
        hres = txt.strip().split('\n')[-1]
        if found:
            failed.append('every obligation is discharged but the replay harness found a failing input')
            open(rp, 'w').write(txt)
    if failed:
        with open(rp, 'w') as f:
            f.write('property %s, tree %s\n\nUndischarged obligations:\n' % (pid, REPO))
            for x in failed:
                f.write('  - ' + x + '\n')
            f.write('\nVerifier output:\n')
            for r, o in bad:
                f.write('  %s | %s | %s\n' % (r.name, o.label, (o.why or '')[:4000]))
            f.write('\nReplay on the real code (replay/%s.cpp):\n%s\n' % (harness, txt))
            f.write('\nRerun: cd /verif && python3-vt check.py %s %s\n' % (pid, tier))
        for x in failed[:12]:
            print('  ' + x)
        if found:
            for l in txt.split('\n'):
                if l.startswith('FAILING-INPUT') or l.startswith('  observed'):
                    print('  ' + l)
    by = {}
    for r in res:
        for k, v in r.by.items():
            by[k] = by.get(k, 0) + v
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obl + len(errs), 'discharged': obl - len(bad),
            'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
            'trusted_base': GENERAL + ['assumed contract: ' + a for a in sorted(set().union(*[r.assumed for r in res]) if res else [])],
            'functions_under_contract': sorted({'%s (%s)' % (r.name, r.loc) for r in res if r.loc != 'lemma'}),
            'functions_inlined_into_them': sorted(set().union(*[r.inlined for r in res]) if res else []),
            'lemmas': sorted(r.name for r in res if r.loc == 'lemma'),
            'verified_instances': len(res),
            'discharged_by': by,
            'solver_queries': sum(r.queries for r in res),
            'verification_cpu_s': round(sum(r.secs for r in res), 1),
            'reachable_paths_to_postconditions': sum(r.reach for r in res),
            'loops_with_inferred_invariants': sum(len(r.loops) for r in res),
        },
        'assumptions': GENERAL + sorted(set(sum([list(u.notes) for u in units], []))),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if failed else 0,
    }
    if hres:
        ev['coverage']['replay_harness'] = hres
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    if failed:
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(rp, ROOT), '' if found else ' no-failing-input-found'))
        sys.exit(1)
    print('%s: %d obligations discharged, %d functions under contract, %.1fs' % (pid, obl, len(ev['coverage']['functions_under_contract']), time.time() - t0))


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception as ex:
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        p = os.path.join(ROOT, 'replay_out', pid + '.txt')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('the verifier stopped before discharging the obligations of %s:\n%s' % (pid, traceback.format_exc()))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.relpath(p, ROOT)))
        sys.exit(1)
