"""helper: seed(name, prop, [(file, old, new)...], needs, breaks, demo_cpp) writes /verif/seeded/<name> (development aid)"""
import os, subprocess, json, tempfile, shutil
BO = ' -I/verif-unused'
def seed(name, prop, edits, needs, breaks, demo, libs='-lfmt', boost=False):
    d = '/verif/seeded/' + name
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'], check=True)
    for f, old, new in edits:
        p = '%s/w/include/fitoria/%s' % (t, f)
        s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', t + '/w', 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'], check=True)
    shutil.rmtree(t)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds on the demonstrated case; cwd is the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++-13 -std=c++20 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -w -DFITORIA_HAS_FMT -Iinclude -I"$D" "$D/demo.cpp" -o "$T/demo" %s || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''' % libs)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
