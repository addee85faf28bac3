#!/usr/bin/env python3
"""tools/seeds.py [id...]: (re)creates seeded/<id>/ from the definitions in tools/seeds_data.py."""
import os, sys, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
H = 'libs/cmdr11/include/cmdr11/'
def seed(id, prop, edits, needs, breaks, demo, flags='', libs=''):
    SEEDS.append((id, prop, edits, needs, breaks, demo, flags, libs))
exec(open(V + '/tools/seeds_data.py').read())
only = sys.argv[1:]
for id, prop, edits, needs, breaks, demo, flags, libs in SEEDS:
    if only and id not in only: continue
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call('git -C ' + os.environ.get('SRC', '/repo') + ' archive HEAD | tar x -C ' + t + ' && cd ' + t + ' && git init -q . && git add -A >/dev/null && git -c user.name=x -c user.email=x commit -qm x', shell=True)
    for f, a, b in edits:
        p = os.path.join(t, f if '/' in f else H + f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t, 'diff'], text=True))
    shutil.rmtree(t)
    shutil.copy(V + '/tools/demo.hh', d + '/demo.hh')
    for f in ('cmdr-config-base.hh', 'cmdr-version.hh'): shutil.copy(V + '/harness/gen/' + f, d + '/' + f)
    open(d + '/demo.cc', 'w').write('// ' + breaks + '\n' + demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo: exit 0 if the property holds\nHERE=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp -d) || exit 3\ntrap \'rm -rf "$W"\' EXIT\ng++ -std=c++17 -O0 -w %s -I"$HERE" -I. -Ilibs/cmdr11/include "$HERE/demo.cc" -o "$W/demo" -lpthread %s || exit 3\ncd "$W" && HOME=/nonexistent TERM=dumb timeout 60 ./demo\n' % (flags, libs))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id)
