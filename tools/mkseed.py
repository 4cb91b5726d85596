"""mk(id, prop, [(file, old, new)], demo_cpp, needs, breaks): writes seeded/<id>/"""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g -w %s -I/repo -I/repo/ristra -I/repo/_build/main -I/repo/_build/main/ristra "$here/demo.cpp" %s -o "$d/demo" || exit 2
cd "$d" && timeout 60 ./demo
'''
def mk(id, prop, edits, demo, needs, breaks, flags='', libs='', sh=None):
    t = tempfile.mkdtemp(); subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, old, new in edits:
        p = f'{t}/r/{f}'; s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old)); open(p, 'w').write(s.replace(old, new))
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True))
    open(d + '/demo.cpp', 'w').write(demo); open(d + '/demo.sh', 'w').write(sh or DEMO % (flags, libs)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
