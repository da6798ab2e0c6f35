#!/usr/bin/env python3
"""Planted bugs: makes /verif/seeded/<id> from a specification, confirms it in a scratch copy of /repo and runs checks against it.
  seed.py new SPEC...      write and confirm        seed.py check [ID...]   run the property's check against each (table on stdout)
Specification: lines 'id: x', 'property: C01', 'needs: ...', 'breaks: ...', then 'file: list.c' and <<<< old ==== new >>>> blocks, then 'demo:' and a C program."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository after build.sh: 0 = behaves, else broken
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); src=$repo/_build/src
tmp=$(mktemp -d) || exit 9; trap 'rm -rf "$tmp"' EXIT
echo 'extern char *cee_load_whole_file(const char *, unsigned long *);' > "$tmp/cee-utils.h" # an external header that cee_dbm.c includes
gcc -std=gnu99 -w -g %s -I"$tmp" -I$src/release -I$src -I$src/cee-json -I$src/sqlite3 -o "$tmp/demo" "$here/demo.c" $src/release/cee.c %s || exit 9
cd "$tmp" && timeout 60 ./demo > out 2>&1 < /dev/null
r=$?; tail -5 out; exit $r
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def scratch():
    d = tempfile.mkdtemp(prefix='wt-', dir='/tmp'); w = d + '/repo'
    sh('cp -a /repo %s' % w)
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/repo/_build', w + '/_build').replace('REPO=/repo', 'REPO=' + w).replace('committed:/repo', 'committed:' + w).replace('/opt/vp/build.sh', d + '/build.sh')
        open(d + '/' + f, 'w').write(t)
    return d, w
def build(d, w):
    return sh('bash %s/build.sh' % d)
def confirm(i):
    p = os.path.join(V, 'seeded', i); d, w = scratch()
    try:
        r = build(d, w)
        if r.returncode: return 'baseline build failed ' + r.stdout[-300:]
        r = sh('bash %s/demo.sh' % p, cwd=w)
        if r.returncode: return 'demo fails on the unchanged tree: %d %s' % (r.returncode, r.stdout[-600:])
        r = sh('git apply %s/patch.diff' % p, cwd=w)
        if r.returncode: return 'does not apply: ' + r.stdout
        r = build(d, w)
        if r.returncode: return 'build fails: ' + r.stdout[-600:]
        r = sh('bash %s/test.sh %s/o.json' % (d, d))
        if r.stdout.count('PASS') != 4: return 'tests fail: ' + r.stdout[-300:]
        r = sh('bash %s/demo.sh' % p, cwd=w)
        if r.returncode in (0, 9): return 'demo does not fail with the change (%d) %s' % (r.returncode, r.stdout[-600:])
        return 'ok (demo %d: %s)' % (r.returncode, r.stdout.strip().split('\n')[-1][:120])
    finally:
        shutil.rmtree(d)
def new(spec):
    t = open(spec).read(); head, demo = t.split('\ndemo:\n', 1)
    g = lambda k: re.search(r'^%s: (.*)$' % k, head, re.M).group(1)
    i = g('id'); p = os.path.join(V, 'seeded', i); d, w = scratch()
    try:
        for m in re.finditer(r'^file: (\S+)\n((?:<<<<\n.*?\n>>>>\n?)+)', head, re.M | re.S):
            s = open(w + '/' + m.group(1)).read()
            for b in re.finditer(r'<<<<\n(.*?)\n====\n(.*?)\n?>>>>', m.group(2), re.S):
                if s.count(b.group(1)) != 1: print(i, 'old text occurs %d times in %s' % (s.count(b.group(1)), m.group(1)), repr(b.group(1)[:80])); return False
                s = s.replace(b.group(1), b.group(2))
            open(w + '/' + m.group(1), 'w').write(s)
        diff = sh('git diff', cwd=w).stdout
    finally:
        shutil.rmtree(d)
    os.makedirs(p, exist_ok=True)
    open(p + '/patch.diff', 'w').write(diff); open(p + '/demo.c', 'w').write(demo)
    prop = g('property')
    sql = re.search(r'^sql:', head, re.M) or 'sqlite3/' in diff; js = sql or 'cee-json' in demo or 'cee-json/' in diff
    code = ('$src/cee-json/release/cee-json.c' if js else '') + (' $src/sqlite3/cee-sqlite3.c $src/sqlite3/join.c -lsqlite3' if sql else '')
    m = re.search(r'^cflags: (.*)$', head, re.M)
    open(p + '/demo.sh', 'w').write(DEMO % (m.group(1) if m else '', code + ' -lm'))
    json.dump({'property': prop, 'needs': g('needs'), 'what_it_breaks': g('breaks')}, open(p + '/meta.json', 'w'), indent=1)
    r = confirm(i); print(i, r)
    if not r.startswith('ok'): shutil.move(p, '/tmp/rejected-' + i) if not os.path.exists('/tmp/rejected-' + i) else shutil.rmtree(p)
    return r.startswith('ok')
def check(ids):
    for i in ids or sorted(os.listdir(V + '/seeded')):
        p = os.path.join(V, 'seeded', i); prop = json.load(open(p + '/meta.json'))['property']; d, w = scratch()
        try:
            r = sh('git apply %s/patch.diff' % p, cwd=w)
            if r.returncode: print(i, prop, 'does not apply'); continue
            r = sh('python3 %s/check.py %s' % (V, prop), env=dict(os.environ, SIM_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            m = re.search(r'^class: (.*)\nmessage: (.*)$', r.stdout, re.M)
            print(i, prop, 'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR', (m.group(1) + ' | ' + m.group(2))[:150] if m else r.stdout[-200:] if r.returncode == 2 else '', flush=True)
        finally:
            shutil.rmtree(d)
if __name__ == '__main__':
    if sys.argv[1] == 'new': [new(s) for s in sys.argv[2:]]
    elif sys.argv[1] == 'confirm': [print(i, confirm(i)) for i in sys.argv[2:]]
    else: check(sys.argv[2:])
