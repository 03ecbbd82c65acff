#!/usr/bin/env python3
"""plant.py FILE.py [id ...]: FILE defines SEEDS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks)].
Each bug is made in a scratch copy of /repo, checked (demo passes before, fails after, tests pass after) and kept in /verif/seeded/<id>."""
import sys, os, subprocess, tempfile, shutil, json, runpy
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def run(s):
    out = '/verif/seeded/' + s['id']
    d = tempfile.mkdtemp(prefix='plant')
    try:
        w = os.path.join(d, 'repo')
        sh('cp -a /repo %s' % w, d)
        sh('git checkout -q -- .', w)
        demo = os.path.join(d, 'demo')
        os.makedirs(demo)
        open(os.path.join(demo, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(demo, 'demo.sh'), 'w').write('#!/bin/sh\nexec env PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 timeout 120 %s "$(dirname "$0")/demo.py"\n' % PY)
        a = sh('sh %s/demo.sh' % demo, w)
        if a.returncode:
            return 'demo fails on the unchanged tree: ' + a.stdout[-600:]
        base = set(sh('git blame -s -l %s' % ' '.join([]), w).stdout) if 0 else None
        for path, old, new in s['edits']:
            p = os.path.join(w, path)
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit of %s matches %d times' % (path, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', w).stdout
        b = sh('sh %s/demo.sh' % demo, w)
        if b.returncode == 0:
            return 'demo passes with the change'
        # the changed lines are the original repository's
        blame = []
        for path in {e[0] for e in s['edits']}:
            hd = sh('git diff -U0 %s' % path, w).stdout
            for l in hd.splitlines():
                if l.startswith('@@'):
                    part = l.split()[1][1:]
                    a0, _, n = part.partition(',')
                    n = int(n or 1)
                    if n:
                        for bl in sh('git blame -s -L %s,+%d HEAD -- %s' % (a0, n, path), w).stdout.splitlines():
                            blame.append(bl.startswith('^'))
                    else:
                        blame.append(None)
        base = json.load(open('/opt/vp/BASELINE.json'))
        t = sh('%s -m pytest -q -x -p no:cacheprovider 2>&1 | tail -5' % PY, w)
        if ' failed' in t.stdout or 'error' in t.stdout.lower():
            return 'tests: ' + t.stdout[-500:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        return 'planted; original lines: %s; demo: %s; %s' % (blame, b.stdout.strip().splitlines()[-1:], t.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    m = runpy.run_path(sys.argv[1])
    for s in m['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        print(s['id'], s['property'], run(s), flush=True)
