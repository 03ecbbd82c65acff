#!/usr/bin/env python3
"""trybugs.py [seed ids...]: run each planted bug's own check against a scratch copy of /repo with the patch applied"""
import sys, os, subprocess, tempfile, shutil, json, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for s in ids:
    d = tempfile.mkdtemp(prefix='try')
    p = '/verif/seeded/' + s
    prop = json.load(open(p + '/meta.json'))['property']
    subprocess.run(['cp', '-a', '/repo', d + '/repo'])
    r = subprocess.run(['git', 'apply', p + '/patch.diff'], cwd=d + '/repo')
    t = time.time()
    out = subprocess.run(['python3', '/verif/check.py', prop, 'quick'], cwd='/verif', env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(s, prop, 'rc', out.returncode, '%.0fs' % (time.time() - t), ' || '.join(l for l in out.stdout.splitlines() if 'VIOLATION' in l or 'KNOWN' in l or out.returncode == 0)[:400], flush=True)
    shutil.rmtree(d)
