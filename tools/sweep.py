#!/usr/bin/env python3
"""usage: sweep.py [ID...]   (development only)  runs the property's quick check against every planted bug, in scratch copies"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')


def one(i):
    meta = json.load(open(os.path.join(S, i, 'meta.json')))
    t = tempfile.mkdtemp(prefix='sweep.')
    t0 = time.time()
    try:
        subprocess.run('git clone -q /repo %s/r && cd %s/r && git apply %s/%s/patch.diff' % (t, t, S, i), shell=True, check=True)
        r = subprocess.run([V + '/bin/check', meta['property'], os.environ.get('TIER', 'quick')], env=dict(os.environ, VP_REPO=t + '/r', VP_OUT=t),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and 'VIOLATION property=%s ' % meta['property'] in r.stdout
        lines = [l[:150] for l in r.stdout.split('\n') if l.startswith('differs')]
        return i, meta['property'], 'caught' if hit else 'MISSED rc=%d' % r.returncode, '%.0f s' % (time.time() - t0), lines if hit or r.returncode == 0 else r.stdout[-800:]
    finally:
        shutil.rmtree(t)


ids = sys.argv[1:] or sorted(os.listdir(S))
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
