#!/usr/bin/env python3
"""usage: model.py NAME [quick|thorough]   (development only)  one bounded model: laws, defects, programs, traces"""
import json, os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vp, programs, models, config
w = vp.Work()
t0 = time.time()
try:
    w.build()
    fam = programs.Families(w.schema, random.Random(1))
    print('built', round(time.time() - t0, 1))
    progs, info = models.run(w, fam, sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', random.Random(1))
    print(json.dumps(info, indent=1), round(time.time() - t0, 1))
    watch = {a for v in config.WATCH.values() for a in v} | {'hang', 'released', 'bm.bytes'}
    bad, known, events, n = w.validate(progs, watch)
    print(n, 'programs', events, 'events', len(bad), 'bad', round(time.time() - t0, 1))
    for b in bad[:10]:
        print(b['aspect'], b['event'][:600])
except vp.Broken as e:
    print(str(e)[:6000])
finally:
    w.close()
