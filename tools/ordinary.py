#!/usr/bin/env python3
"""usage: ordinary.py   (development only)  writes lib/ordinary.txt: the rare things in the current byte code"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import oddities, vp
w = vp.Work()
try:
    w.build()
    if os.path.exists(oddities.ORDINARY):
        os.remove(oddities.ORDINARY)
    o = oddities.odd(w.classes, w.schema)
    open(oddities.ORDINARY, 'w').write(''.join('%s %s\n' % (c, x) for c in sorted(o) for x in o[c]))
finally:
    w.close()
