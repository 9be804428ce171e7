#!/usr/bin/env python3
"""usage: corrupt.py FAMILY [ARGS] [SEED]   (development only)
Records traces of the real code, changes one observation in each and has TLC decide them: every change should be noticed.
Prints, per kind of change, how many of the changed traces were accepted, with an example."""
import collections, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import config, programs, vp

def e_trivial(k):
    """outcomes that are netty's, not the library's"""
    return k.split()[0] in ('buf', 'write', 'compact', 'seek', 'clear') or k.startswith('eq ha')


rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)


def poke(v):
    """changes one leaf of nested lists"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v ^ (1 << rng.randrange(7))
    if isinstance(v, str):
        return v
    if not v:
        return v
    i = rng.randrange(len(v))
    return v[:i] + [poke(v[i])] + v[i + 1:]


def corrupt(e):
    """-> (kind, changed event) or None"""
    e = json.loads(json.dumps(e))
    can = []
    for o in e.get('H', {}):
        can.append(('H', o, 'v'))
    for b in e.get('B', {}):
        can += [('B', b, 'd'), ('B', b, 'r'), ('B', b, 'ref')]
    for m in e.get('M', {}):
        can.append(('M', m, 'bits'))
    can += [(k,) for k in ('ok', 'ret', 'sym', 'refl', 'null', 'other', 'refs', 'ha') if k in e]
    if not can:
        return None
    w = rng.choice(can)
    x = e
    for k in w[:-1]:
        x = x[k]
    old = x[w[-1]]
    if isinstance(old, bool):
        new = not old
    elif isinstance(old, int):
        new = old + rng.choice([1, 1, 2]) if w[-1] != 'ha' else old ^ 4
    elif w[-1] == 'bits':
        n = x['n']
        new = sorted(set(old) ^ {rng.randrange(n)})
    elif w[-1] == 'd' and rng.random() < 0.3:
        new = old[:-1] if old and rng.random() < 0.5 else old + [rng.randrange(256)]
    else:
        new = poke(old)
    if new == old:
        return None
    x[w[-1]] = new
    return '%s %s' % (e['op'], '.'.join(k for i, k in enumerate(w) if i != 1 or len(w) < 3)), e


w = vp.Work()
try:
    w.build()
    fam = programs.Families(w.schema, random.Random(1), None)
    progs = getattr(fam, sys.argv[1])(*json.loads(sys.argv[2] if len(sys.argv) > 2 else '[]'))
    w.fill_peer(progs)
    rng.shuffle(progs)
    progs = progs[:int(os.environ.get('N', '800'))]
    if any(p.get('inst') for p in progs):
        w.points()
    pf, tf = w.path('programs'), w.path('trace')
    with open(pf, 'w') as f:
        for p in progs:
            f.write(vp.dumps(p) + '\n')
    r = vp.run([vp.JAVA, '-Xss4m', '-Xmx3g', '-Dio.netty.leakDetection.level=disabled', '-cp', w.harness + ':' + vp.GSON + ':' + w.netty,
                'Exec', w.classes, w.schema_file, pf, tf])
    blocks = []
    for line in open(tf):
        e = json.loads(line)
        if e['op'] == 'begin':
            blocks.append([])
        blocks[-1].append(e)
    done = collections.Counter()
    kinds, where, lines = {}, [], []
    for b in blocks:
        for _ in range(20):
            i = rng.randrange(1, len(b)) if len(b) > 1 else 0
            got = corrupt(b[i]) if i else None
            if got:
                break
        else:
            continue
        start = len(lines) + 1
        lines += b[:i] + [got[1]] + b[i + 1:]
        where.append((start, len(lines), got[0], b[i], got[1]))
        done[got[0]] += 1
    watch = {a for v in config.WATCH.values() for a in v} | {'hang', 'bm.bytes'}
    import re
    cfg = re.sub(r'Watch = \{.*?\}', 'Watch = {%s}' % ','.join('"%s"' % a for a in sorted(watch)),
                 open(os.path.join(vp.SPEC, 'Trace.cfg')).read(), flags=re.S)
    with open(tf, 'w') as f:
        for e in lines:
            f.write(vp.dumps(e) + '\n')
    out = w.tlc('Trace', cfg, {'TRACE': tf})
    if '<<"CONSUMED", %d>>' % len(lines) not in out:
        print(out[:300], '...', out[-1500:])
    bad = sorted(int(m.group(1)) for m in re.finditer(r'<<"MISMATCH", "[^"]+", (\d+), "[^"]+">>', out))
    import bisect
    missed = collections.defaultdict(list)
    for a, z, kind, old, new in where:
        i = bisect.bisect_left(bad, a)
        if i == len(bad) or bad[i] > z:
            missed[kind].append((old, new))
    for k in sorted(done):
        if e_trivial(k):
            continue
        ex = ''
        if missed[k]:
            o, n = min(missed[k], key=lambda x: len(str(x)))
            ex = '   ' + vp.dumps(o)[:300] + '  ->  ' + vp.dumps(n)[:300]
        print('%-18s %4d changed, %3d accepted%s' % (k, done[k], len(missed[k]), ex))
finally:
    w.close()
