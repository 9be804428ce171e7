"""Programs: sequences of public calls, as JSON.  Each family concentrates on some of the properties."""
import copy
import os
from values import Values

GROW = ['heap', 'direct', 'pooled', 'pooldir', 'safe', 'comp', 'slice', 'dirty']
READ = GROW + ['wrap', 'ro', 'rodir']
FRAMES = ['sse_SseBinary', 'szse_SzseBinary', 'bjse_BjseBinary', 'risk_RcBinary', 'sample_RootPacket']
REVERSE = 'sse_SseBinary'
NOREG = 'bjse_TradeCaptureCofirm'


class Prog:
    def __init__(self, pid, full=False, fresh=False):
        self.d = {'id': pid, 'full': full, 'fresh': fresh, 'ops': []}

    def op(self, name, **kw):
        o = {'op': name}
        o.update(kw)
        self.d['ops'].append(o)
        return o

    def new(self, o, c):
        self.op('new', o=o, c=c)

    def fill(self, o, v):
        self.op('fill', o=o, v=v)

    def make(self, o, c, v):
        self.new(o, c)
        self.fill(o, v)

    def buf(self, b, kind='heap', d=(), r=0):
        self.op('buf', b=b, kind=kind, ro=kind.startswith('ro'), d=list(d), r=r, c='', v=[], at=0)

    def peerbuf(self, b, kind, c, v, pre=()):
        """a buffer holding pre and then a peer's message, ready to be read"""
        self.op('buf', b=b, kind=kind, ro=kind.startswith('ro'), d='@enc', pre=list(pre), r=len(pre), c=c, v=v, at=len(pre))

    def write(self, b, c, v):
        return self.op('write', b=b, c=c, v=v, d='@enc')

    def junk(self, b, d):
        self.op('write', b=b, c='', v=[], d=list(d))

    def enc(self, o, b):
        self.op('enc', o=o, b=b)

    def dec(self, o, b):
        self.op('dec', o=o, b=b)

    def seek(self, b, r):
        self.op('seek', b=b, r=r)


class Families:
    def __init__(self, schema, rng, hints=None):
        self.schema = schema
        self.tables = schema['tables']
        self.types = schema['types']
        self.users = [c for c in self.tables if c.startswith('user_')]      # a user's own classes
        self.classes = [c for c in self.tables if c not in self.users]
        self.only = None        # classes to concentrate on
        self.rng = rng
        self.V = Values(schema, rng)
        self.V.hints = hints
        self.seq = 0

    # -- helpers ------------------------------------------------------------------------------
    def prog(self, **kw):
        self.seq += 1
        return Prog(self.seq, **kw)

    def kinds_of(self, c):
        return {f['k'] for f in self.tables[c]}

    def variants(self, c):
        """the ways to choose the dynamic part of c"""
        if c in self.types:
            return [(k, x) for k, x in self.types[c]]
        return [None]

    def all_variants(self):
        return self.focus([(c, d) for c in self.classes for d in self.variants(c)])

    def frames(self):
        return self.focus([(c, d) for c in FRAMES for d in self.variants(c)])

    def owners(self):
        return self.focus([(c, d) for c in self.types for d in self.variants(c)])

    def focus(self, cds):
        return [x for x in cds if self.only is None or x[0] in self.only or x[1] and x[1][1] in self.only]

    def subjects(self):
        return [c for c in self.classes if self.only is None or c in self.only]

    def typed(self):
        return [c for c in self.types if self.only is None or c in self.only or any(x in self.only for _, x in self.types[c])]

    def concentrate(self, names):
        """the classes of these names, those that contain them as parts or elements, and those that carry such a class"""
        only = set(names)
        while True:
            more = {c for c in self.classes for f in self.tables[c] if f.get('c') in only or (f.get('el') or {}).get('c') in only} - only
            if not more:
                return only
            only |= more

    def val(self, c, dyn=None, rich=None):
        old = self.V.rich
        if rich is not None:
            self.V.rich = rich
        try:
            return self.V.msg(c, dyn)
        finally:
            self.V.rich = old

    def unk_key(self, c, taken=None):
        """a selector value without a type"""
        t = self.tables[c]
        dyn = [f for f in t if f['k'] == 'dyn'][0]
        sf = [f for f in t if f['n'] == dyn['sel']][0]
        keys = [k for k, _ in self.types[c]] if taken is None else taken
        r = self.rng
        hints = self.V.hints
        while True:
            if hints is not None and hints.any() and r.random() < 0.3:
                if sf['k'] == 'num':
                    ks = [x for x in hints.numbers(c) if x < 1 << (8 * sf['w'] - 1)]
                    ks += [-x for x in ks]
                else:
                    ks = [x for x in hints.words(c) if len(x) <= sf['w'] and (not x or x[-1] != 32) and all(ch < 128 for ch in x)]
                ks = [x for x in ks if x not in keys]
                if ks:
                    return r.choice(ks)
            if sf['k'] == 'num':
                k = r.choice([0, r.randrange(1, 9), r.choice(self.types[c])[0] + r.choice([-1, 1]),
                              r.choice(self.types[c])[0] ^ (1 << r.randrange(8 * sf['w'] - 1)), r.randrange(30000),
                              r.choice(self.types[c])[0] % 256, r.choice([-1, 1]) * r.choice(self.types[c])[0],
                              r.choice(self.types[c])[0] - (1 << (8 * sf['w'] - 1)), -1, -(1 << (8 * sf['w'] - 1)),
                              (1 << (8 * sf['w'] - 1)) - 1, r.choice(self.types[c])[0] * 256])
                if k not in keys and -(1 << (8 * sf['w'] - 1)) <= k < (1 << (8 * sf['w'] - 1)):
                    return k
            else:
                base = list(r.choice(self.types[c])[0])
                m = r.randrange(8)
                if m == 0:
                    k = []
                elif m == 6:
                    k = [0] + base[:-1]
                elif m == 7:
                    k = base[:-1] + [base[-1] ^ 16]
                elif m == 1:
                    k = base[:-1]
                elif m == 2:
                    k = base[:-1] + [r.randrange(33, 127)]
                elif m == 3:
                    k = [r.randrange(33, 127) for _ in range(sf['w'])]
                elif m == 4:
                    k = [32] + base[:-1]
                else:
                    k = base[::-1]
                while k and k[-1] == 32:
                    k = k[:-1]
                if k not in keys and len(k) <= sf['w']:
                    return k

    def with_key(self, c, v, key):
        t = self.tables[c]
        dyn = [f for f in t if f['k'] == 'dyn'][0]
        j = [i for i, f in enumerate(t) if f['n'] == dyn['sel']][0]
        v = list(v)
        v[j] = self.V.keyval(t[j], key)
        return v

    def pre(self):
        return [self.rng.randrange(256) for _ in range(self.rng.choice([0, 0, 1, 2, 3, 5, 17]))]

    def leaves(self, c, v, base=()):
        """paths (1-based, as SetAt takes them) of everything that can be set, with its field record"""
        out = []
        for i, f in enumerate(self.tables[c]):
            p = base + (i + 1,)
            out.append((p, f, c, v[i]))
            if f['k'] == 'obj' and v[i]:
                out += self.leaves(f['c'], v[i][0], p)
            elif f['k'] == 'dyn' and v[i]:
                out += self.leaves(v[i][0], v[i][1], p)
            elif f['k'] == 'list' and v[i]:
                for j, x in enumerate(v[i][0]):
                    q = p + (j + 1,)
                    if f['el']['k'] == 'obj':
                        if x:
                            out += self.leaves(f['el']['c'], x[0], q)
                    else:
                        out.append((q, f['el'], c, x))
        return out

    def set_in(self, c, v, path, val):
        v = list(v)
        f = self.tables[c][path[0] - 1]
        i = path[0] - 1
        if len(path) == 1:
            v[i] = val
        elif f['k'] == 'obj':
            v[i] = [self.set_in(f['c'], v[i][0], path[1:], val)]
        elif f['k'] == 'dyn':
            v[i] = [v[i][0], self.set_in(v[i][0], v[i][1], path[1:], val)]
        else:
            l = list(v[i][0])
            if len(path) == 2:
                l[path[1] - 1] = val
            else:
                l[path[1] - 1] = [self.set_in(f['el']['c'], l[path[1] - 1][0], path[2:], val)]
            v[i] = [l]
        return v

    def other_value(self, f, c, old):
        """a value of field f that differs from old"""
        r = self.rng
        k = f['k']
        if k in ('num', 'blen', 'chk'):
            b = list(old) if old else [0] * f['w']
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            return b
        if k == 'flt':
            if old and not any(old[1:]) and old[0] in (0, 128) and not self.V.simple_floats and r.random() < 0.5:
                return [old[0] ^ 128] + old[1:]         # 0.0 and -0.0
            while True:
                b = self.V.flt(f['w'])
                if b != old:
                    return b
        if k in ('fix', 'var'):
            opts = [[], [[]], [[65]], [[66, 67]], [[0x4E2D]], [[32]]]
            if old and old[0]:
                t = list(old[0])
                opts += [[t + [90]], [t[:-1]], [[t[0] ^ 1 if t[0] > 64 else 70] + t[1:]], [t[:-1] + [t[-1] ^ 1 if 64 < t[-1] < 126 else 71]]] * 2
            opts = [x for x in opts if x != old]
            return r.choice(opts)
        if k == 'list':
            el = f['el']
            opts = [[], [[]], [[self.V.elem(c, el)]]]
            if old and old[0]:
                l = list(old[0])
                opts += [[l[:-1]], [l + [self.V.elem(c, el)]], [l[::-1]], [l + [l[-1]]]]
                if el['k'] != 'obj':
                    j = r.randrange(len(l))
                    opts += [[l[:j] + [self.other_value(el, c, l[j])] + l[j + 1:]]] * 2
            opts = [x for x in opts if x != old]
            return r.choice(opts)
        if k == 'obj':
            if r.random() < 0.2 and old:
                return []
            while True:
                x = [self.V.msg(f['c'])]
                if x != old:
                    return x
                if not self.tables[f['c']]:
                    return []
        if k == 'dyn':
            key, cls = r.choice(self.types[c])
            x = [cls, self.V.msg(cls)]
            return x if x != old else []
        raise ValueError(k)

    # -- round trips -----------------------------------------------------------------------------
    def more(self, n, c):
        """classes with kinds of fields that no other has deserve more programs"""
        return 4 * n if c.startswith('sample_') else n

    def roundtrip(self, n, variants=None):
        """encode, decode into a new and into the used message, encode again"""
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(self.more(n, c)):
                v = self.V.empty(c) if i == 0 and dyn is None else self.val(c, dyn, 1.0 if i % 4 == 1 else None)
                p = self.prog()
                p.make('a', c, v)
                pre = self.pre()
                p.buf('x', r.choice(GROW), pre, len(pre))
                p.enc('a', 'x')
                p.new('b', c)
                p.dec('b', 'x')
                p.op('eq', a='a', b='b')
                p.enc('b', 'x')
                p.dec('a', 'x')
                p.op('eq', a='a', b='b')
                ls = [x for x in self.leaves(c, self.back(c, v)) if x[1]['k'] not in ('obj', 'dyn', 'list')]
                if ls and i % 2:          # change the decoded message and send it again
                    deep = [x for x in ls if len(x[0]) > 1]
                    path, f, cc, old = r.choice(deep if deep and r.random() < 0.6 else ls)
                    p.op('set', o='b', path=list(path), val=self.other_value(f, cc, old))
                    p.enc('b', 'x')
                    p.new('d', c)
                    p.dec('d', 'x')
                out.append(p.d)
        return out

    def back(self, c, v):
        """the value with empty lists absent, as it comes back"""
        out = []
        for f, x in zip(self.tables[c], v):
            if f['k'] == 'list':
                out.append([] if not x or not x[0] else [[[self.back(f['el']['c'], e[0])] if f['el']['k'] == 'obj' else e for e in x[0]]])
            elif f['k'] == 'obj':
                out.append([self.back(f['c'], x[0])])
            elif f['k'] == 'dyn':
                out.append([x[0], self.back(x[0], x[1])])
            else:
                out.append(x)
        return out

    def peers(self, n, variants=None):
        """a peer's bytes are decoded, from any kind of buffer, and passed on"""
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(self.more(n, c)):
                v = self.val(c, dyn, 1.0 if i % 3 == 1 else None)
                p = self.prog()
                p.peerbuf('x', r.choice(READ), c, v, self.pre())
                p.new('a', c)
                p.dec('a', 'x')
                p.buf('y', r.choice(GROW))
                p.enc('a', 'y')
                p.new('b', c)
                p.dec('b', 'y')          # second hop
                p.buf('z', r.choice(GROW), self.pre())
                p.enc('b', 'z')
                out.append(p.d)
        return out

    # -- appending ----------------------------------------------------------------------------------
    def append(self, n, variants=None):
        """the same message into many buffers: what is there already must neither change nor matter"""
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(n):
                v = self.val(c, dyn)
                p = self.prog()
                p.make('a', c, v)
                kinds = r.sample(GROW, 3)
                for j, kind in enumerate(kinds):
                    d = [r.randrange(256) for _ in range(r.choice([0, 1, 3, 8, 63, 64, 65, 200]))]
                    p.buf('x%d' % j, kind, d, r.randrange(len(d) + 1))
                    p.enc('a', 'x%d' % j)
                    if r.random() < 0.5:
                        p.enc('a', 'x%d' % j)
                w = self.val(c, dyn)
                p.make('b', c, w)         # another message in between
                p.enc('b', 'x0')
                p.enc('a', 'x0')
                p.make('e', c, v)         # equal message
                p.enc('e', 'x1')
                ls = [x for x in self.leaves(c, v) if x[1]['k'] not in ('obj', 'dyn')]
                if ls:                    # changed message, and an equal one made anew
                    deep = [x for x in ls if len(x[0]) > 1]
                    path, f, cc, old = r.choice(deep if deep and r.random() < 0.6 else ls)
                    x = self.encodable(f, cc, old)
                    p.op('set', o='a', path=list(path), val=x)
                    p.enc('a', 'x2')
                    p.make('g', c, self.set_in(c, v, path, x))
                    p.enc('g', 'x1')
                self.room(p, 'l', c, v, 0)      # exactly enough room
                p.enc('e', 'l')
                out.append(p.d)
        return out

    def room(self, p, b, c, v, short):
        """a buffer that is too small for v by that many bytes"""
        pre = self.pre()
        p.peerbuf(b, self.rng.choice(['cap', 'capdir']), c, v)
        p.d['ops'][-1].update(pre=pre, r=0, at=0, room=[short, len(pre)])

    def headers(self, n):
        """frames with stale header and trailer values, anywhere in a buffer, under changing services"""
        out = []
        r = self.rng
        for c, dyn in self.frames():
            for i in range(n):
                p = self.prog(fresh=(i % 3 == 2))
                v = self.val(c, dyn, 1.0 if i % 2 else None)
                p.make('a', c, v)
                d = self.pre()
                p.buf('x', r.choice(GROW), d, r.randrange(len(d) + 1))
                alg = [f['alg'] for f in self.tables[c] if f['k'] == 'chk']
                p.enc('a', 'x')
                if i % 3 == 2 and alg:
                    p.op('unreg', n=alg[0])
                    p.enc('a', 'x')
                    self.set_computed(p, 'a', c)
                    p.enc('a', 'x')
                    p.op('svc', s='u', alg=alg[0], impl=r.choice(['crc16', 'crc32', 'sum', 'const']))
                    p.op('reg', s='u')
                    p.enc('a', 'x')
                    p.op('regclr')
                    p.enc('a', 'x')
                else:
                    self.set_computed(p, 'a', c)
                    p.enc('a', 'x')
                w = self.val(c)
                p.make('b', c, w)
                p.enc('b', 'x')
                leaf = r.choice(self.leaves(c, w)[len(self.tables[c]):] or [None])
                if leaf and leaf[1]['k'] not in ('obj', 'dyn'):
                    p.op('set', o='b', path=list(leaf[0]), val=self.encodable(leaf[1], leaf[2], leaf[3]))
                    p.enc('b', 'x')
                out.append(p.d)
        return out

    def bigframes(self, count, sizes=(300, 33000, 66000)):
        """frames whose bodies are longer than 8, 15 and 16 bits can say"""
        out = []
        r = self.rng
        if self.V.hints is not None:
            more = [x for x in self.V.hints.sizes('') if x > 200]
            sizes = tuple(sizes) + tuple(r.sample(more, min(len(more), 6)))
        for c, (key, cls) in self.frames():
            for i, f in enumerate(self.tables[cls]):
                wide = f['k'] == 'list' or f['k'] == 'var'
                if not wide:
                    continue
                for n in sizes:
                    if f['k'] == 'var':
                        cap = n if f['w'] == 4 else min(n, 65535)
                        x = self.of_size(cls, f, cap)[0]
                    else:
                        one = max(1, self.width(cls, f['el']))
                        if one > 60 and n > 300 and r.random() < 0.5:
                            continue
                        x = self.of_size(cls, f, min(65535, n // one + 1))[0]
                    v = self.val(c, (key, cls))
                    d = [q for q, g in enumerate(self.tables[c]) if g['k'] == 'dyn'][0]
                    body = list(v[d][1])
                    body[i] = x
                    v[d] = [cls, body]
                    p = self.prog()
                    p.make('a', c, v)
                    p.buf('x', 'heap', self.pre())
                    p.enc('a', 'x')
                    out.append((c, n, len(str(x)), p.d))
        r.shuffle(out)
        first, rest, seen = [], [], set()
        for x in sorted(out, key=lambda x: x[2]):       # every frame class and size once, by the cheapest body
            if x[:2] not in seen:
                seen.add(x[:2])
                first.append(x)
        rest = [x for x in out if x not in first]
        return [x[3] for x in first + rest[:max(0, count - len(first))]]

    def far(self, n):
        """messages at offsets that need more than 15 or 16 bits"""
        out = []
        r = self.rng
        for c in [x for x in FRAMES if x in self.typed()] + r.sample(self.subjects(), min(3, len(self.subjects()))):
            for i in range(n):
                p = self.prog()
                far = r.choice([32760, 32767, 65530, 65535, 65536, 70000]) - r.randrange(8)
                p.buf('x', r.choice(GROW), [r.randrange(256) for _ in range(far)], far)
                for j in range(2):
                    p.make('a%d' % j, c, self.val(c))
                    p.enc('a%d' % j, 'x')
                p.new('t', c)
                p.dec('t', 'x')
                if r.random() < 0.5:
                    p.op('compact', b='x')
                p.make('b', c, self.val(c))
                p.enc('b', 'x')
                for j in range(2):
                    p.new('u%d' % j, c)
                    p.dec('u%d' % j, 'x')
                out.append(p.d)
        return out

    def width(self, c, f):
        if f['k'] == 'obj':
            return sum(self.width(f['c'], g) for g in self.tables[f['c']])
        return f['w']

    def set_computed(self, p, o, c):
        r = self.rng
        for i, f in enumerate(self.tables[c]):
            if f['k'] in ('blen', 'chk'):
                p.op('set', o=o, path=[i + 1], val=r.choice([[255] * f['w'], [0] * f['w'], [r.randrange(256) for _ in range(f['w'])]]))

    def encodable(self, f, c, old):
        while True:
            x = self.other_value(f, c, old)
            if f['k'] != 'obj' or x:
                return x

    # -- streams ----------------------------------------------------------------------------------------
    def streams(self, n, length=8, owners=FRAMES):
        """frames back to back: encoding, reading, discarding in any order"""
        out = []
        r = self.rng
        for c in owners:
            parts = [d for x, d in self.focus([(c, d) for d in self.variants(c)])]
            for i in range(n if parts else 0):
                p = self.prog()
                kind = r.choice(GROW)
                p.buf('x', kind)
                queued = 0
                fresh = r.random() < 0.5
                objs = ['m%d' % j for j in range(3)]
                for o in objs:
                    p.new(o, c)
                p.new('t', c)
                sent = 0
                mixed = r.random() < 0.2
                want = r.randrange(3, length + 1)
                while sent < want or queued:
                    k = r.random()
                    if sent < want and (k < 0.5 or not queued):
                        o = r.choice(objs)
                        v = self.val(c, r.choice(parts), 1.0 if r.random() < 0.2 else None)
                        if r.random() < 0.3:
                            p.write('x', c, v)
                        elif r.random() < 0.2:          # arrives in two pieces
                            k = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 11, 12, 15, 16, 17, r.randrange(1, 60)])
                            p.write('x', c, v)['cut'] = k
                            while queued and r.random() < 0.7:
                                t = 't'
                                if fresh:
                                    t = 'p%d_%d' % (sent, queued)
                                    p.new(t, c)
                                p.dec(t, 'x')
                                queued -= 1
                                if r.random() < 0.2:
                                    p.op('compact', b='x')
                            p.write('x', c, v)['rest'] = k
                        else:
                            p.fill(o, v)
                            p.enc(o, 'x')
                        sent += 1
                        queued += 1
                    elif k < 0.65:
                        p.op('compact', b='x')
                    elif queued:
                        t = 't'
                        if fresh:
                            t = 'n%d' % sent + '_%d' % queued
                            p.new(t, c)
                        p.dec(t, 'x')
                        queued -= 1
                out.append(p.d)
        return out

    def arrivals(self, n, variants=None):
        """messages arrive in pieces; the reader marks, tries, and goes back"""
        out = []
        r = self.rng
        for c, dyn in variants or self.all_variants():
            for i in range(n):
                p = self.prog()
                pre = self.pre()
                p.buf('x', r.choice(GROW), pre, len(pre))
                p.new('t', c)

                def attempt(back):
                    t = 't'
                    if r.random() < 0.4:
                        p.new('u', c)
                        t = 'u'
                    p.op('mark', b='x')
                    p.dec(t, 'x')
                    if back:
                        p.op('reset', b='x')
                        if r.random() < 0.15:
                            p.op('compact', b='x')
                        if r.random() < 0.3:                # another buffer is busy in the meantime
                            p.make('o', c, self.val(c, dyn))
                            p.buf('y', r.choice(GROW))
                            p.enc('o', 'y')
                            if r.random() < 0.5:
                                p.op('reset', b='x')        # still marked there
                for j in range(2):
                    v = self.val(c, dyn, 1.0 if r.random() < 0.5 else None)
                    if r.random() < 0.25:
                        p.make('m', c, v)
                        p.enc('m', 'x')
                        attempt(False)
                        continue
                    cuts = sorted(r.choice([0.0, 1, 2, 3, 4, 5, 8, 12, r.random(), r.random(), r.random(), 0.999]) for _ in range(r.randrange(1, 4)))
                    cuts.sort(key=lambda x: x if isinstance(x, int) else 1000 * x + 6)
                    ints = [x for x in cuts if isinstance(x, int)]
                    cuts = ints if ints and r.random() < 0.5 else [x for x in cuts if x not in ints] or ints
                    for a, z in zip([0] + cuts, cuts):
                        p.write('x', c, v)['part'] = [a, z, False]
                        attempt(True)
                        if r.random() < 0.2:
                            attempt(True)
                    p.write('x', c, v)['part'] = [cuts[-1], 0, True]
                    if r.random() < 0.3:                    # only a look
                        attempt(True)
                    attempt(False)
                out.append(p.d)
        return out

    def rework(self, n, variants=None):
        """what was received is changed, in any place, and sent on"""
        out = []
        r = self.rng
        for c, dyn in (self.frames() if variants == 'frames' else variants or self.all_variants()):
            at = None
            if any(f['k'] == 'blen' for f in self.tables[c]):
                at = 0
                for f in self.tables[c]:
                    if f['k'] == 'blen':
                        break
                    at += f['w']
            for i in range(n):
                p = self.prog()
                pre = self.pre()
                v = self.val(c, dyn, 1.0)
                p.buf('x', r.choice(GROW), pre, len(pre))
                p.write('x', c, v)
                if at is not None and r.random() < 0.6:
                    p.op('patch', b='x', i=len(pre) + at + r.choice([0, 1, 2, 3, 0, 3]), x=r.choice([0, 1, 255, r.randrange(256)]))
                p.new('t', c)
                p.dec('t', 'x')
                p.buf('y', r.choice(GROW), self.pre())
                shadow = {'t': self.back(c, v)}
                if r.random() < 0.6:
                    p.enc('t', 'y')
                for j in range(r.randrange(2, 5)):
                    v = shadow['t']
                    ls = [x for x in self.leaves(c, v) if x[1]['k'] not in ('blen', 'chk') and not self.is_key(x[2], x[1])]
                    if not ls:
                        break
                    grow = [x for x in ls if x[1]['k'] in ('var', 'list', 'dyn')]
                    leaf = r.choice(grow if grow and r.random() < 0.6 else ls)
                    path, f, cc, old = leaf
                    if f['k'] == 'dyn':
                        x = [old[0], self.V.msg(old[0])] if old else [dyn[1], self.V.msg(dyn[1])] if len(path) == 1 and dyn else None
                        if len(path) == 1 and c in FRAMES and r.random() < 0.3:
                            x = []
                        if x is None:
                            continue
                        p.op('set', o='t', path=list(path), val=x)
                        shadow['t'] = self.set_in(c, v, path, x)
                    elif f['k'] == 'list' and old and old[0] and r.random() < 0.6:
                        self.alter(p, 't', c, leaf, shadow)
                    else:
                        x = self.encodable(f, cc, old)
                        p.op('set', o='t', path=list(path), val=x)
                        shadow['t'] = self.set_in(c, v, path, x)
                    if r.random() < 0.8:
                        p.enc('t', 'y')
                    if r.random() < 0.2:
                        p.new('d', c)
                        p.dec('d', 'y')
                p.enc('t', 'y')
                out.append(p.d)
        return out

    # -- targets with a history ---------------------------------------------------------------------------
    def reuse(self, n, variants=None):
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(n):
                p = self.prog()
                p.new('t', c)
                seq = r.randrange(2, 5)
                vals = []
                for j in range(seq):
                    m = (i + j) % 4
                    if m == 0 or m == 2 and not vals:
                        vals.append(self.val(c, dyn, 1.0))
                    elif m == 1:
                        vals.append(self.hollow(c, dyn, r.choice([0.5, 1.0])))
                    elif m == 2:
                        vals.append(self.neighbour(c, vals[-1]))
                    else:
                        vals.append(self.val(c, r.choice(self.variants(c))))
                p.buf('x', r.choice(GROW))
                for v in vals:
                    k = r.randrange(4)
                    if k == 0:
                        p.fill('t', self.val(c, r.choice(self.variants(c)), 1.0))
                    elif k == 1:
                        w = self.val(c, None, 1.0)
                        p.fill('t', w)
                        p.buf('y', 'heap')
                        p.enc('t', 'y')
                    elif k == 2 and r.random() < 0.3:       # a failed decode leaves no trace in the next one
                        p.buf('y', 'heap')
                        o = p.write('y', c, self.val(c, dyn, 1.0))
                        o['cut'] = -r.randrange(1, 6)
                        p.dec('t', 'y')
                    p.write('x', c, v)
                    p.write('x', c, v)
                    p.dec('t', 'x')
                    p.new('n', c)
                    p.dec('n', 'x')
                    p.op('eq', a='t', b='n')
                out.append(p.d)
            # nothing but the previous contents: full, all zero; one value zero, empty or otherwise changed at a time
            p = self.prog()
            p.new('t', c)
            p.buf('x', r.choice(GROW))
            v = self.val(c, dyn, 1.0)
            vals = [v, self.hollow(c, dyn, 1.0)]
            for j in range(n):
                w = self.neighbour(c, v) if j else self.turned(c, v)
                vals += [v, w] if j == 0 or r.random() < 0.5 else [w]
                v = w
            for v in vals:
                p.write('x', c, v)
                p.dec('t', 'x')
            out.append(p.d)
            if c in FRAMES:             # the same trailer under different bodies, and header values that do not fit
                p = self.prog()
                p.new('t', c)
                v = self.val(c, dyn, 1.0)
                for j in range(n):
                    p.buf('x%d' % j, r.choice(GROW))
                    p.write('x%d' % j, c, v)['mut'] = [[-k, 7] for k in (1, 2, 3, 4)]
                    p.dec('t', 'x%d' % j)
                    v = self.turned(c, v) if j % 2 == 0 else self.neighbour(c, v)
                out.append(p.d)
        return out

    def turned(self, c, v):
        """v with the same bytes in another order: one text turned round, one number with two of its bytes exchanged"""
        r = self.rng
        ls = [x for x in self.leaves(c, v) if x[1]['k'] in ('num', 'flt', 'fix', 'var') and not self.is_key(x[2], x[1])]
        inner = [x for x in ls if len(x[0]) > 1]
        ls = inner if inner and r.random() < 0.8 else ls
        r.shuffle(ls)
        for path, f, cc, old in ls:
            if f['k'] in ('num', 'flt'):
                b = old[1:] + old[:1] if f['k'] == 'num' else old
                if b != old:
                    return self.set_in(c, v, path, b)
            elif old and old[0] and old[0][0] != old[0][-1] and 32 < old[0][-1] < 127 and 32 < old[0][0] < 127 and 48 not in (old[0][0], old[0][-1]):
                return self.set_in(c, v, path, [old[0][::-1]])
        return v

    def neighbour(self, c, v):
        """v with one or two places changed, often to zero or to nothing"""
        r = self.rng
        if r.random() < 0.3:
            return self.turned(c, v)
        for _ in range(r.choice([1, 1, 2])):
            ls = [x for x in self.leaves(c, v) if x[1]['k'] not in ('dyn', 'chk', 'blen') and not self.is_key(x[2], x[1])]
            if not ls:
                return v
            path, f, cc, old = r.choice(ls)
            k = f['k']
            if k in ('num', 'flt') and r.random() < 0.6:
                new = [0] * f['w']
            elif k in ('fix', 'var') and r.random() < 0.6:
                new = [[]]
            elif k == 'list' and r.random() < 0.5:
                new = [[]] if not (old and old[0]) or r.random() < 0.5 else [old[0][:-1]]
            elif k == 'obj':
                new = [self.hollow(f['c'], None, 1.0)]
            else:
                new = self.other_value(f, cc, old)
            v = self.set_in(c, v, path, new)
        return v

    def is_key(self, c, f):
        return any(x['k'] == 'dyn' and x['sel'] == f.get('n') for x in self.tables[c])

    def hollow(self, c, dyn=None, zero=0.5):
        """everything that can be empty is"""
        r = self.rng
        out = []
        t = self.tables[c]
        sel = None
        for f in t:
            k = f['k']
            if k in ('num', 'flt', 'blen', 'chk'):
                out.append([0] * f['w'] if r.random() < zero else self.V.num(f['w']) if k != 'flt' else self.V.flt(f['w']))
            elif k == 'obj':
                out.append([self.hollow(f['c'], None, zero)])
            elif k == 'dyn':
                key, cls = dyn or r.choice(self.types[c])
                sel = key
                out.append([cls, self.hollow(cls, None, zero)])
            else:
                out.append(r.choice([[], [[]]]))
        return self.with_key(c, out, sel) if sel is not None else out

    # -- isolation ---------------------------------------------------------------------------------------------
    def isolation(self, n, variants=None, length=10):
        """several messages and buffers at once; every call's event shows all of them"""
        out = []
        r = self.rng
        oldmax = self.V.maxlist, self.V.maxtext
        self.V.maxlist, self.V.maxtext = 3, 12
        for c, dyn in (variants or self.all_variants()):
            for i in range(self.more(n, c)):
                p = self.prog(full=True)
                shadow = {}
                vals = [self.val(c, dyn if j % 2 == 0 else r.choice(self.variants(c)), 1.0) for j in range(3)]
                p.buf('x', r.choice(GROW))
                if i % 2:
                    vals = [self.emptied(c, v) for v in vals]
                elif r.random() < 0.5:
                    vals = [self.twins(c, v) for v in vals]
                for v in vals:
                    p.write('x', c, v)
                objs = ['a', 'b', 'd']
                for o, v in zip(objs, vals):
                    p.new(o, c)
                    p.dec(o, 'x')
                    shadow[o] = v
                p.buf('y', r.choice(GROW))
                for j in range(length):
                    k = r.randrange(9)
                    o = r.choice(objs)
                    if k >= 7:
                        ls = [(path, f, cc, old) for path, f, cc, old in self.leaves(c, shadow[o]) if f['k'] == 'list']
                        if ls:
                            low = [x for x in ls if not x[3] or not x[3][0]]
                            self.alter(p, o, c, r.choice(low if low and r.random() < 0.5 else ls), shadow)
                    elif k in (0, 1):
                        ls = self.leaves(c, shadow[o])
                        if not ls:
                            continue
                        low = [x for x in ls if any(len(y[0]) < len(x[0]) and y[1]['k'] == 'list' and tuple(x[0][:len(y[0])]) == tuple(y[0]) for y in ls)]
                        path, f, cc, old = r.choice(low if low and r.random() < 0.5 else ls)
                        x = self.encodable(f, cc, old) if f['k'] not in ('dyn',) else old
                        if f['k'] == 'dyn':
                            x = [old[0], self.V.msg(old[0])]
                        p.op('set', o=o, path=list(path), val=x)
                        shadow[o] = self.set_in(c, shadow[o], path, x)
                    elif k == 2:
                        p.enc(o, 'y')
                    elif k == 3:
                        v = self.val(c, r.choice(self.variants(c)))
                        if r.random() < 0.4:
                            v = self.emptied(c, v)
                        p.op('clear', b='x')
                        p.write('x', c, v)
                        p.dec(o, 'x')
                        shadow[o] = v
                    elif k == 4:
                        p.op('clear', b='x')
                        p.junk('x', [r.randrange(256) for _ in range(30)])
                    elif k == 5:
                        p.enc(o, 'y')
                        p.op('patch', b='y', i=0, x=r.randrange(256)) if self.tables[c] and not self.maybe_empty(c) else None
                    else:
                        q = r.choice(objs)
                        p.op('eq', a=o, b=q)
                p.op('release', b='x')
                p.op('str', o='a') if not self.has_float(c) else None
                p.enc('b', 'y')
                p.op('release', b='y')
                p.new('e', c)
                out.append(p.d)
        self.V.maxlist, self.V.maxtext = oldmax
        return out

    def alter(self, p, o, c, leaf, shadow):
        path, f, cc, old = leaf
        l = old[0] if old else []
        if l and self.rng.random() < 0.4:
            p.op('drop', o=o, path=list(path))
            l = l[:-1]
        else:
            x = self.V.elem(cc, f['el'])
            p.op('add', o=o, path=list(path), val=x)
            l = l + [x]
        shadow[o] = self.set_in(c, shadow[o], path, [l])

    def twins(self, c, v):
        """v with lists of parts that are all the same"""
        for path, f, cc, old in self.leaves(c, v)[::-1]:
            if f['k'] == 'list' and f['el']['k'] == 'obj' and old and old[0]:
                v = self.set_in(c, v, path, [[old[0][0]] * max(2, len(old[0]))])
        return v

    def emptied(self, c, v):
        """v without the elements of some of its lists"""
        for path, f, cc, old in self.leaves(c, v)[::-1]:
            if f['k'] == 'list' and self.rng.random() < 0.7:
                v = self.set_in(c, v, path, self.rng.choice([[], [[]]]))
        return v

    def maybe_empty(self, c):
        return not any(f['k'] in ('num', 'fix', 'list', 'var', 'flt') for f in self.tables[c])

    def has_float(self, c):
        return True

    def unlink(self, n, variants=None):
        """what happens to a buffer afterwards does not show in the message, nor the other way round"""
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(n):
                p = self.prog(full=True)
                v = self.val(c, dyn, 1.0)
                kind = r.choice(GROW + ['wrap'])
                p.peerbuf('x', kind, c, v)
                p.new('a', c)
                p.dec('a', 'x')
                if not self.maybe_empty(c):
                    for j in range(2):
                        p.op('patch', b='x', i=0, x=r.randrange(256))
                    p.op('scribble', b='x')
                p.op('clear', b='x')
                if kind != 'wrap':
                    p.write('x', c, self.val(c, dyn))
                p.op('release', b='x')
                p.buf('z', r.choice(['pooled', 'pooldir']), [r.randrange(256) for _ in range(300)])
                ky = r.choice(GROW)
                p.buf('y', ky, self.pre())
                p.enc('a', 'y')
                ls = self.leaves(c, v)
                r.shuffle(ls)
                shadow = v
                for path, f, cc, old in ls[:4]:
                    if f['k'] in ('obj', 'dyn', 'list'):
                        continue
                    p.op('set', o='a', path=list(path), val=self.other_value(f, cc, old))
                p.fill('a', self.val(c, dyn))
                p.buf('w', ky if r.random() < 0.5 else r.choice(GROW))
                p.enc('a', 'w')
                p.enc('a', 'y')
                p.op('release', b='y')
                p.enc('a', 'w')
                out.append(p.d)
                # nobody looks at the decoded message before its buffer is gone
                p = self.prog()
                p.buf('x', kind if kind != 'wrap' else 'pooled')
                p.write('x', c, v)
                p.write('x', c, v)
                p.new('a', c)
                p.dec('a', 'x')
                p.new('h', c)
                p.op('dec', o='h', b='x', hide=True)
                k = r.randrange(3)
                if k == 0:
                    p.op('scribble', b='x')
                elif k == 1:
                    p.op('clear', b='x')
                    p.junk('x', [r.randrange(256) for _ in range(600)])
                p.op('release', b='x')
                p.buf('z', r.choice(['pooled', 'pooldir']), [r.randrange(256) for _ in range(600)])
                p.op('view', o='h')
                p.op('view', o='a')
                out.append(p.d)
        return out

    def handover(self, n, variants=None):
        """a list or body taken out of a message stays as it was when that message is decoded again"""
        out = []
        r = self.rng
        oldmax = self.V.maxlist, self.V.maxtext
        self.V.maxlist, self.V.maxtext = 3, 12
        for c, dyn in (variants or self.all_variants()):
            parts = [i for i, f in enumerate(self.tables[c]) if f['k'] in ('dyn', 'list')]
            for i in parts:
                for j in range(n):
                    p = self.prog(full=True)
                    p.buf('x', r.choice(GROW))
                    vals = [self.val(c, dyn if m < 2 else r.choice(self.variants(c)), 1.0) for m in range(3)]
                    for v in vals:
                        p.write('x', c, v)
                    p.new('t', c)
                    p.new('h', c)
                    p.new('k', c)
                    p.dec('t', 'x')
                    p.op('share', o='h', **{'from': 't'}, i=i + 1)
                    p.dec('t', 'x')
                    p.op('share', o='k', **{'from': 't'}, i=i + 1)
                    p.dec('t', 'x')
                    p.fill('t', self.val(c, dyn))
                    out.append(p.d)
        self.V.maxlist, self.V.maxtext = oldmax
        return out

    # -- one field at a time ---------------------------------------------------------------------------------------
    def accessors(self, n):
        out = []
        r = self.rng
        for c in self.subjects():
            for i in range(n):
                p = self.prog()
                p.new('a', c)
                fields = list(range(len(self.tables[c])))
                r.shuffle(fields)
                cur = [None] * len(fields)
                for j in fields:
                    f = self.tables[c][j]
                    x = self.field_value(c, f)
                    p.op('set', o='a', path=[j + 1], val=x)
                    cur[j] = x
                for j in fields[:6]:
                    f = self.tables[c][j]
                    x = self.other_value(f, c, cur[j])
                    cur[j] = x
                    p.op('set', o='a', path=[j + 1], val=x)
                p.new('b', c)
                out.append(p.d)
        return out

    def field_value(self, c, f):
        if f['k'] == 'dyn':
            key, cls = self.rng.choice(self.types[c])
            return [cls, self.V.msg(cls)]
        self.V.rich = 0.7
        try:
            return self.V.field(c, f)
        finally:
            self.V.rich = 0.0

    # -- equality ----------------------------------------------------------------------------------------------------
    def near_pairs(self, f, c):
        """pairs of values of a field that a sloppy comparison mistakes for equal, or for different"""
        r = self.rng
        k = f['k']
        if k in ('num', 'blen', 'chk'):
            w = f['w']
            x = [r.randrange(256) for _ in range(w)]
            hi, lo = list(x), list(x)
            hi[0] ^= 128
            lo[-1] ^= 1
            out = [(x, hi), (x, lo), ([0] * w, [255] * w), (x, list(x)), ([255] * w, [255] * w)]
            if w == 8:
                out += [(x, x[4:] + x[:4]), ([0] * 4 + x[4:], [255] * 4 + [255 - b for b in x[4:]])]   # Long.hashCode
                out += [([0x7F] + [255] * 7, [0x7F] + [255] * 6 + [254])]                               # equal as doubles
            if w == 4:
                out += [([0x7F] + [255] * 3, [0x7F] + [255] * 2 + [254])]                               # equal as floats
            return out
        if k == 'flt':
            z = [0] * f['w']
            nz = [128] + z[1:]
            nan = [0x7F, 0xC0 if f['w'] == 4 else 0xF8] + z[2:]
            inf = [0x7F, 0x80 if f['w'] == 4 else 0xF0] + z[2:]
            one = [0x3F, 0x80 if f['w'] == 4 else 0xF0] + z[2:]
            return [(z, nz), (nz, z), (nan, nan), (nz, nz), (one, one[:-1] + [1]), (inf, [255] + inf[1:]), (nan, inf), (nan, one)]
        if k in ('fix', 'var'):
            A = [ord(x) for x in 'AaQ7']
            out = [([[65, 97]], [[66, 66]]), ([A], [[97] + A[1:]]), ([A], [A + [32]]), ([A], [[32] + A]), ([[]], []),
                   ([], []), ([[]], [[]]), ([[32]], [[]]), ([[ord(x) for x in 'null']], []), ([A], [A]), ([[0]], [[]]), ([A], [A + [0]]),
                   ([[48]], [[48, 48]]), ([[233]], [[101, 0x301]]), ([[0x1F600]], [[0x1F601]])]
            return out
        if k == 'list':
            el = f['el']
            if el['k'] == 'obj':
                x = [self.V.msg(el['c'])]
                y = [self.V.msg(el['c'])]
                return [([], []), ([], [[]]), ([[]], [[]]), ([[x]], [[x, x]]), ([[x, y]], [[y, x]]), ([[x, x]], [[x, y]]), ([[x, x]], [[y, x]])]
            out = [([], []), ([], [[]]), ([[]], [[]])]
            for a, b in self.near_pairs(el, c):
                if el['k'] in ('fix', 'var') and (not a or not b):
                    continue
                out += [([[a]], [[b]]), ([[a, a]], [[a, b]]), ([[a, b]], [[b, a]]), ([[a]], [[a, a]])]
            return out
        return []

    def equality(self, n, deep=4):
        out = []
        r = self.rng
        oldmax = self.V.maxlist
        self.V.maxlist = 3
        for c, dyn in self.all_variants():
            for i in range(n):
                p = self.prog()
                v = self.val(c, dyn, 1.0 if i % 2 == 0 else None)
                p.make('a', c, v)
                p.make('b', c, v)
                p.op('eq', a='a', b='b')
                ls = self.leaves(c, v)
                top = [x for x in ls if len(x[0]) == 1]
                rest = [x for x in ls if len(x[0]) > 1]
                r.shuffle(rest)
                for path, f, cc, old in top + rest[:deep]:
                    x = self.other_value(f, cc, old)
                    p.op('set', o='b', path=list(path), val=x)
                    p.op('eq', a='a', b='b')
                    p.op('set', o='b', path=list(path), val=old)
                p.op('eq', a='b', b='a')
                near = [x for x in ls if x[1]['k'] == 'flt']
                r.shuffle(near)
                near = near[:2 * deep] + r.sample(top, min(deep, len(top))) + rest[:1]
                for path, f, cc, old in near:
                    ps = self.near_pairs(f, cc)
                    same = ps[:1] if f['k'] in ('fix', 'var') and f.get('w', 2) > 1 else ps[6:7] if f['k'] == 'num' and f['w'] == 8 else []    # same hash
                    for x, y in same + r.sample(ps, min(len(ps), 8 if f['k'] == 'flt' else deep)):
                        p.op('set', o='a', path=list(path), val=x)
                        p.op('set', o='b', path=list(path), val=y)
                        p.op('eq', a='a', b='b')
                    p.op('set', o='a', path=list(path), val=old)
                    p.op('set', o='b', path=list(path), val=old)
                nums = [j for j, f in enumerate(self.tables[c]) if f['k'] == 'num' and f['w'] == 4]
                for j, k in zip(nums, nums[1:]):
                    if k == j + 1:                          # different messages with the same hash
                        b0, b1 = int.from_bytes(bytes(v[j]), 'big'), int.from_bytes(bytes(v[k]), 'big')
                        p.op('set', o='b', path=[j + 1], val=list(((b0 + 1) % 2 ** 32).to_bytes(4, 'big')))
                        p.op('set', o='b', path=[k + 1], val=list(((b1 - 31) % 2 ** 32).to_bytes(4, 'big')))
                        p.op('eq', a='a', b='b')
                        p.op('set', o='b', path=[j + 1], val=v[j])
                        p.op('set', o='b', path=[k + 1], val=v[k])
                        break
                p.new('c', c)
                p.op('eq', a='c', b='a')
                p.new('d', c)
                p.op('eq', a='c', b='d')
                # a message of another type, with the same fields if there is one
                same = [x for x in self.classes if x != c and [f['k'] for f in self.tables[x]] == [f['k'] for f in self.tables[c]]
                        and x not in self.types and c not in self.types]
                e = r.choice(same) if same else r.choice([x for x in self.classes if x != c])
                p.new('e', e)
                p.op('eq', a='c', b='e')
                p.op('eq', a='a', b='e')
                out.append(p.d)
        self.V.maxlist = oldmax
        return out

    def memory(self, n, what='eq'):
        """a message is looked at, changed in one of many ways, and looked at again"""
        out = []
        r = self.rng
        if what == 'str':
            self.V.ascii, self.V.simple_floats = True, True
        for c, dyn in self.all_variants():
            for i in range(n):
                p = self.prog()
                v = self.val(c, dyn, 1.0 if i % 2 == 0 else None)
                p.make('a', c, v)
                p.make('e', c, v)
                see = (lambda x, y: p.op('eq', a=x, b=y)) if what == 'eq' else (lambda x, y: p.op('str', o=x))
                see('a', 'e')
                p.buf('x', r.choice(GROW))
                ways = ['set', 'deep', 'dec', 'enc'] + (['key'] if c in self.types else [])
                r.shuffle(ways)
                ways.append('decenc')
                for way in ways:
                    ls = [x for x in self.leaves(c, v) if x[1]['k'] not in ('blen', 'chk', 'dyn') and not self.is_key(x[2], x[1])]
                    if way in ('set', 'deep'):
                        pick = [x for x in ls if (len(x[0]) > 1) == (way == 'deep')]
                        if not pick:
                            continue
                        path, f, cc, old = r.choice(pick)
                        x = self.encodable(f, cc, old)
                        if what == 'str' and f['k'] in ('fix', 'var') and x and any(ch > 126 for ch in x[0]):
                            x = [[65, 66]]
                        v = self.set_in(c, v, path, x)
                        p.op('set', o='a', path=list(path), val=x)
                        p.make('e', c, v)
                    elif way == 'dec':
                        w = self.neighbour(c, v) if r.random() < 0.5 else self.val(c, dyn, 1.0)
                        if self.whole(c, w):
                            v = w
                            p.write('x', c, v)
                            p.write('x', c, v)
                            p.dec('a', 'x')
                            p.new('e', c)
                            p.dec('e', 'x')
                    elif way == 'key':
                        v = self.val(c, r.choice(self.variants(c)))
                        p.write('x', c, v)
                        p.write('x', c, v)
                        p.dec('a', 'x')
                        p.new('e', c)
                        p.dec('e', 'x')
                    elif way == 'enc':          # computes lengths and checksums
                        p.buf('y', r.choice(GROW))
                        p.enc('a', 'y')
                        p.new('f', c)
                        p.dec('f', 'y')
                        see('a', 'f')
                        continue
                    else:
                        p.op('clear', b='x')
                        p.enc('a', 'x')
                        p.dec('a', 'x')
                    see('a', 'e')
                out.append(p.d)
        self.V.ascii, self.V.simple_floats = False, False
        return out

    def whole(self, c, v):
        """no required part is missing"""
        for i, f in enumerate(self.tables[c]):
            if f['k'] == 'obj' and (not v[i] or not self.whole(f['c'], v[i][0])):
                return False
            if f['k'] == 'dyn' and (not v[i] or not self.whole(v[i][0], v[i][1])):
                return False
            if f['k'] == 'list' and v[i] and f['el']['k'] == 'obj' and any(not x or not self.whole(f['el']['c'], x[0]) for x in v[i][0]):
                return False
        return True

    # -- printing ---------------------------------------------------------------------------------------------------------
    def printing(self, n):
        out = []
        r = self.rng
        self.V.ascii, self.V.simple_floats = True, True
        for c, dyn in self.all_variants():
            for i in range(n):
                p = self.prog()
                p.new('a', c)
                if i == 0:
                    p.op('str', o='a')
                v = self.val(c, dyn, 1.0 if i % 2 == 0 else None)
                p.fill('a', v)
                p.op('str', o='a')
                ls = [x for x in self.leaves(c, v)]
                r.shuffle(ls)
                for path, f, cc, old in ls[:3]:
                    x = self.other_value(f, cc, old)
                    if f['k'] in ('fix', 'var') and x and any(ch > 126 for ch in x[0]):
                        continue
                    p.op('set', o='a', path=list(path), val=x)
                    p.op('str', o='a')
                    p.op('set', o='a', path=list(path), val=old)
                out.append(p.d)
            if any(f['k'] in ('list', 'var') for f in self.tables[c]):
                old = self.V.maxlist, self.V.maxtext
                self.V.maxlist, self.V.maxtext = 40, 300
                p = self.prog()
                p.make('a', c, self.val(c, dyn, 1.0))
                p.op('str', o='a')
                out.append(p.d)
                self.V.maxlist, self.V.maxtext = old
        self.V.ascii, self.V.simple_floats = False, False
        return out

    # -- truncation -------------------------------------------------------------------------------------------------------------
    def truncation(self, n, variants=None):
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(n):
                p = self.prog()
                v = self.val(c, dyn, 1.0 if i % 2 == 0 else None)
                p.make('a', c, v)
                p.op('trunc', o='a', kind=['heap', 'tail', 'direct', 'ro', 'comp'][i % 5])
                for j in range(2):
                    p.buf('x', r.choice(GROW))
                    o = p.write('x', c, v)
                    o['cut'] = -r.choice([1, 1, 2, 3, 4, 5, 8, r.randrange(1, 200)])
                    p.new('b', c)
                    p.dec('b', 'x')
                p.dec('b', 'x')
                out.append(p.d)
        return out

    def unknown(self, n):
        """selectors that no type is assigned to"""
        out = []
        r = self.rng
        for c in self.typed():
            for i in range(n):
                p = self.prog()
                key, cls = r.choice(self.types[c])
                v = self.val(c, (key, cls), 1.0)
                k = self.unk_key(c)
                p.buf('x', r.choice(GROW))
                p.write('x', c, self.with_key(c, v, k))
                p.write('x', c, v)
                p.new('a', c)
                if r.random() < 0.5:
                    p.fill('a', v)
                p.dec('a', 'x')
                if c != NOREG:
                    p.op('tnew', w=c, k=k, o='n')
                    if isinstance(k, list):     # too long, padded
                        p.op('tnew', w=c, k=list(key) + [r.choice([0, 32, 48, 65])], o='n')
                        p.op('tnew', w=c, k=[r.choice([32, 48])] + list(key), o='n')
                        p.op('tnew', w=c, k=list(key) + list(key), o='n')
                if c == REVERSE:
                    p.op('mtype', k=k)
                if c in FRAMES:
                    p.make('b', c, self.with_key(c, v, k))
                    p.buf('y')
                    p.enc('b', 'y')
                    p.dec('a', 'y')
                else:
                    # inside a frame
                    f = [(fr, kk) for fr in FRAMES for kk, cc in self.types[fr] if cc == c]
                    if f:
                        fr, kk = r.choice(f)
                        w = self.val(fr, (kk, c))
                        j = [q for q, g in enumerate(self.tables[fr]) if g['k'] == 'dyn'][0]
                        w[j] = [c, self.with_key(c, v, k)]
                        p.buf('z')
                        p.write('z', fr, w)
                        p.new('f', fr)
                        p.dec('f', 'z')
                out.append(p.d)
        return out

    def every_type(self):
        """every assigned selector: from the factory, and by decoding"""
        out = []
        for c, dyn in self.owners():
            key, cls = dyn
            p = self.prog()
            if c != NOREG:
                p.op('tnew', w=c, k=key, o='n')
                p.op('tnew', w=c, k=key, o='m')
                p.op('eq', a='n', b='m')
            v = self.val(c, dyn, 1.0)
            p.buf('x')
            p.write('x', c, v)
            p.new('a', c)
            p.dec('a', 'x')
            if c == REVERSE:
                p.op('tof', c=cls)
                p.op('mtype', k=key)
            out.append(p.d)
        return out

    # -- lists and texts ----------------------------------------------------------------------------------------------------------
    SIZES = [0, 1, 2, 3, 127, 128, 129, 255, 256, 257]
    BIG = [32766, 32767, 32768, 32769, 65534, 65535]

    def lists(self, sizes, fields=None):
        """every list and every prefixed text at sizes around the edges of its prefix"""
        out = []
        r = self.rng
        for c in self.subjects():
            for i, f in enumerate(self.tables[c]):
                if f['k'] not in ('list', 'var') or (fields and not fields(c, f)):
                    continue
                more = [] if self.V.hints is None else self.V.hints.sizes(c, 1500)
                if len(more) > 8:
                    more = r.sample(more, 8)
                for n in sizes + [x for x in more if x not in sizes]:
                    for x in self.of_size(c, f, n):
                        p = self.prog()
                        v = self.val(c)
                        v[i] = x
                        kind = 'heap' if n > 1000 else r.choice(GROW)
                        p.make('a', c, v)
                        p.buf('x', kind)
                        p.enc('a', 'x')
                        if n <= 1000:
                            p.write('x', c, v)
                        p.new('b', c)
                        p.dec('b', 'x')
                        if n <= 1000:
                            p.dec('b', 'x')
                            p.op('eq', a='a', b='b')
                        out.append(p.d)
        return out

    def longlists(self, n):
        """sizes around the limits of 16-bit counts and lengths"""
        out = []
        r = self.rng
        todo = []
        for c in self.subjects():
            for i, f in enumerate(self.tables[c]):
                if f['k'] == 'var' or f['k'] == 'list':
                    w = 1 if f['k'] == 'var' else self.width(c, f['el'])
                    more = [] if self.V.hints is None else [x for x in self.V.hints.sizes(c, 65535) if x > 1000]
                    for size in self.BIG + [r.randrange(1000, 65536)] + more:
                        todo.append((c, i, f, size, w))
        r.shuffle(todo)
        cheap = [x for x in todo if x[4] <= 2]
        deep = [x for x in todo if 2 < x[4] <= 12 and x[3] < 40000]
        every = []                      # each count and length once with its top bit set
        for c in self.subjects():
            for i, f in enumerate(self.tables[c]):
                if f['k'] == 'list' or f['k'] == 'var' and f['w'] == 2:
                    w = 1 if f['k'] == 'var' else self.width(c, f['el'])
                    every.append((c, i, f, r.choice([32768, 32769, 40000, 65535] if w <= 4 else [32768, 32769]), w))
        every.sort(key=lambda x: -x[4])
        for c, i, f, size, w in every + cheap[:n // 2] + deep[:n - n // 2]:
            v = self.V.empty(c)
            v[i] = self.of_size(c, f, size)[0]
            p = self.prog()
            p.make('a', c, v)
            p.buf('x')
            p.enc('a', 'x')
            p.new('b', c)
            p.dec('b', 'x')
            out.append(p.d)
        return out

    def of_size(self, c, f, n):
        r = self.rng
        V = self.V
        if f['k'] == 'var':
            if n == 0:
                return [[], [[]]]
            res = [[V.chars(n, False)]]
            if n < 1000:
                res.append([V.chars(n, True)])
            return res
        if n == 0:
            return [[], [[]]]
        el = f['el']
        if n > 300:
            base = [self.small(c, el, j) for j in range(16)]
            return [[[base[r.randrange(16)] for _ in range(n)]]]
        if el['k'] == 'var':
            return [[[V.elem(c, el) for _ in range(n)]], [[[] if r.random() < .5 else [[]] for _ in range(n)]]]
        return [[[V.elem(c, el) if el['k'] != 'obj' or n < 10 else self.small(c, el, j) for j in range(n)]]]

    def small(self, c, el, j):
        V = self.V
        old = V.maxlist, V.maxtext
        V.maxlist, V.maxtext = 1, 3
        try:
            return V.elem(c, el)
        finally:
            V.maxlist, V.maxtext = old

    # -- fixed-width text ---------------------------------------------------------------------------------------------------------
    def fixed(self, n, per=8):
        out = []
        r = self.rng
        more = [] if self.V.hints is None else self.V.hints.sizes('', 3000)
        words = [] if self.V.hints is None else self.V.hints.words('')
        for i in range(n):
            p = self.prog()
            p.buf('x', r.choice(GROW))
            total = 0
            for j in range(per):
                w = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 10, 12, 16, 30, 64, r.randrange(200)])
                if more and r.random() < 0.3:
                    w = r.choice(more)
                pad, left = r.choice([(32, False), (32, True), (48, True), (48, False), (0, False), (0, True), (120, True), (46, False)])
                t = self.V.fix(w, pad, left)
                if words and r.random() < 0.2:
                    t = [r.choice(words)]
                brief = (pad, left) == (32, False) and r.random() < 0.5
                p.op('fixw', b='x', t=t, n=w, pad=pad, left=left, brief=brief)
                total += w
                p.op('fixr', b='x', n=w, pad=pad, left=left, brief=brief)
                if t and r.random() < 0.3:
                    q = [pad] * r.randrange(3)
                    p.op('trim', t=q + t[0] + q, pad=pad, left=left)
                if w and all(ch < 128 for ch in (t[0] if t else [])) and r.random() < 0.5:
                    # the same bytes read with another width and another trimming
                    p.seek('x', total - w)
                    p.op('fixr', b='x', n=r.randrange(0, w + 1), pad=r.choice([32, 48, 0]), left=r.random() < 0.5, brief=False)
                    p.seek('x', total)
                if r.random() < 0.1:        # more than there is
                    p.seek('x', total)
                    p.op('fixr', b='x', n=r.randrange(1, 5), pad=pad, left=left, brief=False)
            out.append(p.d)
        return out

    # -- checksums ----------------------------------------------------------------------------------------------------------------
    SERVICES = [('CRC16', 'crc16'), ('CRC32', 'crc32'), ('SSE_BIN', 'sum'), ('SZSE_BIN', 'sum')]

    def checksums(self, n, maxlen=300):
        out = []
        r = self.rng
        more = [] if self.V.hints is None else self.V.hints.sizes(None, 9000)
        for i in range(n):
            p = self.prog()
            for j, (a, m) in enumerate(self.SERVICES):
                p.op('svc', s='s%d' % j, alg=a, impl=m)
            k = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, r.randrange(maxlen), r.randrange(maxlen)])
            if more and r.random() < 0.3:
                k = r.choice(more)
            elif i % 25 == 3:
                k = r.choice([511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 8193])
            elif i % 500 == 7:
                k = r.choice([65535, 65536, 65537, 70000])
            m = r.randrange(5)
            d = ([r.randrange(256) for _ in range(k)] if m < 3 else [255] * k if m == 3 else [r.choice([0, 0x80, 0x7F, 0xFF]) for _ in range(k)])
            rd = r.choice([0, 0, r.randrange(len(d) + 1), min(len(d), 1)])
            p.buf('x', r.choice(READ), d, rd)
            order = [0, 1, 2, 3]
            r.shuffle(order)
            for j in order:
                p.op('calc', s='s%d' % j, b='x')
                p.op('verify', s='s%d' % j, b='x', x=self.checksum_guess(j, d[rd:]))
                p.op('verify', s='s%d' % j, b='x', x=self.near(self.checksum_guess(j, d[rd:])))
            p.op('calc', s='s%d' % order[0], b='x')
            p.buf('y', r.choice(READ), d[rd:] + [])
            p.op('calc', s='s%d' % order[1], b='y')
            p.op('seek', b='x', r=len(d))
            p.op('calc', s='s%d' % order[2], b='x')
            if i % 4 == 0 and 0 < len(d) < 2000:        # the same buffer with other contents
                p.buf('z', r.choice(GROW), d, rd)
                for j in order:
                    p.op('calc', s='s%d' % j, b='z')
                    p.op('patch', b='z', i=r.randrange(rd, len(d)) if rd < len(d) else 0, x=r.randrange(256))
                    p.op('calc', s='s%d' % j, b='z')
                p.op('scribble', b='z')
                p.op('calc', s='s%d' % order[0], b='z')
                p.op('clear', b='z')
                p.junk('z', [r.randrange(256) for _ in d])
                p.op('seek', b='z', r=rd)
                p.op('calc', s='s%d' % order[0], b='z')
                p.op('calc', s='s%d' % order[1], b='z')
            out.append(p.d)
        return out

    def near(self, x):
        r = self.rng
        y = list(x)
        y[r.choice([0, 1, 2, 3, 3])] ^= 1 << r.randrange(8)
        return y

    @staticmethod
    def checksum_guess(j, b):
        import zlib
        if j == 0:
            c = 0xFFFF
            for x in b:
                c ^= x
                for _ in range(8):
                    c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
        elif j == 1:
            c = zlib.crc32(bytes(b))
        else:
            c = sum(b) & 255
        return list(c.to_bytes(4, 'big'))

    # -- registries ---------------------------------------------------------------------------------------------------------------------
    def registry(self, n, length=25):
        out = []
        r = self.rng
        names = ['CRC16', 'CRC32', 'SSE_BIN', 'SZSE_BIN', 'OTHER', 'crc32', '']
        if self.V.hints is not None:
            names = names + [''.join(map(chr, x)) for x in self.V.hints.words('')][:6]
        for i in range(n):
            p = self.prog(fresh=True)
            svcs = []
            for j in range(5):
                p.op('svc', s='s%d' % j, alg=r.choice(names), impl=r.choice(['crc16', 'crc32', 'sum', 'const']))
                svcs.append('s%d' % j)
            fr = {}
            for j in range(length):
                k = r.random()
                if k < 0.35:
                    p.op('reg', s=r.choice(svcs))
                elif k < 0.5:
                    p.op('unreg', n=r.choice(names))
                elif k < 0.55:
                    p.op('regclr')
                elif k < 0.85:
                    p.op('look', n=r.choice(names))
                else:
                    c = r.choice(['sse_SseBinary', 'szse_SzseBinary', 'sample_RootPacket'])
                    if c not in fr:
                        fr[c] = c[:2]
                        p.make(fr[c], c, self.V.msg(c))
                        p.buf(fr[c])
                    p.enc(fr[c], fr[c])
            for a in names:
                p.op('look', n=a)
            out.append(p.d)
        return out

    def typehist(self, n, length=18):
        """registration histories, with decodes in between"""
        out = []
        r = self.rng
        for c in self.typed():
            for i in range(n if c != NOREG else 0):
                p = self.prog(fresh=True)
                cur = {self.hk(k): x for k, x in self.types[c]}
                back = {self.hk(k): k for k, _ in self.types[c]}
                extra = [self.unk_key(c) for _ in range(2)]
                known = [k for k, _ in r.sample(self.types[c], min(3, len(self.types[c])))]
                keys = known + extra
                prefix = c.split('_')[0]
                pool = sorted({x for k, x in self.types[c]})
                pool = r.sample(pool, min(3, len(pool))) + r.sample([x for x in self.classes if x.startswith(prefix) and x not in self.types], 2)
                pool.append(r.choice(self.users))
                others = [x for x in self.types if x not in (c, NOREG) and x.startswith(prefix)] or [x for x in self.types if x not in (c, NOREG)]
                p.new('t', c)
                for j in range(length):
                    m = r.random()
                    k = r.choice(keys)
                    if m < 0.3:
                        x = r.choice(pool)
                        p.op('treg', w=c, k=k, c=x)
                        cur[self.hk(k)] = x
                    elif m < 0.5:
                        p.op('trem', w=c, k=k)
                        cur.pop(self.hk(k), None)
                    elif m < 0.65:
                        p.op('tnew', w=c, k=k, o='n%d' % j)
                    elif m < 0.85:
                        x = cur.get(self.hk(k), r.choice(pool))
                        v = self.val(c)
                        d = [q for q, g in enumerate(self.tables[c]) if g['k'] == 'dyn'][0]
                        v[d] = [x, self.V.msg(x)]
                        p.buf('x', r.choice(GROW))
                        p.make('a', c, self.with_key(c, v, k))
                        p.enc('a', 'x')
                        p.dec('t', 'x')
                    elif m < 0.93 and c == REVERSE:
                        p.op('tof', c=r.choice(pool))
                        p.op('mtype', k=k)
                    else:
                        o = r.choice(others)
                        p.op('tnew', w=o, k=r.choice(self.types[o])[0], o='o%d' % j)
                for k in keys:
                    p.op('tnew', w=c, k=k, o='z')
                if c == REVERSE:
                    for x in pool:
                        p.op('tof', c=x)
                out.append(p.d)
        return out

    def foreign(self, n):
        """messages that carry a part of a class that the user wrote and registered"""
        out = []
        r = self.rng
        for c in self.typed():
            for i in range(n if c != NOREG else 0):
                p = self.prog(fresh=True)
                x = self.users[i % len(self.users)]
                k = self.unk_key(c) if r.random() < 0.7 else r.choice(self.types[c])[0]
                d = [q for q, g in enumerate(self.tables[c]) if g['k'] == 'dyn'][0]

                def carrying(cls):
                    v = self.val(c)
                    v[d] = [cls, self.V.msg(cls)]
                    return self.with_key(c, v, k)

                p.op('treg', w=c, k=k, c=x)
                p.op('tnew', w=c, k=k, o='n')
                p.op('tnew', w=c, k=k, o='m')
                p.op('eq', a='n', b='m')
                same = [z for _, z in self.types[c] if z.split('_')[1] == x.split('_')[1]]        # the library's class of that name
                if c == REVERSE:
                    for z in [x] + same:
                        p.op('tof', c=z)
                p.buf('x', r.choice(GROW))
                many = r.randrange(2, 5)
                for j in range(many):
                    if r.random() < 0.25:
                        p.make('a%d' % j, c, self.val(c, r.choice([y for y in self.types[c] if y[0] != k] or [self.types[c][0]])))
                    else:
                        p.make('a%d' % j, c, carrying(x))
                    p.enc('a%d' % j, 'x')
                p.op('trunc', o='a0', kind='heap')
                p.op('str', o='a0')
                for j in range(many):
                    t = 't%d' % (j if r.random() < 0.5 else 0)
                    p.new(t, c)
                    p.dec(t, 'x')
                    p.op('eq', a=t, b='a%d' % j)
                    p.op('str', o=t)
                y = r.choice(self.users)
                p.op('treg', w=c, k=k, c=y)                 # another class takes its place
                p.make('b', c, carrying(y))
                p.enc('b', 'x')
                p.dec('t0', 'x')
                if c == REVERSE:
                    p.op('tof', c=x)
                    p.op('tof', c=y)
                p.op('trem', w=c, k=k)
                p.enc('b', 'x')
                p.dec('t0', 'x')
                p.op('tnew', w=c, k=k, o='n')
                if c == REVERSE:
                    for z in [x] + same:
                        p.op('tof', c=z)
                out.append(p.d)
        return out

    @staticmethod
    def hk(k):
        return tuple(k) if isinstance(k, list) else k

    # -- bitmaps ----------------------------------------------------------------------------------------------------------------------------
    def bitmaps(self, n, length=16):
        out = []
        r = self.rng
        for i in range(n):
            p = self.prog()
            w = r.choice([8, 16, 32, 64])
            for m in 'pqr':
                p.op('bm', m=m, n=w)
            p.buf('x', r.choice(GROW))
            queue = 0
            edge = [0, 1, 6, 7, 8, w - 1, w - 2, w // 2, w // 2 - 1]
            for j in range(length):
                k = r.random()
                m = r.choice('pqr')
                pos = r.choice([x for x in edge if x < w]) if r.random() < 0.5 else r.randrange(w)
                if k < 0.5:
                    p.op('bset', m=m, p=pos)
                elif k < 0.7:
                    p.op('bclr', m=m, p=pos)
                elif k < 0.85 or not queue:
                    p.op('bwrite', m=m, b='x')
                    queue += 1
                else:
                    p.op('bread', m=m, b='x')
                    queue -= 1
            while queue:
                p.op('bread', m=r.choice('pqr'), b='x')
                queue -= 1
            out.append(p.d)
        return out

    def bitmap_subsets(self, per=40):
        """write and read of systematic sets: single positions, all but one, prefixes, random"""
        out = []
        r = self.rng
        for w in (8, 16, 32, 64):
            sets = [[]] + [[i] for i in range(w)] + [[j for j in range(w) if j != i] for i in range(w)] + \
                   [list(range(i)) for i in range(1, w + 1)] + [[j for j in range(w) if r.random() < q] for q in (.1, .5, .9) for _ in range(per)]
            for s in sets:
                p = self.prog()
                p.op('bm', m='p', n=w)
                p.op('bm', m='q', n=w)
                for i in s:
                    p.op('bset', m='p', p=i)
                p.op('bset', m='q', p=r.randrange(w))
                p.buf('x', r.choice(GROW), [9], 1)
                p.op('bwrite', m='p', b='x')
                p.op('bwrite', m='q', b='x')
                p.op('bread', m='q', b='x')
                p.op('bread', m='p', b='x')
                out.append(p.d)
        return out

    # -- the caller's buffer -------------------------------------------------------------------------------------------------------------------
    def ownership(self, n, variants=None):
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(n):
                p = self.prog()
                v = self.val(c, dyn, 1.0 if i % 2 else None)
                p.make('a', c, v)
                p.buf('x', r.choice(['pooled', 'pooldir', 'direct', 'heap', 'safe', 'comp']), self.pre())
                p.enc('a', 'x')
                p.enc('a', 'x')
                kind = r.choice(['ro', 'rodir', 'wrap', 'pooldir', 'pooled'])
                p.peerbuf('y', kind, c, v, self.pre())
                p.new('b', c)
                p.dec('b', 'y')
                p.dec('b', 'y')                 # nothing left: fails, unless the message is empty
                p.buf('z', r.choice(['pooled', 'pooldir', 'direct', 'ro', 'comp']))
                if p.d['ops'][-1]['kind'] != 'ro':
                    o = p.write('z', c, v)
                    o['cut'] = -r.randrange(1, 9)
                p.dec('b', 'z')
                if c in self.types:
                    p.buf('w', r.choice(['pooled', 'pooldir', 'direct']))
                    p.write('w', c, self.with_key(c, v, self.unk_key(c)))
                    p.dec('b', 'w')
                    p.op('release', b='w')
                for j, (a, m) in enumerate(self.SERVICES):
                    p.op('svc', s='s', alg=a, impl=m)
                    p.op('calc', s='s', b=r.choice('xy'))
                p.op('release', b='x')
                if not kind.startswith('ro'):
                    p.op('release', b='y')
                out.append(p.d)
        return out

    def failing(self, n):
        """encodings that cannot succeed because a required part is missing"""
        out = []
        r = self.rng
        for c in self.subjects():
            objs = [i for i, f in enumerate(self.tables[c]) if f['k'] == 'obj']
            if not objs:
                continue
            for i in range(n):
                p = self.prog()
                v = self.val(c)
                v[r.choice(objs)] = []
                p.make('a', c, v)
                p.buf('x', r.choice(['pooled', 'pooldir', 'direct', 'heap']), self.pre())
                p.enc('a', 'x')
                p.op('release', b='x')
                out.append(p.d)
        return out

    def recover(self, n, variants=None):
        """calls that cannot succeed, and the same things done properly afterwards"""
        out = []
        r = self.rng
        for c, dyn in (self.frames() if variants == 'frames' else variants or self.all_variants()):
            objs = [i for i, f in enumerate(self.tables[c]) if f['k'] in ('obj', 'dyn')]
            for i in range(n):
                p = self.prog()
                v = self.val(c, dyn, 1.0 if r.random() < 0.5 else None)
                p.make('a', c, v)
                p.new('t', c)
                if i % 2:
                    p.buf('x', r.choice(GROW))
                    p.enc('a', 'x')
                for j in range(2):
                    m = r.randrange(5 if objs else 4)
                    if m < 2:           # no room
                        self.room(p, 'l', c, v, r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 9, 12, r.randrange(90), -1, -100]))
                        p.enc('a', 'l')
                        p.op('release', b='l')
                    elif m == 2:        # cut short
                        p.buf('y', 'heap')
                        o = p.write('y', c, self.val(c, dyn, 1.0))
                        o['cut'] = -r.choice([1, 2, 3, 4, 5, 8, r.randrange(1, 60)])
                        p.dec('t', 'y')
                    elif m == 3 and c in self.types:        # a selector without a type
                        p.buf('y', 'heap')
                        p.write('y', c, self.with_key(c, self.val(c, dyn), self.unk_key(c)))
                        p.dec('t', 'y')
                    elif m == 4:        # a part is missing
                        w = list(v)
                        w[r.choice(objs)] = []
                        p.make('g', c, w)
                        p.buf('y', 'heap')
                        p.enc('g', 'y')
                pre = self.pre()
                p.buf('z', r.choice(GROW), pre, len(pre))
                p.enc('a', 'z')
                p.write('z', c, self.val(c, dyn))
                p.dec('t', 'z')
                p.new('b', c)
                p.dec('b', 'z')
                p.dec('b', 'z')
                p.enc('b', 'z')
                out.append(p.d)
        return out

    NOISE = [0, 0, 0, 0, 1, 2, 3, 127, 128, 255, 0xF0, 0x9F, 0x98, 0xE4, 0xB8, 0xC3, 0xA9, 0x41, 0x20, 0xED, 0xA0, 0xC0]

    def prefixes(self, c, at=0):
        """where the lengths and counts of an all but empty message are: [(offset, width)]"""
        out = []
        for f in self.tables[c]:
            if f['k'] in ('var', 'list'):
                out.append((at, f['w']))
            elif f['k'] == 'dyn':
                return out, at
            if f['k'] == 'obj':
                o, at = self.prefixes(f['c'], at)
                out += o
            else:
                at += f['w']
        return out, at

    HOSTILE = [[255] * 4, [127, 255, 255, 255], [255, 255, 255, 127], [128, 0, 0, 0], [0, 0, 0, 128], [0, 0, 255, 255], [1, 0, 0, 0],
               [0, 0, 1, 0], [0, 1, 0, 0], [64, 0, 0, 0], [0, 0, 0, 64], [32, 0, 0, 1], [255, 255, 255, 254]]

    def noise(self, n, variants=None):
        """bytes that no peer would send, from random ones to a message with a few wrong ones"""
        out = []
        r = self.rng
        for c, dyn in (variants or self.all_variants()):
            for i in range(n):
                p = self.prog()
                p.new('t', c)
                m = i % 3
                kind = r.choice(READ)
                if m == 0:
                    d = [r.choice(self.NOISE) if r.random() < 0.8 else r.randrange(256) for _ in range(r.choice([0, 1, 5, 30, 120, 300]))]
                    p.buf('x', kind, d, 0)
                elif m == 1:
                    p.peerbuf('x', kind, c, self.val(c, dyn, 1.0 if r.random() < 0.5 else None))
                    p.d['ops'][-1]['mut'] = [[r.random() ** 2, r.choice(self.NOISE + [r.randrange(256)])] for _ in range(r.choice([1, 1, 2, 5]))]
                else:               # a message, but not where the reader thinks it is
                    p.peerbuf('x', kind, c, self.val(c, dyn), self.pre() or [0])
                    p.d['ops'][-1]['r'] = 0
                p.dec('t', 'x')
                p.dec('t', 'x')
                if c in self.types and r.random() < 0.3:
                    p.buf('y')
                    p.enc('t', 'y')
                p.new('u', c)
                p.buf('z', 'heap')
                p.write('z', c, self.val(c, dyn))
                p.dec('u' if r.random() < 0.5 else 't', 'z')
                out.append(p.d)
        # lengths and counts that the input does not keep
        for c in sorted({c for c, _ in variants or self.all_variants()}):
            places, _ = self.prefixes(c)
            for at, w in places if len(places) <= 2 * n else r.sample(places, 2 * n):
                x = r.choice(self.HOSTILE) if w == 4 else r.choice([[255] * w, [127] + [255] * (w - 1), [255] * (w - 1) + [127], [128] + [0] * (w - 1),
                                                                     [0] * (w - 1) + [128], [1] * w])
                p = self.prog()
                p.new('t', c)
                p.peerbuf('x', r.choice(READ), c, self.hollow(c))
                p.d['ops'][-1]['mut'] = [[at + i, b] for i, b in enumerate(x[:w])]
                p.dec('t', 'x')
                p.buf('z', 'heap')
                p.write('z', c, self.val(c))
                p.dec('t', 'z')
                out.append(p.d)
        return out

    # -- threads --------------------------------------------------------------------------------------------------------------------------------
    def thread_ops(self, t, length, mode):
        """one thread's calls on messages and buffers of its own"""
        r = self.rng
        ops = []
        q = Prog(0)
        b = 'b%d' % t
        kinds = ['sched'] if mode == 'det' else ['heap', 'direct', 'pooled', 'pooldir']
        q.buf(b, r.choice(kinds))
        for j in range(length):
            k = r.random()
            c = r.choice(FRAMES + FRAMES + ['sample_StringPacket', 'sample_NestedPacket', 'risk_NewOrder', 'szse_NewOrder', 'bjse_Quote'] + self.classes[:0])
            if r.random() < 0.3:
                c = r.choice(self.classes)
            if self.only is not None:
                c = r.choice(sorted(self.only | set(self.typed())))
            o, o2 = 't%d_%d' % (t, j), 't%d_%dr' % (t, j)
            q.make(o, c, self.val(c))
            q.enc(o, b)
            q.new(o2, c)
            q.dec(o2, b)
            if k < 0.3:
                q.op('svc', s='s%d_%d' % (t, j), **dict(zip(('alg', 'impl'), r.choice(self.SERVICES))))
                q.op('seek', b=b, r=0)
                q.op('calc', s='s%d_%d' % (t, j), b=b)
                q.op('clear', b=b)
            elif k < 0.45:
                fr = r.choice([x for x in self.types if x != NOREG])
                q.op('tnew', w=fr, k=r.choice(self.types[fr])[0], o='t%d_%dn' % (t, j))
            elif k < 0.6:
                q.op('eq', a=o, b=o2)
            elif k < 0.68:
                q.op('str', o=o)
            elif k < 0.74:
                q.op('trim', t=(self.V.fix(8, 32, False) or [[65, 32]])[0] if r.random() < 0.5 else [32, 65, 32], pad=32, left=r.random() < 0.5)
            elif k < 0.8:
                q.op('mtype', k=r.choice(self.types['sse_SseBinary'])[0])
        return q.d['ops']

    def racing(self, n, threads=2):
        """the same calls at the same time, on messages and buffers of each thread's own; a thread can be interrupted before any access to
        memory that is shared ("inst"); often these are the first calls in a newly loaded library"""
        out = []
        r = self.rng
        themes = ['enc', 'dec', 'calc', 'calc', 'type', 'eq', 'str', 'any']
        for i in range(n):
            p = self.prog(fresh=(r.random() < 0.6))
            p.d['inst'] = True
            theme = r.choice(themes)
            c = r.choice(FRAMES + self.typed() + ['sample_StringPacket', 'sample_NestedPacket', 'sample_BasicPacket']) if r.random() < 0.6 else r.choice(self.classes)
            if self.only is not None:
                c = r.choice(sorted(self.only | set(self.typed())))
            if theme in ('type', 'dec') and self.typed() and r.random() < 0.5:
                c = r.choice([x for x in self.typed() if x in FRAMES] or self.typed())
            svc = r.choice(self.SERVICES)
            shared = r.choice(self.variants(c)) if r.random() < 0.6 else None        # all threads use the same type of body
            own = shared is None and r.random() < 0.6        # each thread has one of its own
            ts = []
            for t in range(threads):
                q = Prog(0)
                pre = q if p.d['fresh'] or r.random() < 0.3 else p         # what is made ready before the threads start
                b = 'b%d' % t
                pre.buf(b, 'sched')
                later = []
                mine = shared or (r.choice(self.variants(c)) if own else None)
                for j in range(r.choice(([2, 3, 4] if own else [1, 1, 2, 4]) if theme in ('type', 'dec') else [1, 1, 2])):
                    o, o2, s = ['t%d_%d%s' % (t, j, x) for x in ('', 'r', 's')]
                    if theme == 'calc':
                        pre.op('svc', s=s, alg=svc[0], impl=svc[1])
                        (pre if j == 0 else q).junk(b, [r.randrange(256) for _ in range(r.randrange(1, 7))])
                        q.op('calc', s=s, b=b)
                        q.op('clear', b=b)
                        continue
                    if theme == 'type':
                        fr = c if c in self.types and c != NOREG else 'sse_SseBinary'
                        key, cls = mine if mine and fr == c else r.choice(self.types[fr])
                        q.op('tnew', w=fr, k=key, o=o + 'n')
                        later.append((o + 'n', self.val(cls)))
                        if r.random() < 0.5:
                            q.op('mtype', k=r.choice(self.types['sse_SseBinary'])[0])
                        continue
                    plain = self.V.simple_floats
                    self.V.simple_floats = plain or theme == 'str'
                    pre.make(o, c, self.val(c, mine))
                    self.V.simple_floats = plain
                    if theme == 'str':
                        q.op('str', o=o)
                        continue
                    if theme == 'eq':
                        pre.make(o2, c, self.val(c, mine))
                        q.op('eq', a=o, b=o2)
                        continue
                    (pre if theme == 'dec' else q).enc(o, b)
                    if theme == 'enc' and r.random() < 0.5:
                        q.op('clear', b=b)
                        continue
                    pre.new(o2, c)
                    q.dec(o2, b)
                    if theme == 'any':
                        q.op('eq', a=o, b=o2)
                        q.op('svc', s=s, alg=svc[0], impl=svc[1])
                        q.op('seek', b=b, r=0)
                        q.op('calc', s=s, b=b)
                        q.op('clear', b=b)
                for o, v in later:
                    q.fill(o, v)
                    q.enc(o, b)
                ts.append(q.d['ops'])
            if r.random() < 0.5:        # few switches, somewhere near the beginning
                top = r.choice([8, 16, 30, 60])
                order = list(range(threads))
                r.shuffle(order)
                sched = [[t, r.randrange(top)] for t in order] + [[t, r.choice([r.randrange(top), 100000])] for t in order]
            else:
                top = r.choice([3, 10, 40, 150, 600])
                sched = [[r.randrange(threads), int(top ** r.random())] for _ in range(r.choice([1, 2, 3, 20, 60]))]
            p.op('par', threads=ts, sched=sched, mode='det')
            out.append(p.d)
        return out

    def meeting(self, n, share=1.0):
        """two threads create bodies, of the same type or not, with every way to switch twice in the first n steps of each"""
        out = []
        r = self.rng
        for c in self.typed():
            if c == NOREG:
                continue
            for k0 in range(n):
                for k1 in range(n):
                    if r.random() > share:
                        continue
                    p = self.prog()
                    p.d['inst'] = True
                    key, cls = r.choice(self.types[c])
                    for j in range(r.randrange(3)):
                        p.op('tnew', w=c, k=key, o='p%d' % j)
                    others = [x for x in self.types[c] if x[1] != cls]
                    apart = others and (k0 + k1) % 2        # each thread has a type of its own
                    ts = []
                    for t in range(2):
                        if apart and t:
                            key, cls = r.choice(others)
                        q = Prog(0)
                        q.buf('b%d' % t, 'sched')
                        names = ['t%d_%d' % (t, j) for j in range(2)]
                        for o in names:
                            q.op('tnew', w=c, k=key, o=o)
                        for o in names:
                            q.fill(o, self.val(cls))
                        for o in names:
                            q.enc(o, 'b%d' % t)
                        ts.append(q.d['ops'])
                    p.op('par', threads=ts, sched=[[0, k0], [1, k1], [0, 100000], [1, 100000]], mode='det')
                    out.append(p.d)
        return out

    def threads(self, n, threads=2, length=2, mode='det', scheds=None):
        out = []
        r = self.rng
        for i in range(n):
            p = self.prog(fresh=(r.random() < 0.05))
            ts = [self.thread_ops(t, length, mode) for t in range(threads)]
            if scheds:
                sched = scheds[i % len(scheds)]
            else:
                sched = [[r.randrange(threads), r.choice([1, 1, 2, 3, 5, 8])] for _ in range(60)]
            p.op('par', threads=ts, sched=sched, mode=mode)
            out.append(p.d)
        return out
