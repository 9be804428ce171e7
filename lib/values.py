"""Random and boundary values for messages, from the wire tables of the specification."""
import random

PADS = [32, 48, 0]
MULTI = [0xE9, 0x3B1, 0x4E2D, 0x20AC, 0x1F600, 0x7FF, 0x800, 0x80, 0xFEFF, 0x3000, 0xA0, 0x2028, 0x301, 0xDF, 0x130, 0xFFFD, 0xFFFF,
         0x10FFFF, 0xD7FF, 0xE000, 0x10000, 0x85]
WORDS = ['null', 'NULL', 'NaN', 'true', 'false', 'None', '-1', '+1', '1.0', '0', '00', '000', '007', '0.00', '1e5', '0x1F', 'N/A', '-', '--', '.', '%s',
         '%', '\\n', '\\', '"', "'", '{}', '[]', '()', '$1', '#', '*', '?', '600000', '20240101', '093000000', '235959999', 'A', 'a', 'aA', 'Aa', 'BB', 'AaAa', 'BBBB', 'AaBB', 'BBAa', 'C#', 'Bb']
STYLES = [b'0123456789', b'00001234', b'ABCDEFGHIJKLMNOPQRSTUVWXYZ', b'abcdefghijklmnopqrstuvwxyz', b'0123456789ABCDEF', b'0123456789abcdef', b'aAbB',
          b'-+.,:;/_', b'\t\r\n ', b'0 ', b'0 A']
FLT4 = [[0, 0, 0, 0], [63, 128, 0, 0], [191, 128, 0, 0], [63, 192, 0, 0], [194, 246, 0, 0], [62, 128, 0, 0]]
FLT8 = [[0] * 8, [63, 240] + [0] * 6, [191, 240] + [0] * 6, [63, 248] + [0] * 6, [192, 94, 192] + [0] * 5,
        [63, 208] + [0] * 6]
FLT4X = FLT4 + [[128, 0, 0, 1], [0x7F, 0x7F, 255, 255], [0x7F, 0x80, 0, 0], [0xFF, 0x80, 0, 0], [0x7F, 0xC0, 0, 0],
                [0, 0, 0, 1], [128, 0, 0, 0], [0x12, 0x34, 0x56, 0x78], [0x80, 0x81, 0xFE, 0xFF]]
FLT8X = FLT8 + [[0x7F, 0xEF] + [255] * 6, [0x7F, 0xF0] + [0] * 6, [0xFF, 0xF0] + [0] * 6, [0x7F, 0xF8] + [0] * 6,
                [0] * 7 + [1], [128] + [0] * 7, [1, 2, 3, 4, 5, 6, 7, 8], [0x80, 0x81, 0x82, 0x83, 0xFC, 0xFD, 0xFE, 0xFF]]


def u8len(cp):
    return 1 if cp < 0x80 else 2 if cp < 0x800 else 3 if cp < 0x10000 else 4


class Values:
    def __init__(self, schema, rng, ascii_only=False, simple_floats=False):
        self.tables = schema['tables']
        self.types = schema['types']
        self.rng = rng
        self.ascii = ascii_only
        self.simple_floats = simple_floats
        self.maxlist = 6
        self.maxtext = 40
        self.rich = 0.0   # probability bias towards full, non-empty values
        self.hints = None
        self.hintp = 0.25
        self.payload = False    # NaNs other than the canonical one

    # -- constants worth trying ------------------------------------------------------------
    COMMON = [[c] for c in range(48, 58)] + [[c] for c in b'ABCDFNUXYabny'] + [[48, c] for c in range(48, 58)] + [[49, 48], [57, 57]]

    def hinted(self, c, f):
        """values of field f of class c that constants in the code suggest"""
        h = self.hints
        if h is None:
            return []
        k, out = f['k'], []
        if k in ('num', 'blen', 'chk'):
            top = 1 << (8 * f['w'])
            out = [list((x % top).to_bytes(f['w'], 'big')) for x in h.numbers(c) if x < top]
            out += [list((-x % top).to_bytes(f['w'], 'big')) for d in h.sources(c) for x in h.nums.get(d, []) if x < top // 2]
        elif k in ('fix', 'var'):
            lim = f['w'] if k == 'fix' else 64
            out = [[t] for t in h.words(c) if len(t) <= lim]
            out += [[t + [65]] for t in h.words(c) if len(t) < lim]
            out += [[[65] * n] for n in h.sizes(c, lim + 1)]
        return out

    def hint(self, c, f):
        r = self.rng
        if f['k'] == 'fix' and f['w'] <= 3 and r.random() < 0.08:
            return [r.choice([t for t in self.COMMON if len(t) <= f['w']])]
        if self.hints is not None and self.hints.any() and r.random() < self.hintp:
            hs = self.hinted(c, f)
            if self.ascii and f['k'] in ('fix', 'var'):
                hs = [x for x in hs if all(31 < ch < 127 for ch in x[0])]
            if hs:
                return r.choice(hs)
        return None

    # -- numbers ------------------------------------------------------------------------
    def num(self, w):
        r = self.rng
        k = r.randrange(10)
        if k == 8:                            # small, such as a length
            return list(r.choice([1, 2, 4, r.randrange(64), r.randrange(256)]).to_bytes(w, 'big'))
        if k == 0:
            return [0] * w
        if k == 1:
            return [255] * w
        if k == 2:
            return [128] + [0] * (w - 1)
        if k == 3:
            return [127] + [255] * (w - 1)
        if k == 4:
            return [r.choice([0x80, 0x81, 0xFF, 0xFE, 0xF0, 0x7F]) for _ in range(w)]
        if k == 5:
            return list(range(1, w + 1))
        return [r.randrange(256) for _ in range(w)]

    def flt(self, w):
        if self.payload and self.rng.random() < 0.15:
            return self.rng.choice([[0x7F, 0xC0, 0x12, 0x34], [0xFF, 0xC0, 0, 1], [0xFF, 0xFF, 255, 255]] if w == 4 else
                                   [[0x7F, 0xF8, 0, 0, 0, 0, 0, 1], [0xFF, 0xF8, 1, 2, 3, 4, 5, 6], [0xFF] * 8])
        if self.simple_floats:
            return list(self.rng.choice(FLT4 if w == 4 else FLT8))
        if self.rng.random() < 0.5:
            return list(self.rng.choice(FLT4X if w == 4 else FLT8X))
        while True:
            b = [self.rng.randrange(256) for _ in range(w)]
            exp_ones = (b[0] & 0x7F) == 0x7F and (b[1] >= 0x80 if w == 4 else b[1] >= 0xF0)
            if not exp_ones and any(b):
                return b

    # -- texts --------------------------------------------------------------------------
    def chars(self, n, multi=False, pad=None):
        """a text of exactly n UTF-8 bytes"""
        r = self.rng
        out = []
        while n > 0:
            if multi and not self.ascii and r.random() < 0.5:
                c = r.choice(MULTI)
                if u8len(c) <= n:
                    out.append(c)
                    n -= u8len(c)
                    continue
            if pad is not None and r.random() < 0.25:
                out.append(pad)
            else:
                out.append(r.randrange(33, 127))
            n -= 1
        return out

    def styled(self, w):
        """a text as people write them: a word, a number, letters of one case, signs"""
        r = self.rng
        if r.random() < 0.3:
            t = r.choice(WORDS).encode()
            if len(t) <= w:
                return list(t)
        s = r.choice(STYLES)
        return [r.choice(s) for _ in range(r.choice([w, r.randrange(0, w + 1)]))]

    def fix(self, w, pad, left):
        r = self.rng
        k = r.randrange(20)
        if r.random() < self.rich:
            k = 2
        if k == 0:
            return []
        if k == 1:
            return [[]]
        if k in (2, 3):                       # exactly full
            return [[c if c != pad else 65 for c in self.chars(w)]]
        if k == 4:                            # one short
            return [self.chars(max(0, w - 1))]
        if k == 5:                            # over-long
            return [self.chars(w + r.randrange(1, 6))]
        if k == 6:                            # over-long, multi-byte over the edge
            return [self.chars(max(0, w - r.randrange(1, 4))) + [r.choice([65] if self.ascii else MULTI[:5])] +
                    self.chars(r.randrange(0, 5), True)]
        if k == 7:
            return [self.chars(w, True)]
        if k == 8:                            # padding inside and outside
            return [self.chars(r.randrange(0, w + 1), False, pad)]
        if k == 9:
            return [[pad] * r.randrange(0, w + 2)]
        if k == 10:
            t = self.chars(r.randrange(0, w + 1))
            return [[pad] + t] if r.random() < 0.5 else [t + [pad]]
        if k == 11:
            return [[r.choice([48, 32, 9] + ([] if self.ascii else [0, 127, 1])) for _ in range(r.randrange(0, w + 1))]]
        if k > 16:
            return [self.styled(w)]
        return [self.chars(r.randrange(0, w + 1), r.random() < 0.3)]

    def var(self, w):
        r = self.rng
        if r.random() >= self.rich:
            k = r.randrange(8)
            if k == 0:
                return []
            if k == 1:
                return [[]]
        k = r.randrange(12)
        if k == 0 and self.maxtext >= 256:
            return [self.chars(r.choice([127, 128, 129, 255, 256, 257]), r.random() < 0.3)]
        if k in (1, 2):
            return [self.styled(r.randrange(1, self.maxtext + 1)) or [48]]
        return [self.chars(r.randrange(1, self.maxtext + 1), r.random() < 0.4)]

    # -- structures ---------------------------------------------------------------------
    def size(self):
        r = self.rng
        return r.choice([0, 1, 1, 2, 2, 3, r.randrange(0, self.maxlist + 1)])

    def field(self, c, f, key=None):
        k = f['k']
        if k in ('num', 'blen', 'chk', 'fix', 'var'):
            x = self.hint(c, f)
            if x is not None:
                return x
        if k == 'num' or k == 'blen' or k == 'chk':
            return self.num(f['w'])
        if k == 'flt':
            return self.flt(f['w'])
        if k == 'fix':
            return self.fix(f['w'], f['pad'], f['left'])
        if k == 'var':
            return self.var(f['w'])
        if k == 'list':
            if self.rng.random() >= self.rich:
                if self.rng.random() < 0.1:
                    return []
                n = self.size()
            else:
                n = max(1, self.size())
            if self.hints is not None and self.hints.any() and self.rng.random() < self.hintp / 2:
                n = self.rng.choice(self.hints.sizes(c, 130) or [n])
            out = [self.elem(c, f['el']) for _ in range(n)]
            if n > 1 and self.rng.random() < 0.3:       # repetitions
                i = self.rng.randrange(1, n)
                out[i] = out[self.rng.randrange(i)] if self.rng.random() < 0.5 else out[i - 1]
            return [out]
        if k == 'obj':
            return [self.msg(f['c'])]
        raise ValueError(k)

    def elem(self, c, el):
        if el['k'] == 'obj':
            return [self.msg(el['c'])]
        return self.field(c, el)

    def keys(self, owner):
        return self.types[owner]

    def msg(self, c, dyn=None):
        """fields of a message; dyn=(key, class) fixes the dynamic part"""
        t = self.tables[c]
        v = [None] * len(t)
        sel = None
        for i, f in enumerate(t):
            if f['k'] == 'dyn':
                key, cls = dyn or self.rng.choice(self.keys(c))
                j = [n for n, g in enumerate(t) if g['n'] == f['sel']][0]
                sel = j, self.keyval(t[j], key)
                v[i] = [cls, self.msg(cls)]
        for i, f in enumerate(t):
            if v[i] is None:
                v[i] = self.field(c, f)
        if sel:
            v[sel[0]] = sel[1]
        return v

    @staticmethod
    def keyval(f, key):
        if f['k'] == 'num':
            return list((key & ((1 << (8 * f['w'])) - 1)).to_bytes(f['w'], 'big'))
        return [list(key)]

    def empty(self, c):
        """the emptiest encodable value"""
        out = []
        for f in self.tables[c]:
            if f['k'] in ('num', 'flt', 'blen', 'chk'):
                out.append([0] * f['w'])
            elif f['k'] == 'obj':
                out.append([self.empty(f['c'])])
            elif f['k'] == 'dyn':
                key, cls = self.keys(c)[0]
                out.append([cls, self.empty(cls)])
            else:
                out.append([])
        t = self.tables[c]
        for i, f in enumerate(t):
            if f['k'] == 'dyn':
                j = [n for n, g in enumerate(t) if g['n'] == f['sel']][0]
                out[j] = self.keyval(t[j], self.keys(c)[0][0])
        return out
