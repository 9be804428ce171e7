"""Constants in the code under test that the wire tables do not explain: values worth trying as inputs.

They only choose inputs; what is right is decided by the specification alone."""
import glob
import os
import re

STR = re.compile(r'"((?:[^"\\\n]|\\.)*)"')
CHR = re.compile(r"'((?:[^'\\\n]|\\u[0-9a-fA-F]{4}|\\.))'")
NUM = re.compile(r'(?<![\w.$])(0[xX][0-9a-fA-F_]+|0[bB][01_]+|\d[\d_]*)([lLfFdD]?)(?![\w.])')
ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, 'b': 8, 'f': 12}


def literals(source):
    """(numbers, texts) that occur in Java source"""
    s = re.sub(r'/\*.*?\*/', ' ', source, flags=re.S)
    texts, nums = set(), set()

    def take(m):
        t = m.group(1)
        t = re.sub(r'\\u([0-9a-fA-F]{4})', lambda k: chr(int(k.group(1), 16)), t)
        t = re.sub(r'\\(.)', lambda k: chr(ESC[k.group(1)]) if k.group(1) in ESC else k.group(1), t)
        texts.add(t)
        return ' '
    s = STR.sub(take, s)
    s = re.sub(r'//[^\n]*', ' ', s)
    s = CHR.sub(take, s)
    for m in NUM.finditer(s):
        t = m.group(1).replace('_', '')
        try:
            nums.add(int(t, 16) if t[:2] in ('0x', '0X') else int(t, 2) if t[:2] in ('0b', '0B') else int(t))
        except ValueError:
            pass
    return nums, texts


def widths(fields):
    for f in fields:
        if 'w' in f:
            yield f['w']
        if f.get('pad') is not None:
            yield f['pad']
        if f.get('el'):
            yield from widths([f['el']])


class Hints:
    """nums[c], texts[c]: unexplained constants in the file of class c; '' for the code all classes share"""

    def __init__(self, repo, schema):
        self.nums, self.texts = {}, {}
        known = set(schema['tables'])
        for c in known:
            if c.count('_') > 1:        # a nested class is in its owner's file
                continue
            prefix, name = c.split('_')
            pkg = schema['packages'][prefix].replace('.', '/')
            for path in glob.glob(os.path.join(repo, '*/src/main/java', pkg, name + '.java')):
                n, t = self.read(path)
                for d in [c] + [x for x in known if x.startswith(c + '_')]:
                    n -= set(widths(schema['tables'][d]))
                for k, _ in schema['types'].get(c, []):
                    n.discard(k if isinstance(k, int) else -1)
                    t.discard('' if isinstance(k, int) else ''.join(map(chr, k)))
                self.keep(c, n, t)
        # what many files have in common is a way of writing, not a special case
        for each in (self.nums, self.texts):
            count = {}
            for xs in each.values():
                for x in xs:
                    count[x] = count.get(x, 0) + 1
            for c in list(each):
                each[c] = [x for x in each[c] if count[x] <= 24]
                if not each[c]:
                    del each[c]
        n, t = set(), set()
        for path in glob.glob(os.path.join(repo, 'codec/src/main/java/**/*.java'), recursive=True):
            a, b = self.read(path)
            n |= a
            t |= b
        self.keep('', n - {0, 1, 2, 7, 8, 256, 0xA001, 0xEDB88320, 0xFF, 0xFFFF, 0xFFFFFFFF, 0x7F, 0x80, 0xC0, 15, 16, 31, 32, 63, 64},
                  {x for x in t if x not in (' ', 'CRC16', 'CRC32', 'SSE_BIN', 'SZSE_BIN')})

    @staticmethod
    def read(path):
        try:
            n, t = literals(open(path, errors='replace').read())
        except OSError:
            return set(), set()
        return n, {x for x in t if x and len(x) <= 64 and '=' not in x and not x.endswith(('[', '[]')) and x not in (']', '], ', ', ', '0', ' ', '\0')
                   and 'Unsupported' not in x and 'Unknown' not in x and x != 'unchecked' and x not in ('CRC16', 'CRC32', 'SSE_BIN', 'SZSE_BIN')}

    def keep(self, c, n, t):
        n = {x for x in n if 1 < x < 1 << 63}
        if n:
            self.nums[c] = sorted(n)[:12]
        if t:
            self.texts[c] = sorted(t)[:12]

    def any(self):
        return bool(self.nums or self.texts)

    def classes(self):
        return set(self.nums) | set(self.texts)

    def sources(self, c):
        """where the constants for c come from: its own file, shared code, and the other classes if those are few"""
        few = len(self.classes()) <= 6
        return [c, ''] + ([d for d in sorted(self.classes()) if d not in (c, '')] if few else [])

    def numbers(self, c):
        """the constants for c and their neighbourhood"""
        out = []
        for d in self.sources(c):
            for x in self.nums.get(d, []):
                out += [x, x - 1, x + 1, 2 * x]
            for t in self.texts.get(d, []):
                if t.isdigit() and t.isascii():
                    out.append(int(t))
        return [x for x in out if 0 <= x < 1 << 64]

    def words(self, c):
        out = []
        for d in self.sources(c):
            out += [[ord(ch) for ch in t] for t in self.texts.get(d, [])]
            out += [[ord(ch) for ch in str(x)] for x in self.nums.get(d, [])]
            out += [[x] for x in self.nums.get(d, []) if x < 0xD800]
        return [t for t in out if all(ch < 0xD800 or 0xDFFF < ch < 0x110000 for ch in t)]

    def sizes(self, c=None, top=70000):
        """lengths and counts near the constants; c: for class c, None: of any class"""
        out = set()
        for d in (self.sources(c) if c is not None else self.nums):
            for x in self.nums.get(d, []):
                out |= {y for y in (x - 1, x, x + 1, x + 9) if 0 < y <= top}
        return sorted(out)
