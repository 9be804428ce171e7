"""Message classes whose byte code has something that hardly any other class has: worth more inputs.

This only chooses inputs; what is right is decided by the specification alone."""
import glob
import os
import struct

ORDINARY = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ordinary.txt')      # what the classes have that is rare and known

# operand bytes by opcode; None: variable
LEN = [0] * 256
for _a, _n in (((16, 18), 1), ((17, 19, 20), 2), (range(21, 26), 1), (range(54, 59), 1), ((132,), 2), (range(153, 169), 2), ((169,), 1),
               (range(178, 185), 2), ((185, 186), 4), ((187,), 2), ((188,), 1), ((189, 192, 193), 2), ((197,), 3), ((198, 199), 2), ((200, 201), 4)):
    for _o in _a:
        LEN[_o] = _n
# the same operation in a shorter or longer form, or on another local variable
SAME = {}
for _a in ([0x15, *range(0x1A, 0x1E)], [0x16, *range(0x1E, 0x22)], [0x17, *range(0x22, 0x26)], [0x18, *range(0x26, 0x2A)], [0x19, *range(0x2A, 0x2E)],
           [0x36, *range(0x3B, 0x3F)], [0x37, *range(0x3F, 0x43)], [0x38, *range(0x43, 0x47)], [0x39, *range(0x47, 0x4B)], [0x3A, *range(0x4B, 0x4F)],
           [*range(2, 9), 16, 17], [18, 19], [9, 10], [11, 12, 13], [14, 15], [167, 200], [153, 154, 198, 199], range(155, 159), [159, 160, 165, 166],
           range(161, 165)):
    for _o in _a:
        SAME[_o] = list(_a)[0]


def parse(path):
    """(name, fields, {(method kind, token)})"""
    b = open(path, 'rb').read()
    u2 = lambda i: struct.unpack_from('>H', b, i)[0]
    u4 = lambda i: struct.unpack_from('>I', b, i)[0]
    n, i, k, cp = u2(8), 10, 1, {}
    while k < n:
        t = b[i]
        if t == 1:
            cp[k] = b[i + 3:i + 3 + u2(i + 1)].decode('utf8', 'replace')
            i += 3 + u2(i + 1)
        elif t in (3, 4, 9, 10, 11, 12, 17, 18):
            cp[k] = (t, u2(i + 1), u2(i + 3))
            i += 5
        elif t in (5, 6):
            i += 9
            k += 1
        elif t == 15:
            i += 4
        else:
            cp[k] = (t, u2(i + 1))
            i += 3
        k += 1
    cls = lambda x: cp[cp[x][1]]
    me = cls(u2(i + 2))
    i += 6 + 2
    i += 2 * u2(i - 2)
    fields, tokens = set(), set()

    def kind(name):
        return name[:3] if name[:3] in ('get', 'set') and len(name) > 3 else name if name in (
            'encode', 'decode', 'hashCode', 'equals', 'toString', '<init>', '<clinit>') else 'other'

    def token(op, at):
        op = SAME.get(op, op)
        if 182 <= op <= 185 or 178 <= op <= 181:
            _, c, nt = cp[u2(at)]
            o, name, desc = cls(c), cp[cp[nt][1]], cp[cp[nt][2]]
            if op <= 181:
                return 'static field' if op <= 179 and o == me else 'field of another' if o != me and 'java' not in o and op <= 181 else None
            if o.startswith('com/finproto') or o.startswith('[Lcom/finproto'):
                return (name, 'own') if o == me and kind(name) not in ('get', 'set') else None
            return o, name, desc
        if op in (187, 189, 192, 193):
            c = cls(u2(at))
            return None if 'com/finproto' in c else (op, c)
        return op

    for part in (0, 1):
        m = u2(i)
        i += 2
        for _ in range(m):
            name = cp[u2(i + 2)]
            if part == 0:
                fields.add(name)
            a = u2(i + 6)
            i += 8
            for _ in range(a):
                an, al = cp[u2(i)], u4(i + 2)
                if part == 1 and an == 'Code':
                    j, end = i + 14, i + 14 + u4(i + 10)
                    base, kd = j, kind(name)
                    if u2(end):
                        tokens.add((kd, 'catches'))
                    while j < end:
                        op = b[j]
                        if op in (170, 171):
                            tokens.add((kd, 'switch'))
                            q = j + 1 + (-(j + 1 - base) % 4)
                            j = q + (12 + 4 * (u4(q + 8) - u4(q + 4) + 1) if op == 170 else 8 + 8 * u4(q + 4))
                            continue
                        if op == 196:
                            j += 6 if b[j + 1] == 132 else 4
                            continue
                        x = token(op, j + 1)
                        if x is not None:
                            tokens.add((kd, x))
                        j += 1 + LEN[op]
                i += 6 + al
    return me, fields, tokens


def odd(classes, schema, few=2):
    """the message classes of the schema with rare tokens or with fields of their own"""
    names, group = {}, {}
    for c in schema['tables']:
        prefix, *rest = c.split('_')
        names[schema['packages'][prefix].replace('.', '/') + '/' + '$'.join(rest)] = c
    seen = {}
    for path in glob.glob(os.path.join(classes, '**', '*.class'), recursive=True):
        if os.sep + 'codec' + os.sep in path or os.sep + 'bitmap' + os.sep in path:
            continue
        try:
            me, fields, tokens = parse(path)
        except (ValueError, KeyError, IndexError, TypeError, struct.error):
            continue
        c, role = me, 'message'
        while c not in names and '$' in c:
            c, tail = c.rsplit('$', 1)
            role = 'part ' + (tail if tail[-7:] != 'Factory' else 'Factory')
        if c in names:
            seen[me] = names[c], role, fields, tokens
    count = {}
    for c, role, _, tokens in seen.values():
        for t in tokens:
            count.setdefault((role, t), set()).add(c)
    ordinary = set(open(ORDINARY).read().split('\n')) if os.path.exists(ORDINARY) else set()
    out = {}
    for c, role, fields, tokens in seen.values():
        rare = [t for t in tokens if len(count[role, t]) <= few]
        if role == 'message':
            rare += [('field', x) for x in fields - {f['n'] for f in schema['tables'][c]}]
        rare = sorted(x for x in map(str, rare) if c + ' ' + x not in ordinary)
        if rare:
            out.setdefault(c, []).extend(rare)
    return out
