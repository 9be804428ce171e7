"""Which programs, which aspects and which bounded models decide which property."""

ENC = ['enc.ok', 'enc.bytes']
DEC = ['dec.ok', 'dec.rt', 'dec.take', 'dec.peer', 'dec.any', 'dec.err']

# property -> aspects of Trace.tla whose violation is a violation of the property
WATCH = {
    'C01': ['enc.ok', 'dec.ok', 'dec.rt', 'dec.take', 'dec.err'],
    'C02': ['enc.ok', 'enc.bytes', 'dec.peer', 'dec.any'],
    'C03': ['enc.ok', 'enc.len'],
    'C04': ['enc.ok', 'enc.chk'],
    'C05': ['enc.ok', 'enc.append', 'enc.pure', 'enc.same'],
    'C06': ['enc.ok', 'dec.ok', 'dec.rt', 'dec.take', 'dec.peer', 'dec.err'],
    'C07': ['dec.same', 'dec.err'],
    'C08': ['others', 'bufothers', 'fresh'],
    'C09': ['types.frame'],
    'C10': ['types.ext'],
    'C11': ['fix', 'dec.fix', 'enc.fix'],
    'C12': ['trunc', 'dec.accept', 'dec.over', 'dec.err', 'types.frame', 'types.ext', 'enc.ok'],
    'C13': ['eq', 'hash'],
    'C14': ['calc', 'calc.ro'],
    'C15': ['reg'],
    'C16': ['bm'],
    'C17': ['bmwire'],
    'C18': ['dec.list', 'enc.list', 'enc.ok', 'dec.err'],
    'C19': ['init', 'setget'],
    'C20': ['enc.ok', 'enc.append', 'enc.bytes', 'enc.len', 'enc.chk', 'enc.pure', 'dec.ok', 'dec.rt', 'dec.take', 'dec.any',
            'dec.err', 'calc', 'calc.ro', 'others', 'bufothers', 'fresh', 'types.frame', 'types.ext', 'eq', 'hash', 'reg', 'str'],
    'C21': ['str'],
    'C22': ['relay'],
    'C23': ['enc.ref', 'dec.ref', 'dec.ro', 'calc.ro', 'trunc.ref', 'released'],
    'C24': ['unlinked'],
    'C25': ['dec.any', 'dec.accept', 'dec.err', 'dec.over', 'dec.ro', 'dec.alloc', 'dec.same'],
    'C26': ['enc.ok', 'enc.bytes', 'enc.append', 'enc.pure', 'enc.same', 'enc.ref', 'dec.ok', 'dec.rt', 'dec.take', 'dec.any', 'dec.ref',
            'dec.ro', 'dec.same', 'released', 'bufothers'],
    'C27': ['mark', 'dec.ok', 'dec.rt', 'dec.take', 'dec.peer', 'dec.any', 'dec.accept', 'dec.err', 'dec.ro', 'dec.over', 'enc.ok', 'bufothers'],
}

# property -> [(family, arguments quick, arguments thorough)]
FAMILIES = {
    'C01': [('roundtrip', (6,), (40,)), ('lists', ([0, 1, 2, 3],), ([0, 1, 2, 3, 8, 30],)), ('recover', (1,), (8,)), ('foreign', (4,), (30,)), ('far', (1,), (8,)), ('rework', (2,), (15,))],
    'C02': [('peers', (5,), (30,)), ('roundtrip', (2,), (15,)), ('noise', (3,), (24,)), ('foreign', (4,), (30,)), ('rework', (1,), (8,))],
    'C03': [('headers', (8,), (60,)), ('bigframes', (12,), (90,)), ('streams', (20,), (150,)), ('recover', (2, 'frames'), (16, 'frames')), ('foreign', (4,), (30,)), ('far', (1,), (8,)), ('rework', (4, 'frames'), (30, 'frames'))],
    'C04': [('headers', (14,), (100,)), ('bigframes', (4,), (40,)), ('streams', (20,), (150,)), ('recover', (2, 'frames'), (16, 'frames')), ('foreign', (4,), (30,)), ('far', (1,), (8,)), ('rework', (4, 'frames'), (30, 'frames'))],
    'C05': [('append', (4,), (30,)), ('headers', (3,), (20,)), ('recover', (2,), (12,)), ('foreign', (4,), (20,)), ('far', (1,), (8,)), ('rework', (2,), (12,))],
    'C06': [('streams', (110, 10), (700, 16)), ('foreign', (4,), (30,)), ('far', (1,), (8,))],
    'C07': [('reuse', (4,), (25,)), ('noise', (3,), (18,)), ('recover', (1,), (8,)), ('far', (1,), (8,))],
    'C08': [('isolation', (4,), (24,)), ('handover', (2,), (12,)), ('every_type', (), ()), ('foreign', (4,), (20,))],
    'C09': [('every_type', (), ()), ('unknown', (12,), (100,)), ('typehist', (12, 18), (80, 30)), ('foreign', (6,), (50,))],
    'C10': [('every_type', (), ()), ('unknown', (12,), (100,)), ('typehist', (12, 18), (80, 30)), ('foreign', (6,), (50,))],
    'C11': [('fixed', (1500,), (12000,)), ('roundtrip', (2,), (12,))],
    'C12': [('truncation', (4,), (20,)), ('unknown', (10,), (60,)), ('noise', (6,), (45,)), ('foreign', (4,), (30,))],
    'C13': [('equality', (3,), (16,)), ('memory', (2,), (12,)), ('foreign', (4,), (20,))],
    'C14': [('checksums', (1500,), (10000, 2000))],
    'C15': [('registry', (250,), (2000, 40))],
    'C16': [('bitmaps', (900,), (8000, 40))],
    'C17': [('bitmaps', (500,), (4000, 40)), ('bitmap_subsets', (60,), (800,))],
    'C18': [('lists', ([0, 1, 2, 128, 256],), ([0, 1, 2, 3, 127, 128, 129, 255, 256, 257],)), ('longlists', (6,), (120,)), ('rework', (2,), (12,))],
    'C19': [('accessors', (12,), (80,))],
    'C20': [('threads', (250,), (1500,)), ('threads', (40, 4, 5, 'free'), (250, 6, 8, 'free')), ('racing', (1200,), (6000,)), ('racing', (250, 3), (1200, 4)),
            ('meeting', (12,), (20,))],
    'C21': [('printing', (4,), (30,)), ('memory', (1, 'str'), (8, 'str')), ('foreign', (4,), (20,))],
    'C22': [('peers', (5,), (30,)), ('streams', (20,), (150,)), ('recover', (1,), (6,)), ('rework', (2,), (15,))],
    'C23': [('ownership', (4,), (25,)), ('failing', (20,), (100,)), ('truncation', (1,), (5,)), ('recover', (2,), (12,)), ('noise', (1,), (9,)), ('foreign', (4,), (20,)), ('far', (1,), (8,))],
    'C24': [('unlink', (4,), (25,)), ('isolation', (1,), (6,)), ('rework', (1,), (8,))],
    'C25': [('noise', (9,), (75,)), ('truncation', (1,), (5,))],
    'C27': [('arrivals', (4,), (30,)), ('streams', (30,), (200,)), ('far', (1,), (8,))],
    'C26': [('recover', (5,), (40,)), ('failing', (10,), (60,))],
}

# property -> bounded models, or (model, constants quick, constants thorough)
MODELS = {
    'C01': ['Fields'],
    'C02': ['Fields'],
    'C03': ['Stream', 'Relay'],
    'C04': ['Stream', 'Registry', 'Relay'],
    'C05': ['Stream'],
    'C06': ['Stream'],
    'C07': ['Reuse'],
    'C08': ['Reuse', 'Types'],
    'C09': ['Types'],
    'C10': ['Types'],
    'C11': ['Fix'],
    'C12': ['Cuts'],
    'C13': ['Pairs'],
    'C14': ['Sum'],
    'C15': ['Registry'],
    'C16': ['Bitmap'],
    'C17': ['Bitmap'],
    'C18': [('Fields', {'Subjects': 'LOOSE', 'Share': '2', 'Pick': '0'}, {'Subjects': 'LOOSE'})],
    'C19': ['Fields'],
    'C20': ['Threads'],
    'C21': ['Print'],
    'C22': ['Stream', 'Relay'],
    'C23': ['Life'],
    'C24': ['Reuse'],
    'C25': ['Noise'],
    'C26': ['Room'],
    'C27': ['Retry'],
}

# families that do not depend on message classes
GENERAL = {'fixed', 'checksums', 'registry', 'bitmaps', 'bitmap_subsets'}

# properties whose programs also use NaNs with a payload (not where messages are compared: equal NaNs, different bytes)
PAYLOAD = {'C02', 'C04', 'C22'}

LEVEL_NOTE = ('TLA+ specification checked with TLC; every recorded execution of the real code is validated against it call by call. '
              'Exhaustive within the bounds of the models, sampled (seeded) beyond; trusts TLC, the JVM, netty and the reading of the '
              'protocol tables in spec/Schema*.tla.')

NOTES = {}
