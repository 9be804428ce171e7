"""Bounded models: TLC explores them exhaustively; walks over their transitions become programs for the real library."""
import concurrent.futures as cf
import json
import os
import re
import vp

# model -> module, invariants, action properties, depth of the history exploration (quick, thorough; None: none),
# depth of the edge exploration (0: unbounded), specification defects that the laws must notice: [(toggle, ...)]
MODELS = {
    'Registry': dict(invariants=['FirstRegistrationWins', 'Trailers'], history=(3, 5), bugs=['lastWins'], fresh=True),
    'Types': dict(invariants=['LatestRegistrationWins', 'DecodedBody', 'ReverseSound', 'ReverseComplete', 'OthersUntouched'], history=(2, 3),
                  bugs=['staleReverse'], fresh=True),
    'Bitmap': dict(invariants=['SetOfPositions', 'WireRestores', 'Consumed'], history=(3, 5), bugs=['clearSets'],
                   quick={'Many': 'FALSE'}, thorough={'Many': 'TRUE'}),
    'Stream': dict(invariants=['Fifo', 'AllRead', 'Tiled', 'LengthHeader', 'Trailer', 'OnlyComputed', 'SameBytes', 'Relayed'],
                   properties=['AppendOnly'], history=(3, 5), bugs=['chkWholeBuffer'], bugdepth=4,
                   quick={'Unr': '2'}, thorough={'Unr': '3'}),
    'Reuse': dict(invariants=['DependsOnBytesOnly', 'FullyReplaced'], properties=['Isolated'], history=(None, 2), bugs=['staleList', 'sharedBody'],
                  bugdepth=3, quick={'Subjects': 'LOOSE'}, thorough={'Subjects': '{}'}),
    'Fields': dict(invariants=['RoundTrips', 'TheOtherFieldsStay', 'EqualMeansSameBytes'], depth=(1, 1), bugs=['trimBoth', 'dropEmpty'], view=True, bugdepth=1,
                   quick={'Subjects': '{}', 'Share': '4', 'Pick': 'ANY4'}, thorough={'Subjects': '{}', 'Share': '1', 'Pick': '0'}),
    'Fix': dict(invariants=['ExactWidth', 'WholeCharacters', 'StripsOnePad', 'FitsComesBack'], depth=(1, 1), bugs=['midCharacter', 'trimBoth'], view=True, bugdepth=1,
                quick={'Chars': '2', 'Width': '4'}, thorough={'Chars': '3', 'Width': '6'}),
    'Pairs': dict(invariants=['ByValue', 'EqualMeansSameBytes'], depth=(1, 1),
                  quick={'Subjects': '{}', 'Share': '4', 'Pick': 'ANY4'}, thorough={'Subjects': '{}', 'Share': '1', 'Pick': '0'}),
    'Cuts': dict(invariants=['OnlyWhole', 'WholeAccepted', 'UnknownRejected', 'Consumed'], depth=(1, 1),
                 quick={'Subjects': '{}', 'Share': '4', 'Pick': 'ANY4'}, thorough={'Subjects': '{}', 'Share': '1', 'Pick': '0'}),
    'Print': dict(invariants=['NamesEveryField', 'NamesTheType', 'ShowsTheValue'], depth=(1, 1),
                  quick={'Subjects': '{}', 'Share': '4', 'Pick': 'ANY4'}, thorough={'Subjects': '{}', 'Share': '1', 'Pick': '0'}),
    'Noise': dict(invariants=['InBounds', 'OnlyTheTaken', 'AllNeeded', 'ReadTheSame'], depth=(1, 1), bugs=['zeroFill'], view=True, bugdepth=1,
                  quick={'Subjects': '{}', 'Share': '40', 'Pick': 'ANY40', 'Len1': '3'}, thorough={'Subjects': '{}', 'Share': '4', 'Pick': 'ANY4', 'Len1': '5'}),
    'Room': dict(invariants=['FitsOrFails', 'Retried', 'Unharmed', 'ReadBack'], depth=(1, 1), bugs=['halfFits'], view=True, bugdepth=1,
                 quick={'Subjects': '{}', 'Share': '16', 'Pick': 'ANY16'}, thorough={'Subjects': '{}', 'Share': '1', 'Pick': '0'}),
    'Retry': dict(invariants=['JustInTime', 'InOrder', 'Position'], bugs=['movesMark'], bugdepth=3, history=(None, 4),
                  quick={'Subjects': '{}', 'Share': '24', 'Pick': 'ANY24'}, thorough={'Subjects': '{}', 'Share': '3', 'Pick': 'ANY3'}),
    'Relay': dict(invariants=['Accepted', 'LengthHeader', 'Trailer', 'OnlyComputed', 'Current', 'SameBytes'], bugs=['keepsLength'], bugdepth=3, history=(None, 2),
                  quick={'Share': '4', 'Pick': 'ANY4'}, thorough={'Share': '1', 'Pick': '0'}),
    'Life': dict(invariants=['OwnedByCaller', 'FailuresHappen'], properties=['ReadersDoNotWrite', 'ChecksumsDoNotRead'], history=(2, 3)),
    'Threads': dict(invariants=['AsIfAlone', 'OwnBytes', 'Record'], bugs=['sharedScratch'], schedules=True,
                    quick={'Threads': '2'}, thorough={'Threads': '2'}),
    'Sum': dict(invariants=['Published', 'CheckValues'], depth=(1, 1), bugs=['oddCrc'], view=True, bugdepth=1, quick={'Size': '3'}, thorough={'Size': '5'}),
}


def cfg(m, depth, view, bug=()):
    t = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE', 'CONSTANTS'] + ([] if m.get('schedules') else ['  Depth = %d' % depth]) + [
         '  Bug = {%s}' % ','.join('"%s"' % b for b in bug), '  Known = {"bitmap16-position0"}']
    for k, v in m.get('constants', {}).items():
        t.append('  %s = %s' % (k, v))
    if view and not m.get('schedules'):
        t.append('VIEW ModelView')
    t.append('INVARIANTS ' + ' '.join(m['invariants']))
    if m.get('properties'):
        t.append('PROPERTIES ' + ' '.join(m['properties']))
    return '\n'.join(t) + '\n'


def explore(work, name, m, depth, view, env=None, bug=(), expect=True, workers='1', timeout=800):
    out = work.tlc('MC' + name, cfg(m, depth, view, bug), env, mem='6g', workers=workers, timeout=timeout)
    ok = 'Model checking completed. No error has been found' in out
    violated = re.search(r'(?:Invariant|Action property|Temporal properties) ?(\S*) ?(?:is|was|were) violated', out)
    if expect and not ok:
        raise vp.Broken('the specification breaks a law in model %s:\n%s' % (name, '\n'.join(re.findall(r'^Error.*(?:\n.*){0,6}', out, re.M)) + '\n...\n' + out[-3000:]))
    if not expect and not violated:
        raise vp.Broken('model %s does not notice the defect %s:\n%s' % (name, bug, out[-3000:]))
    d, g = work.count(out)
    return {'distinct': d, 'generated': g, 'violated': violated.group(1) if violated else None}


def edges(path):
    starts, trans = [], {}
    ids = {}
    with open(path) as f:
        for line in f:
            x = json.loads(line)
            x = json.loads(x) if isinstance(x, str) else x
            if 'start' in x:
                starts.append((ids.setdefault(x['start'], len(ids)), x['ops']))
            else:
                a, b = ids.setdefault(x['from'], len(ids)), ids.setdefault(x['to'], len(ids))
                trans.setdefault(a, {}).setdefault(vp.dumps(x['ops']), b)
    return starts, trans, len(ids)


def walks(starts, trans, rng, length):
    """sequences of transitions from a start that together contain every transition"""
    todo = {a: sorted(t) for a, t in trans.items()}
    for t in todo.values():
        rng.shuffle(t)
    out = []
    for start, prefix in starts:
        while True:
            # (re)start; the nearest state with something left to do
            path, at = [], start
            while len(path) < length:
                if todo.get(at):
                    e = todo[at].pop()
                    path.append(e)
                    at = trans[at][e]
                    continue
                seen, queue, found = {at: None}, [at], None
                for x in queue:
                    if x != at and todo.get(x):
                        found = x
                        break
                    for e, y in trans.get(x, {}).items():
                        if y not in seen:
                            seen[y] = (x, e)
                            queue.append(y)
                if found is None:
                    break
                back = []
                while found != at:
                    found, e = seen[found]
                    back.append(e)
                path += reversed(back)
                for e in reversed(back):
                    at = trans[at][e]
            if not path:
                break
            out.append((prefix, path))
    return out


def schedules(fam, path, tier, rng, info):
    """every interleaving of the model's steps, a step being a few accesses to the buffer"""
    every = []
    for line in open(path):
        x = json.loads(line)
        every.append(json.loads(x) if isinstance(x, str) else x)
    info['schedules'] = len(every)
    progs = []
    for k in range(1 if tier == 'quick' else 6):
        size = [1, 2, 3, 5, 8, 13][(k + rng.randrange(6)) % 6]
        scheds = [[[t - 1, rng.choice([size, size, 1, 2])] for t in x] for x in every]
        progs += fam.threads(len(scheds), 2, 1 + k % 2, 'det', scheds)
    return progs, info


def run(work, fam, name, tier, rng, consts=()):
    m = dict(MODELS[name])
    quick = tier == 'quick'
    loose = [c for c in fam.classes if fam.kinds_of(c) & {'var', 'list', 'dyn'}]
    subst = {'LOOSE': '{%s}' % ','.join('"%s"' % c for c in loose), 'ANY4': str(rng.randrange(4)), 'ANY16': str(rng.randrange(16)), 'ANY40': str(rng.randrange(40)), 'ANY24': str(rng.randrange(24)), 'ANY3': str(rng.randrange(3))}
    m['constants'] = {k: subst.get(v, v) for k, v in dict(m.get(tier, {}), **(consts[0 if quick else 1] if consts else {})).items()}
    info = {}
    depth = m.get('history', (None, None))[0 if quick else 1]
    path = work.path('edges')
    with cf.ThreadPoolExecutor(4) as ex:
        e = ex.submit(explore, work, name, m, m.get('depth', (0, 0))[0 if quick else 1], True, {'EDGES': path})
        h = ex.submit(explore, work, name, m, depth, False, workers='4') if depth else None
        bs = {b: ex.submit(explore, work, name, m, m.get('bugdepth', depth or 0), not depth, bug=(b,), expect=False)
              for b in m.get('bugs', [])}
        info['edges'] = e.result()
        if h:
            info['histories'] = dict(h.result(), depth=depth)
        info['defects noticed'] = {b: x.result()['violated'] for b, x in bs.items()}
    if m.get('schedules'):
        return schedules(fam, path, tier, rng, info)
    starts, trans, n = edges(path)
    info['states'], info['transitions'] = n, sum(len(t) for t in trans.values())
    ws = walks(starts, trans, rng, m.get('walk', 40))
    info['walks'] = len(ws)
    progs = []
    for prefix, path in ws:
        p = fam.prog(fresh=m.get('fresh', False))
        p.d['ops'] += prefix
        for e in path:
            p.d['ops'] += json.loads(e)
        progs.append(p.d)
    return progs, info
