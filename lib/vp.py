"""The pipeline of a check: build the code under test, run programs on it, let TLC decide the traces."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JAVA = '/usr/lib/jvm/java-17-openjdk-amd64/bin/java'
JAVAC = '/usr/lib/jvm/java-17-openjdk-amd64/bin/javac'
GSON = '/opt/veriftools/tla/CommunityModules-deps.jar'
ASM = '/opt/veriftools/java/bytecode/asm-9.7.1.jar'
WORKERS = max(1, min(8, os.cpu_count() or 1))
ENV = {k: v for k, v in os.environ.items() if k not in ('JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS')}
ENV.update(LANG='C.UTF-8', LC_ALL='C.UTF-8')


# the surroundings that programs run in: default charset, locale and time zone of the JVM
SURROUNDINGS = [['-Dfile.encoding=ISO-8859-1', '-Duser.language=tr', '-Duser.country=TR', '-Duser.timezone=Asia/Shanghai'],
                ['-Dfile.encoding=US-ASCII', '-Duser.language=ar', '-Duser.country=EG', '-Duser.timezone=America/St_Johns'],
                ['-Dfile.encoding=UTF-8', '-Duser.language=en', '-Duser.country=US', '-Duser.timezone=UTC']]


class Broken(Exception):
    """The check itself cannot give an answer."""


def netty():
    jars = []
    for part in ('netty-common', 'netty-buffer'):
        c = sorted(glob.glob('/root/.gradle/caches/modules-2/files-2.1/io.netty/%s/*/*/%s-4*.jar' % (part, part)))
        c = [j for j in c if not j.endswith('-sources.jar')]
        if not c:
            raise Broken('no %s jar' % part)
        jars.append(c[-1])
    return ':'.join(jars)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                          env=kw.pop('env', ENV), **kw)


class Work:
    """Scratch directory with the compiled code under test and the compiled harness."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp.')
        self.classes = os.path.join(self.dir, 'classes')
        self.harness = os.path.join(self.dir, 'harness')
        self.netty = netty()
        self.n = 0
        self.stats = {'states': 0, 'transitions': 0}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%03d.%s' % (self.n, name))

    def build(self):
        os.makedirs(self.classes)
        os.makedirs(self.harness)
        modules = re.findall(r"include\('([^']+)'\)", open(os.path.join(REPO, 'settings.gradle')).read())
        src = []
        for m in modules:
            src += sorted(glob.glob(os.path.join(REPO, m, 'src/main/java/**/*.java'), recursive=True))
        if not src:
            raise Broken('no sources in %s' % REPO)
        lst = self.path('src')
        open(lst, 'w').write('\n'.join(src))
        mine = sorted(glob.glob(os.path.join(VERIF, 'harness/src/*.java')))
        with cf.ThreadPoolExecutor(3) as ex:
            a = ex.submit(run, [JAVAC, '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-cp', self.netty, '-d', self.classes, '@' + lst])
            b = ex.submit(run, [JAVAC, '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-cp', GSON + ':' + ASM + ':' + self.netty, '-d', self.harness] + mine)
            c = ex.submit(self.dump)
            if a.result().returncode:
                raise Broken('the code does not compile:\n' + a.result().stdout[-3000:])
            if b.result().returncode:
                raise Broken('the harness does not compile:\n' + b.result().stdout[-3000:])
            self.schema = c.result()
        user = sorted(glob.glob(os.path.join(VERIF, 'harness/user/**/*.java'), recursive=True))
        r = run([JAVAC, '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-cp', self.classes + ':' + self.netty, '-d', self.classes + '.user'] + user)
        if r.returncode:
            raise Broken('classes that use the code do not compile:\n' + r.stdout[-3000:])
        for m in modules:
            res = os.path.join(REPO, m, 'src/main/resources')
            if os.path.isdir(res):
                shutil.copytree(res, self.classes, dirs_exist_ok=True)
        return self

    def points(self):
        """the classes under test once more, with scheduling points"""
        if not os.path.exists(self.classes + '.points'):
            r = run([JAVA, '-cp', self.harness + ':' + ASM, 'Instrument', self.classes, self.classes + '.points'], timeout=300)
            if r.returncode:
                raise Broken('no scheduling points:\n' + r.stdout[-3000:])

    # -- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, mem='3g', args=(), workers='1', timeout=800, small=False):
        """runs TLC on spec/MODULE.tla with the given configuration text; returns its output"""
        c = self.path(module + '.cfg')
        open(c, 'w').write(cfg)
        e = dict(ENV)
        e.update(env or {})
        cmd = [JAVA, '-Xss256m', '-Xmx' + mem, '-XX:+UseSerialGC'] + (['-XX:TieredStopAtLevel=1'] if small else []) + [ '-Djava.io.tmpdir=' + self.dir,
               '-cp', TLA, 'tlc2.TLC', '-workers', workers, '-noGenerateSpecTE', '-metadir', self.path('meta'),
               '-config', c] + list(args) + [os.path.join(SPEC, module + '.tla')]
        try:
            out = run(cmd, env=e, cwd=self.dir, timeout=timeout).stdout
            return re.sub(r'^(Parsing file|Linting of|Semantic processing|Warning: Please run|\(Use the -nowarning).*\n', '', out, flags=re.M)
        except subprocess.TimeoutExpired:
            raise Broken('TLC on %s ran out of time' % module)

    def dump(self):
        out = self.path('schema.json')
        o = self.tlc('Dump', open(os.path.join(SPEC, 'Dump.cfg')).read(), {'OUT': out}, small=True)
        if not os.path.exists(out):
            raise Broken('no schema:\n' + o[-3000:])
        return self.load_schema(out)

    def load_schema(self, out):
        self.schema_file = out
        return json.load(open(out))[0]

    def count(self, out):
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.stats['transitions'] += int(m.group(1))
            self.stats['states'] += int(m.group(2))
        return (int(m.group(2)), int(m.group(1))) if m else (0, 0)

    # -- bytes made by the specification ---------------------------------------------------
    def fill_peer(self, programs):
        """replaces "d": "@enc" in write operations by the specification's encoding of the value"""
        todo = []
        for p in programs:
            for op in p['ops']:
                if op.get('d') == '@enc':
                    todo.append(op)
        if not todo:
            return 0
        n = max(1, min(WORKERS, len(todo) // 500 + 1))
        chunks = [todo[i::n] for i in range(n)]

        def one(chunk):
            i, o = self.path('gen.in'), self.path('gen.out')
            with open(i, 'w') as f:
                for op in chunk:
                    f.write(dumps({'c': op['c'], 'v': op['v']}) + '\n')
            out = self.tlc('Gen', GEN_CFG, {'IN': i, 'OUT': o}, small=len(chunk) < 1500)
            if not os.path.exists(o) or 'No error has been found' not in out:
                raise Broken('Gen failed:\n' + out[-3000:])
            with open(o) as f:
                res = [json.loads(x) for x in f]
            if len(res) != len(chunk):
                raise Broken('Gen: %d of %d' % (len(res), len(chunk)))
            for op, r in zip(chunk, res):
                op['d'], op['v'] = r['d'], r['v']
            return out

        with cf.ThreadPoolExecutor(n) as ex:
            for out in list(ex.map(one, chunks)):
                self.count(out)
        # selected slices of an encoding
        for p in programs:
            for op in p['ops']:
                pre = op.pop('pre', None)
                if pre is not None:
                    op['d'] = pre + op['d']
                rest = op.pop('rest', None)     # the first bytes have been written before
                if rest is not None:
                    op['back'] = min(rest, len(op['d']))
                    op['d'] = op['d'][rest:]
                part = op.pop('part', None)     # one of several pieces; the last one completes the message
                if part is not None:
                    a, z = (min(len(op['d']), int(x * len(op['d'])) if isinstance(x, float) else x) for x in part[:2])
                    if part[2]:
                        op['back'] = a
                        op['d'] = op['d'][a:]
                    else:
                        op['d'], op['c'], op['v'] = op['d'][a:max(a, z)], '', []
                cut = op.pop('cut', None)
                if cut is not None:
                    k = cut if cut >= 0 else max(0, len(op['d']) + cut)
                    op['d'] = op['d'][:k]
                    op['c'] = ''
                    op['v'] = []
                mut = op.pop('mut', None)       # bytes that are not as the peer sent them
                if mut is not None:
                    for where, x in mut:
                        if op['d']:
                            i = where if isinstance(where, int) else int(where * len(op['d']))
                            i += len(op['d']) if i < 0 else 0
                            if 0 <= i < len(op['d']):
                                op['d'][i] = x
                    op['c'], op['v'] = '', []
                room = op.pop('room', None)     # a buffer with room for the message except for that many bytes
                if room is not None:
                    op['max'] = max(1, len(op['d']) - room[0] + room[1])
                    op['d'], op['c'], op['v'] = op['d'][:min(room[1], op['max'])], '', []
        return len(todo)

    # -- programs on the real code, traces on the specification ------------------------------
    def validate(self, programs, watch, limit=12000, keep=False):
        """returns the list of mismatches [{aspect, program, event, line}] and known findings seen"""
        shards = []
        weight = lambda p: sum(1 + len(dumps(op)) // 1000 for op in p['ops']) + 1
        total = sum(map(weight, programs))
        per = max(2500, min(limit, total // WORKERS + 1))
        cur, w = [], 0
        for p in programs:
            cur.append(p)
            w += weight(p)
            if w >= per:
                shards.append(cur)
                cur, w = [], 0
        if cur:
            shards.append(cur)
        if any(p.get('inst') for p in programs):
            self.points()
        cfg = open(os.path.join(SPEC, 'Trace.cfg')).read()
        cfg = re.sub(r'Watch = \{.*?\}', 'Watch = {%s}' % ','.join('"%s"' % a for a in sorted(watch)), cfg, flags=re.S)

        def one(k):
            shard = shards[k]
            around = SURROUNDINGS[shard[0].get('around', k % len(SURROUNDINGS))]
            pf, tf = self.path('programs'), self.path('trace')
            with open(pf, 'w') as f:
                for p in shard:
                    f.write(dumps(p) + '\n')
            r = run([JAVA] + around + ['-Xss4m', '-Xmx3g', '-XX:+UseSerialGC', '-Djava.io.tmpdir=' + self.dir,
                     '-Dio.netty.leakDetection.level=disabled', '-cp', self.harness + ':' + GSON + ':' + self.netty,
                     'Exec', self.classes, self.schema_file, pf, tf], timeout=800)
            if r.returncode not in (0, 77):
                raise Broken('the harness failed:\n' + r.stdout[-3000:])
            out = self.tlc('Trace', cfg, {'TRACE': tf}, small=sum(map(weight, shard)) < 4000)
            with open(tf) as f:
                lines = f.readlines()
            events = len(lines)
            if keep:
                print(out)
            bad, known = [], []
            for m in re.finditer(r'<<"MISMATCH", "([^"]+)", (\d+), "([^"]+)">>', out):
                bad.append((m.group(1), int(m.group(2))))
            for m in re.finditer(r'<<"KNOWN", "([^"]+)">>', out):
                known.append(m.group(1))
            if '<<"CONSUMED", %d>>' % events not in out:
                if re.search(r'OutOfMemory|ran out of memory|StackOverflow', out):
                    raise Broken('TLC on a trace:\n' + out[-3000:])
                at = re.findall(r'^/\\ line = (\d+)', out, re.M)
                if not at:
                    raise Broken('TLC on a trace:\n' + out[-3000:])
                # an outcome of a shape that no specified state has
                bad.append(('shape', int(at[-1])))
            self.count(out)
            res = []
            starts = [i for i, x in enumerate(lines) if x.startswith('{"op":"begin"')]
            byid = {p['id']: p for p in shard}
            import bisect
            for asp, line in bad[:50]:
                b = starts[bisect.bisect_right(starts, line - 1) - 1]
                pid = json.loads(lines[b])['id']
                res.append({'aspect': asp, 'event': lines[line - 1][:20000].rstrip('\n'), 'index': line - 1 - b,
                            'program': dict(byid[pid], around=k % len(SURROUNDINGS))})
            os.remove(tf)
            os.remove(pf)
            return res, known, events, len(starts)

        allbad, allknown, ev, progs = [], [], 0, 0
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            for res, known, events, n in ex.map(one, range(len(shards))):
                allbad += res
                allknown += known
                ev += events
                progs += n
        return allbad, allknown, ev, progs


GEN_CFG = '''SPECIFICATION GenSpec
INVARIANT RoundTrip
INVARIANT Relay
INVARIANT NoPrefix
CHECK_DEADLOCK FALSE
CONSTANTS
  Bug = {}
  Known = {"bitmap16-position0"}
'''


def dumps(x):
    return json.dumps(x, separators=(',', ':'))
