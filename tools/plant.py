#!/usr/bin/env python3
"""usage: plant.py DEFINITION.py...   (development only; no check uses this)
Each definition file sets ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new), ...], DEMO (a Java program).
In a scratch copy of /repo the edits are applied; the change is kept under seeded/ID if it builds, the stable tests
pass, and the demonstration passes without and fails with it."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in /repo after the build: exit 0 if the property holds for this scenario
here=$(cd "$(dirname "$0")" && pwd)
cp=$(ls -d "$PWD"/*/build/classes/java/main | tr '\\n' ':')
for p in netty-common netty-buffer; do
  cp="$cp$(find /root/.gradle/caches/modules-2 -name "$p-4*.jar" ! -name '*-sources.jar' | sort | tail -1):"
done
exec timeout 200 /usr/lib/jvm/java-17-openjdk-amd64/bin/java -Xmx1g -cp "$cp" "$here/Demo.java"
'''
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', JAVA_HOME='/usr/lib/jvm/java-17-openjdk-amd64')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests'):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)


def plant(defn):
    g = {}
    exec(open(defn).read(), g)
    d = os.path.join(V, 'seeded', g['ID'])
    tmp = tempfile.mkdtemp(prefix='plant.')
    w = os.path.join(tmp, 'repo')
    try:
        sh('cp -a /repo %s' % w, '/')
        os.makedirs(os.path.join(tmp, 'demo'))
        demo = os.path.join(tmp, 'demo', 'demo.sh')
        open(demo, 'w').write(SH.replace('java -Xmx1g', 'java -Xmx1g ' + g['FLAGS']) if g.get('FLAGS') else SH)
        os.chmod(demo, 0o755)
        open(os.path.join(tmp, 'demo', 'Demo.java'), 'w').write(g['DEMO'])
        r = sh('gradle --offline --no-daemon -q testClasses', w)
        if r.returncode:
            return 'base build failed', r.stdout[-1500:]
        r = sh(demo, w)
        if r.returncode:
            return 'demo fails without the change', r.stdout[-3000:]
        for path, old, new in g['EDITS']:
            p = os.path.join(w, path)
            if not os.path.exists(p):
                c = glob.glob(os.path.join(w, '**', 'src/main', '**', path), recursive=True)
                if len(c) != 1:
                    return 'path %s: %r' % (path, c), ''
                p = c[0]
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times: %s' % (path, s.count(old), old), ''
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', w).stdout
        r = sh('gradle --offline --no-daemon -q testClasses', w)
        if r.returncode:
            return 'build failed', r.stdout[-3000:]
        r = sh(demo, w)
        if r.returncode == 0:
            return 'demo passes with the change', r.stdout[-1500:]
        out = r.stdout
        r = sh("find . -path '*/build/test-results' -prune -exec rm -rf {} + ; gradle --offline --no-daemon --no-build-cache --continue test; "
               "python3 /opt/vp/results.py %s/out.json 'junit:%s/**/build/test-results/**/TEST-*.xml'" % (tmp, w), w)
        res = json.load(open(tmp + '/out.json'))
        ok = set(res.get('passed', res if isinstance(res, list) else []))
        missing = stable() - ok
        if missing:
            return 'tests fail: %s' % sorted(missing)[:5], ''
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.copy(demo, os.path.join(d, 'demo.sh'))
        shutil.copy(os.path.join(tmp, 'demo', 'Demo.java'), d)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        return 'kept', out[-300:]
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for f, (a, b) in zip(sys.argv[1:], ex.map(plant, sys.argv[1:])):
            print(os.path.basename(f), ':', a)
            print('   ', b.replace('\n', '\n    '))
