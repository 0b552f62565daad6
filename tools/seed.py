#!/usr/bin/env python3
"""seed.py make SPEC.py   - write seeded/<id>/ from the dicts in SPEC.py (SEEDS list)
   seed.py test ID...     - apply, build, demo, stable tests, check; revert, demo
Each spec: id, prop, file, old, new (text replacement) [or edits=[(file,old,new)...]], nc (script) + expect (stdout), or demo (shell text) + files"""
import sys, os, subprocess, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def make(spec):
    for s in runpy.run_path(spec)['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        assert not sh('git -C %s status --porcelain --untracked-files=no' % R).stdout.strip(), 'repo dirty'
        for f, o, n in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            p = os.path.join(R, f)
            t = open(p, newline='').read()
            if '\r\n' in t:
                o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
            c = t.count(o)
            assert c == 1, (s['id'], f, 'occurrences', c)
            open(p, 'w', newline='').write(t.replace(o, n))
        open(os.path.join(d, 'patch.diff'), 'w', newline='').write(subprocess.run('git -C %s diff' % R, shell=True, capture_output=True).stdout.decode('latin1').encode('latin1').decode('utf8'))
        sh('git -C %s checkout -- .' % R)
        if 'has' in s:
            open(os.path.join(d, 'demo.nc'), 'w').write(s['nc'])
            demo = '''#!/bin/bash
# runs the script with the interpreter and looks for the expected text in what it prints
d=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 60 ./bin/nullc_exec %s"$d/demo.nc" 2>&1)
case "$out" in
*"%s"*) exit 0 ;;
esac
echo "expected to find: %s"
echo "got: $out"
exit 1
''' % ('-x86 ' if s.get('x86') else '', s['has'], s['has'])
        elif 'nc' in s:
            open(os.path.join(d, 'demo.nc'), 'w').write(s['nc'])
            open(os.path.join(d, 'expected.txt'), 'w').write(s['expect'])
            demo = '''#!/bin/bash
# runs the script with the interpreter and compares what it prints
d=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 60 ./bin/nullc_exec %s"$d/demo.nc" 2>&1)
if [ "$out" != "$(cat "$d/expected.txt")" ]; then
	echo "expected: $(cat "$d/expected.txt")"
	echo "got:      $out"
	exit 1
fi
''' % ('-x86 ' if s.get('x86') else '')
        else:
            demo = s['demo']
        for fn, tx in s.get('files', {}).items():
            open(os.path.join(d, fn), 'w').write(tx)
        open(os.path.join(d, 'demo.sh'), 'w').write(demo)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def test(ids):
    base = stable()
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        prop = json.load(open(d + '/meta.json'))['property']
        print('==', i, prop, flush=True)
        assert not sh('git -C %s status --porcelain --untracked-files=no' % R).stdout.strip(), 'repo dirty'
        try:
            r = sh('git -C %s apply %s/patch.diff' % (R, d))
            if r.returncode:
                print('  APPLY FAILED', r.stderr[:300])
                continue
            r = sh('bash /opt/vp/build.sh', cwd=R)
            if r.returncode:
                print('  BUILD FAILED', (r.stdout + r.stderr)[-600:])
                continue
            r = sh('bash %s/demo.sh' % d, cwd=R)
            print('  demo with patch:', r.returncode, (r.stdout + r.stderr)[-300:].replace('\n', ' | '))
            sh('bash /opt/vp/test.sh /tmp/seedtest.json', cwd=R)
            res = json.load(open('/tmp/seedtest.json'))
            miss = sorted(base - set(res['passed']))
            print('  stable tests broken:', len(miss), miss[:6])
            r = sh('timeout 900 python3-vt check.py %s' % prop, cwd=V)
            print('  check:', r.returncode, [l[:170] for l in r.stdout.split('\n') if 'VIOLATION' in l or 'failed obl' in l or 'ERROR' in l or 'bounded' in l][:6], r.stdout.strip().split('\n')[-1][:200], flush=True)
        finally:
            sh('git -C %s checkout -- .' % R)
            sh('bash /opt/vp/build.sh', cwd=R)
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print('  demo clean:', r.returncode, (r.stdout + r.stderr)[-300:].replace('\n', ' | '))


if sys.argv[1] == 'make':
    make(sys.argv[2])
else:
    test(sys.argv[2:])
