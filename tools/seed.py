#!/usr/bin/env python3
"""Tries planted bugs in a scratch copy of the repository (default /tmp/wt, built by the caller's build script): seed.py ID... [--tests] [--check]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get('WT', '/tmp/wt')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build():
    r = sh('cmake --build %s/_build -j 8' % WT, env=dict(os.environ, CCACHE_DIR='/tmp/wtccache'))
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-500:]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    for i in ids:
        d = '%s/seeded/%s' % (V, i)
        meta = json.load(open(d + '/meta.json'))
        sh('git -C %s checkout -- .' % WT)
        ok, out = build()
        r0 = sh('bash %s/demo.sh' % d, cwd=WT, timeout=300)
        r = sh('git -C %s apply %s/patch.diff' % (WT, d))
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stderr)
            continue
        ok, out = build()
        r1 = sh('bash %s/demo.sh' % d, cwd=WT, timeout=300)
        print(i, meta['property'], 'build', ok, '| demo clean', r0.returncode, 'patched', r1.returncode, '' if ok else out)
        if r0.returncode or not r1.returncode:
            print(r0.stdout[-800:], r0.stderr[-1500:], '----', r1.stdout[-300:], r1.stderr[-300:])
        if '--tests' in sys.argv:
            t = sh('cd %s/_build && mkdir -p tmp && TMPDIR=%s/_build/tmp TZ=UTC ctest -j8 --timeout 45 --output-junit /tmp/wt.junit.xml >/dev/null; sed -i \'s/ classname="[^"]*"//\' /tmp/wt.junit.xml; python3 /opt/vp/results.py /tmp/wt.json junit:/tmp/wt.junit.xml' % (WT, WT))
            b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            print('   stable tests broken:', sorted(b - set(json.load(open('/tmp/wt.json'))['passed']))[:10])
        if '--check' in sys.argv:
            c = sh('python3 %s/tools/check.py %s' % (V, meta['property']), env=dict(os.environ, VS_REPO=WT))
            rf = V + '/tools/seeds.json'
            res = json.load(open(rf)) if os.path.exists(rf) else {}
            whats = [l.split(':')[0].strip() for l in c.stdout.split('\n') if l.startswith('  [')]
            res[i] = ('Caught by %s: %s.' % (meta['property'], whats[0]) if whats else 'Caught by %s.' % meta['property']) if c.returncode == 1 else 'NOT CAUGHT by %s (exit %d).' % (meta['property'], c.returncode)
            json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
            print('   check exit', c.returncode, '|', '\n      '.join([l[:300] for l in c.stdout.split('\n') if 'VIOLATION' in l or l.startswith('  [') or 'reproduced' in l or 'note:' in l or 'NOT COMPLETE' in l][:9]))
        sh('git -C %s checkout -- .' % WT)


main()
