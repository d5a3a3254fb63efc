#!/usr/bin/env python3
"""Builds and confirms planted bugs.  seed.py SEEDS.py [ID ...] [--no-tests] [--no-check]

SEEDS.py defines SEEDS: dict(id, property, edits=[(file, old, new[, index])], needs, what, demo (python source)).
For each: make the patch in a scratch copy of /repo, check that the lines it removes are the original repository's,
run the demonstration on both trees, the stable tests on the changed one, and the property's check against it.
"""
import glob, json, os, re, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
seeds = runpy.run_path(args[0])['SEEDS']
only = set(args[1:])
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[-1]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH="$PWD"\nexec $PY -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(tree, files):
    rep = tempfile.mkdtemp(dir='/tmp')
    script = '. /opt/vp/env.sh\ncd %s\nrun(){ n=$1; shift; timeout -k 5 780 $PY /opt/vp/run_nose.py -v "$@" --with-xunit --xunit-file=%s/$n.xml >%s/$n.log 2>&1 & }\n' % (tree, rep, rep)
    for f in files:
        n = os.path.basename(f)[:-3]
        if n == 'test_channels' and '--fast' in sys.argv:
            script += 'run %s -a "!slow" %s\n' % (n, f)
        elif n == 'test_channels':
            script += 'run %s-fading -a slow %s:TestMIMOFading\nrun %s-slow -a slow -e "^TestMIMOFading$" %s\nrun %s-fast -a "!slow" %s\n' % (n, f, n, f, n, f)
        elif n in ('test_ldpc', 'test_convcode', 'test_links'):
            script += 'run %s -a "!slow" %s\n' % (n, f)
        else:
            script += 'run %s %s\n' % (n, f)
    sh('bash -s', input=script + 'wait\n')
    bad, seen = [], set()
    for x in glob.glob(rep + '/*.xml'):
        for c in ET.parse(x).getroot().iter('testcase'):
            name = c.get('classname') + '::' + c.get('name')
            seen.add(name)
            if name in stable and any(k.tag in ('failure', 'error') for k in c):
                bad.append(name)
    shutil.rmtree(rep)
    return bad, len(seen & stable)


def testfiles(files):
    allf = sorted(p[len('/repo/'):] for p in glob.glob('/repo/commpy/**/tests/test_*.py', recursive=True))
    if '--fast' in sys.argv and not any('utilities' in f for f in files):
        if not any('gfields' in f for f in files):
            allf.remove('commpy/channelcoding/tests/test_gfields.py')
        if not any('ldpc' in f for f in files):
            allf.remove('commpy/channelcoding/tests/test_ldpc.py')
    return allf


out = []
for s in seeds:
    if only and s['id'] not in only:
        continue
    d = os.path.join(HERE, 'seeded', s['id'])
    scratch = tempfile.mkdtemp(dir='/tmp')
    tree = scratch + '/repo'
    shutil.copytree('/repo', tree, symlinks=True)
    try:
        for e in s['edits']:
            f, old, new = e[:3]
            idx = e[3] if len(e) > 3 else 0
            text = open(os.path.join(tree, f)).read()
            parts = text.split(old)
            if len(parts) <= idx + 1:
                raise KeyError(old)
            open(os.path.join(tree, f), 'w').write(old.join(parts[:idx + 1]) + new + old.join(parts[idx + 1:]))
        diff = subprocess.check_output(['git', '-C', tree, 'diff'], text=True)
        orig = True
        cur = None
        for line in diff.split('\n'):
            m = re.match(r'--- a/(.*)', line)
            if m:
                cur = m.group(1)
            m = re.match(r'@@ -(\d+)', line)
            if m:
                ln = int(m.group(1))
            elif line.startswith('-') and not line.startswith('---'):
                b = subprocess.check_output(['git', '-C', tree, 'blame', '-l', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur], text=True)
                if not b.lstrip('^').startswith(base[:30]):
                    orig = False
                    print(s['id'], 'not an original line:', line)
                ln += 1
            elif line.startswith(' '):
                ln += 1
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        r1 = sh('bash %s/demo.sh' % d, cwd=tree)
        bad, n = ([], -1) if '--no-tests' in sys.argv else tests(tree, testfiles([e[0] for e in s['edits']]))
        rc, msg = None, ''
        if '--no-check' not in sys.argv:
            r = sh('%s/bin/check %s quick' % (HERE, s['property']), env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED='1'))
            rc = r.returncode
            msg = ' | '.join(l[:160] for l in r.stdout.split('\n') if l.startswith(('failed', 'MACH', 'OK')))
        ok = orig and r0.returncode == 0 and r1.returncode != 0 and not bad
        print('%-5s %-7s counts=%s demo=%d/%d tests_bad=%s n=%d check=%s %s' % (
            s['property'], s['id'], ok, r0.returncode, r1.returncode, bad, n, rc, msg), flush=True)
        if r0.returncode:
            print(r0.stdout[-800:])
        if not ok:
            shutil.rmtree(d)
    except KeyError as err:
        print(s['id'], 'TEXT NOT FOUND', err)
    finally:
        shutil.rmtree(scratch)
