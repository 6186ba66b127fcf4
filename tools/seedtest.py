#!/usr/bin/env python3
"""seedtest.py ID...: confirms planted bugs. For each /verif/seeded/ID: the patch applies to /repo's HEAD, builds, the stable tests
pass, demo.sh exits 0 on the clean tree and non-zero with the patch; then the check of its property (and, with --all, every check)
is run against the patched copy. Nothing is changed in /repo; the scratch copies are removed."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd=None, env=None, t=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -999, 'timeout'


def copy(dst):
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree('/repo', dst, symlinks=True, ignore=shutil.ignore_patterns('_build'))
    os.makedirs(dst + '/.vp', exist_ok=True)
    for f in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', dst).replace('bash /opt/vp/build.sh', 'bash %s/.vp/build.sh' % dst)
        open(dst + '/.vp/' + f, 'w').write(s)


def tests(dst):
    out = dst + '/.vp/out.json'
    rc, log = sh(['bash', dst + '/.vp/test.sh', out])
    try:
        return STABLE - set(json.load(open(out))['passed']), log
    except Exception:
        return STABLE, log


def demo(src, dst):
    # laid elsewhere, as in the final check
    d = dst + '-demo'
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    rc, log = sh(['bash', d + '/demo.sh'], cwd=dst, t=300)
    shutil.rmtree(d)
    return rc, log


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    flags = {a for a in sys.argv[1:] if a.startswith('--')}
    clean = '/tmp/sw-clean'
    copy(clean)
    miss, log = tests(clean)
    assert not miss, log[-2000:]
    for i in args:
        src = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(src + '/meta.json'))
        dst = '/tmp/sw-' + i
        copy(dst)
        res = [i, meta['property']]
        rc, log = sh(['git', 'apply', src + '/patch.diff'], cwd=dst)
        if rc: print(i, 'DOES NOT APPLY', log); continue
        rc, log = demo(src, clean)
        if rc: print(i, 'DEMO FAILS ON CLEAN', rc, log[-1500:])
        res.append('demo clean %d' % rc)
        miss, log = tests(dst)
        if miss: print(i, 'TESTS BREAK', sorted(miss)[:5], log[-800:] if len(miss) == len(STABLE) else '')
        rc, log = demo(src, dst)
        if rc == 0: print(i, 'DEMO PASSES WITH PATCH')
        res.append('demo patched %d' % rc)
        if '--nocheck' not in flags:
            sys.path.insert(0, HERE)
            from props import PROPS
            for p in (sorted(PROPS) if '--all' in flags else [meta['property']]):
                t = time.time()
                rc, log = sh([sys.executable, HERE + '/run.py', p], env=dict(os.environ, VP_REPO=dst, VERIF_SEED='1', VERIF_TIER='quick', VP_SCRATCH='1'))
                if rc or p == meta['property']:
                    line = [l for l in log.splitlines() if l.startswith('[')][-1:] or [log[-300:]]
                    res.append('%s rc=%d %.0fs %s' % (p, rc, time.time() - t, line[0][:160] if rc else 'MISSED'))
        print(' | '.join(res), flush=True)
        shutil.rmtree(dst)
    shutil.rmtree(clean)


main()
