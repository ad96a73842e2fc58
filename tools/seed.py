"""Try planted bugs: python3 tools/seed.py [--nocheck] [--skiptests] ID...   (applies to /repo, builds, tests, demo, check, and undoes)"""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]


def demo(d):
    t = tempfile.mkdtemp(prefix='demo')
    sh('cp -r %s/. %s/; rm -f %s/patch.diff %s/meta.json' % (d, t, t, t))
    r = sh('timeout 300 bash %s/demo.sh' % t, cwd=R)
    sh('rm -rf ' + t)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    ids = args or sorted(os.listdir(V + '/seeded'))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert sh('git -C %s status --porcelain' % R).stdout == '', 'repo not clean'
    out = {}
    for i in ids:
        d = V + '/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        res = {'property': meta['property']}
        r = sh('git -C %s apply %s/patch.diff' % (R, d))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr)
            continue
        try:
            ok, log = build()
            res['builds'] = ok
            if not ok:
                print(log)
            else:
                if '--skiptests' not in sys.argv:
                    sh('bash /opt/vp/test.sh /tmp/seed.json')
                    p = set(json.load(open('/tmp/seed.json'))['passed'])
                    miss = (base or set()) - p
                    res['tests'] = 'ok' if not miss else 'FAIL %d: %s' % (len(miss), sorted(miss)[:3])
                rc, log = demo(d)
                res['demo'] = 'fails (good)' if rc else 'PASSES (bad)'
                if '--nocheck' not in sys.argv:
                    t = time.time()
                    r = sh('VERIF_SEED=1 VERIF_TIER=quick python3 checks/%s.py quick' % meta['property'], cwd=V)
                    res['check'] = {1: 'CAUGHT' if 'VIOLATION property=' + meta['property'] in r.stdout else 'rc1 without line', 0: 'missed'}.get(r.returncode, 'rc %d' % r.returncode) + ' %.0fs' % (time.time() - t)
                    if r.returncode == 1:
                        res['first'] = r.stdout[:200]
        finally:
            sh('git -C %s checkout -- .' % R)
        out[i] = res
        if 'check' in res:
            f = V + '/tools/seedresults.json'
            d = json.load(open(f)) if os.path.exists(f) else {}
            d[i] = res['check'].startswith('CAUGHT')
            json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
        print(i, json.dumps(res, ensure_ascii=False))
        sys.stdout.flush()
    build()
    for i in out:
        rc, log = demo(V + '/seeded/' + i)
        if rc:
            print(i, 'DEMO FAILS ON THE UNCHANGED TREE', log)


main()
