#!/usr/bin/env python3
"""Planted bugs: creation from edits, and confirmation.

  plant.py confirm [ID...]   in a scratch copy of /repo: the patch applies and builds, the stable tests pass,
                             the demonstration passes without it and fails with it
  plant.py check [ID...]     apply each patch to a copy of /repo, run the quick check of its property (or --prop=P,..) on it
"""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
SCR = '/tmp/plant_repo'

def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr

def fresh():
    if os.path.exists(SCR):
        shutil.rmtree(SCR)
    sh('cp -a /repo ' + SCR)
    sh('git checkout -q -- .', SCR)

def tests():
    rc, out = sh('. /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 10m ./...', SCR)
    ok = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add(d['Package'] + '/' + d['Test'])
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - ok)

def demo(i):
    # the folder is laid elsewhere, without patch and meta
    d = '/tmp/plant_demo'
    if os.path.exists(d): shutil.rmtree(d)
    os.mkdir(d)
    for f in os.listdir(os.path.join(S, i)):
        if f not in ('patch.diff', 'meta.json'):
            shutil.copy(os.path.join(S, i, f), d)
    t = time.time()
    rc, out = sh('timeout 300 bash %s/demo.sh' % d, SCR)
    return rc, out, time.time() - t

def confirm(ids, reps=3):
    bad = []
    for i in ids:
        fresh()
        rc0, o0, t0 = demo(i)
        st = sh('git status --short', SCR)[1]
        rc, o = sh('git apply %s/%s/patch.diff' % (S, i), SCR)
        if rc: print(i, 'DOES NOT APPLY', o); bad.append(i); continue
        rc, o = sh('. /opt/vp/env.sh; go build ./...', SCR)
        if rc: print(i, 'DOES NOT BUILD', o); bad.append(i); continue
        miss = []
        for _ in range(reps):
            miss = tests()
            if miss: break
        rc1, o1, t1 = demo(i)
        good = rc0 == 0 and rc1 != 0 and not miss and not st.strip()
        print('%-28s %s unchanged rc=%d (%.0fs) patched rc=%d (%.0fs) failing=%s %s' % (i, 'ok  ' if good else 'BAD ', rc0, t0, rc1, t1, miss, st.strip()), flush=True)
        if not good:
            bad.append(i)
            if rc0: print(o0[-1500:])
            if not rc1: print(o1[-800:])
        elif '-v' in sys.argv: print(o1[-600:])
    if os.path.exists(SCR): shutil.rmtree(SCR)
    print('bad:', bad)

def check(ids, props=None, jobs=3):
    """in scratch copies of /repo (VERIF_REPO), several at a time"""
    from concurrent.futures import ThreadPoolExecutor
    man = json.load(open(V + '/MANIFEST.json'))
    def one(i):
        meta = json.load(open('%s/%s/meta.json' % (S, i)))
        scr = '/tmp/plant_check_' + i
        sh('rm -rf %s; cp -a /repo %s; git -C %s checkout -q -- .' % (scr, scr, scr))
        try:
            rc, o = sh('git apply %s/%s/patch.diff' % (S, i), scr)
            if rc: print(i, 'DOES NOT APPLY', o); return
            for p in props or [meta['property']]:
                t = time.time()
                cmd = [c for c in man['checks'] if c['property'] == p][0]['quick_cmd']
                env = dict(os.environ, VERIF_TIER='quick', VERIF_REPO=scr)
                env.setdefault('VERIF_SEED', '1')
                rc, o = sh(cmd, V, env=env)
                vio = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                print('%-28s %s rc=%d %s (%.0fs)' % (i, p, rc, 'CAUGHT %d' % len(vio) if rc == 1 and vio else 'missed', time.time() - t), flush=True)
                if '-v' in sys.argv or rc not in (0, 1): print(o[-1500:])
        finally:
            sh('rm -rf ' + scr)
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ids))

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    props = None
    for x in sys.argv:
        if x.startswith('--prop='): props = x[7:].split(',')
    ids = a[1:] or sorted(os.listdir(S))
    (confirm if a[0] == 'confirm' else lambda k: check(k, props))(ids)
