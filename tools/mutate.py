"""Mutation survey: apply each edit of a list to /repo, run the tests and the property's check, undo.
usage: mutate.py LIST.py [ID...]   (LIST.py defines M = [(id, prop, file, old, new), ...]; file/old/new may repeat in tuples)"""
import subprocess, sys, os, time, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
def sh(c, t=900, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip()
for m in ns['M']:
    mid, prop, edits = m[0], m[1], m[2:]
    if want and mid not in want: continue
    if len(edits) == 3 and isinstance(edits[0], str): edits = [edits]
    ok = True
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(f'{mid}: EDIT MATCHES {n} in {f}'); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        diff = sh('git -C /repo diff').stdout
        b = sh('cd /repo && bash /opt/vp/build.sh')
        if b.returncode:
            print(f'{mid} ({prop}): DOES NOT BUILD', b.stdout[-600:]); continue
        sh('cd /repo && bash /opt/vp/test.sh /tmp/mut.json')
        t = json.load(open('/tmp/mut.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        failed = [x for x in (t.get('failed') or [])]
        t0 = time.time()
        for pr in prop.split(','):
            r = sh(f'cd /verif && timeout 900 python3 run.py {pr}', 1000)
            vio = [l for l in r.stdout.splitlines() if l.startswith('violated') or 'BROKEN' in l or 'no longer compile' in l][:1]
            if not vio and r.returncode not in (0,1): vio=[r.stdout[-300:].replace('\n',' | ')]
            open(f'/tmp/mut-{mid}-{pr}.out','w').write(r.stdout)
            print(f"{mid} ({pr}): {'CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'NOANSWER'} rc={r.returncode} {'TESTSFAIL'+str(failed[:2]) if failed else ''} {time.time()-t0:.0f}s {(vio or [''])[0][:200]}", flush=True)
        open(f'/tmp/mut-{mid}.diff','w').write(diff)
    finally:
        sh('git -C /repo checkout -q -- .')
