#!/usr/bin/env python3
"""run.py OUT WORKERS SAMPLE FILE...: tries a random sample of mutations of
files of /repo in scratch copies: unit tests first, then the checks."""
import json, os, random, re, shutil, subprocess, sys, threading, time
out, workers, sample, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
here = os.path.dirname(os.path.abspath(__file__))
MAP = [
 (r'^stream/httprange/', 'H01 H02 H03'), (r'^stream/fileserver/', 'F01 H03'),
 (r'^stream/multi', 'S01 S02'), (r'^stream/seq', 'S03'), (r'^stream/canc', 'S04'), (r'^stream/', 'S01 S02 S03 S04'),
 (r'^fsutil/safe_write', 'U01 U04'), (r'^fsutil/resumable_fs', 'U03 U02'), (r'^fsutil/resumable', 'U02 U03'),
 (r'^fsutil/(open_random|temp|match)', 'U04 U01'), (r'^fsutil/copy_fs', 'U05'), (r'^fsutil/resolve', 'U06 V01'),
 (r'^fsutil/chmod_mask', 'V02 U01 O01'), (r'^fsutil/', 'U07 U01 U04 U05'),
 (r'^tarfs/', 'T01 T02 T03'),
 (r'^vroot/walk', 'V07'), (r'^vroot/iofs', 'V06'), (r'^vroot/readonly', 'V04'), (r'^vroot/pathn', 'V03 V01'), (r'^vroot/pathp', 'V03 V01 V09'),
 (r'^vroot/osfs/lock', 'V10'), (r'^vroot/osfs/', 'V03 V01'), (r'^vroot/(widen|vroot)', 'V03 V04'), (r'^vroot/funcs', 'V03 V06 V09 U05'),
 (r'^vroot/synthfs/(add|view|tree|node)', 'V08 V02 V05 V09 V01'), (r'^vroot/(synthfs|memfs|internal)', 'V02 V05 V08 V09 V01'),
 (r'^vroot-adapter/overlayfs/metadatastore', 'O06 O03 O01 O04'), (r'^vroot-adapter/overlayfs/(datasource)', 'O01 O02 O04 O03 O05'),
 (r'^vroot-adapter/overlayfs/file', 'O07 O01 O02 O05'), (r'^vroot-adapter/overlayfs/(copyup|state|write)', 'O01 O04 O02 O03 O05 O07'),
 (r'^vroot-adapter/overlayfs/', 'O01 O03 O04 O07 O05 O02'),
 (r'^vroot-adapter/sftpfs', 'P01'),
]
env0 = subprocess.check_output(['bash', '-c', '. /opt/vp/env.sh; env -0; echo -n GO126X=$GO126']).decode()
env = dict(x.split('=', 1) for x in env0.split('\0') if '=' in x)
go = env['GO126X']
os.makedirs('/tmp/mutbin', exist_ok=True)
subprocess.check_call([go, 'build', '-o', '/tmp/mutbin/mutate', here + '/main.go'], env={**env, 'GOWORK': 'off', 'GO111MODULE': 'off'})
muts = [json.loads(l) for l in subprocess.check_output(['/tmp/mutbin/mutate'] + files, cwd='/repo').decode().splitlines()]
random.Random(7).shuffle(muts)
done = set()
if os.path.exists(out):
    for l in open(out):
        x = json.loads(l); done.add((x['File'], x['Start'], x['End'], x['New']))
muts = [m for m in muts if (m['File'], m['Start'], m['End'], m['New']) not in done][:sample]
lock = threading.Lock()
o = open(out, 'a')
def run(cmd, cwd, env, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        b, _ = p.communicate(timeout=t)
        return p.returncode, b.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, 'timeout'
def work(k):
    w = f'/tmp/w-{os.path.basename(out)}-{k}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/verif/evidence')
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    for x in 'check.sh harness known_findings.txt go.work go.work.sum properties.jsonl'.split():
        if os.path.exists('/verif/' + x): subprocess.check_call(['cp', '-a', '/verif/' + x, w + '/verif/'])
    for src, dst in (('/verif/go.work', w + '/verif/go.work'), ('/opt/vp/go.work', w + '/go.work')):
        open(dst, 'w').write(open(src).read().replace('/repo', w + '/repo'))
    e = {**env, 'GOWORK': w + '/go.work'}
    while True:
        with lock:
            if not muts: break
            m = muts.pop()
        p = w + '/repo/' + m['File']
        src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])
        mod = re.match(r'^(vroot-adapter/[^/]*|[^/]*)/', m['File']).group(1)
        t0 = time.time(); res = ''; det = ''
        try:
            rc, b = run([go, 'build', './...'], f'{w}/repo/{mod}', e, 120)
            if rc: res = 'nocompile'
            else:
                rc, b = run([go, 'test', '-vet=off', '-timeout', '100s', './...'], f'{w}/repo/{mod}', e, 150)
                if rc: res = 'unit'
                else:
                    for pat, ids in MAP:
                        if re.search(pat, m['File']): break
                    for i in ids.split():
                        rc, b = run(['bash', './check.sh', i], w + '/verif', {**e, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'}, 600)
                        if rc == 1:
                            res = 'caught ' + i; det = next((l for l in b.splitlines() if l.startswith('-- ')), '')[:200]; break
                        if rc != 0:
                            res = f'noans {i} {rc}'; det = b[-300:]; break
                    else: res = 'SURVIVED'
        finally:
            open(p, 'wb').write(src)
        with lock:
            m['res'] = res; m['det'] = det; m['t'] = int(time.time() - t0)
            o.write(json.dumps(m) + '\n'); o.flush()
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
