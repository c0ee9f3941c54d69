#!/usr/bin/env python3
"""Runs checks against patched scratch copies of /repo, several at a time.
usage: trybugs.py [-jN] [ID...]            planted bugs seeded/ID: the check of the bug's property
       trybugs.py [-jN] -r [NAME[:C01,C02]...]  behaviour-preserving edits tools/refac/NAME.diff: the checks named on its first line"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
os.environ['VERIF_SEED'] = os.environ.get('VERIF_SEED', '1')
def one(name, patch, prop):
    tmp = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        subprocess.run('git clone -q /repo %s/repo && cp /repo/Cargo.lock %s/repo/ 2>/dev/null; true' % (tmp, tmp), shell=True)
        p = subprocess.run(['git', '-C', tmp + '/repo', 'apply', patch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return '%-10s %s patch does not apply: %s' % (name, prop, p.stdout[:200])
        t = time.time()
        p = subprocess.run(['python3-vt', '/verif/check.py', prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=tmp + '/repo'))
        v = [l for l in p.stdout.splitlines() if l.startswith(('VIOLATION', 'failing input'))]
        if any('no-failing-input' in l for l in v): v += [l for l in p.stdout.splitlines() if l.startswith('FAILED')][:2]
        return '%-10s %s rc=%d %.0fs %s' % (name, prop, p.returncode, time.time() - t, ' | '.join(x[:300] for x in v)[:700] or p.stdout[-300:])
    finally: shutil.rmtree(tmp)
args = sys.argv[1:]; j = 3; ref = False
while args and args[0].startswith('-'):
    a = args.pop(0)
    if a == '-r': ref = True
    else: j = int(a[2:])
jobs = []
if ref:
    D = '/verif/tools/refac/'
    for n in args or sorted(f[:-5] for f in os.listdir(D) if f.endswith('.diff')):
        n, _, ps = n.partition(':')
        ps = ps or open(D + n + '.diff').readline().strip().lstrip('# ')
        jobs += [(n, D + n + '.diff', p) for p in ps.split(',')]
else:
    for i in args or sorted(os.listdir('/verif/seeded')):
        d = '/verif/seeded/' + i
        jobs.append((i, d + '/patch.diff', json.load(open(d + '/meta.json'))['property']))
with concurrent.futures.ThreadPoolExecutor(j) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, *x) for x in jobs]): print(f.result(), flush=True)
