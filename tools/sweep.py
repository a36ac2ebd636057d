#!/usr/bin/env python3
"""Runs all rules against small syntactic changes (tools/gomut) and writes the
ones nothing is reported for. Usage: sweep.py MUTS.json OUT.jsonl [N] [ops,...]
A survey of what the checks do not look at; many changes listed are harmless."""
import json, os, shutil, subprocess, sys, threading, queue, random
HERE = os.path.dirname(os.path.abspath(__file__))
CHECKER = os.environ.get('CHECKER', os.path.join(HERE, '..', 'bin', 'checker'))
muts = [json.loads(l) for l in open(sys.argv[1])]
out = sys.argv[2]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 4
if len(sys.argv) > 4:
    ops = sys.argv[4].split(',')
    muts = [m for m in muts if m['op'] in ops]
done = set()
def key(m): return (m['file'], m['start'], m['end'], m['new'])
if os.path.exists(out):
    for l in open(out):
        done.add(key(json.loads(l)))
muts = [m for m in muts if key(m) not in done]
random.Random(1).shuffle(muts)
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
def work(i):
    d = '/tmp/sweep.%d' % i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m['file'])
        src = open(p, 'rb').read()
        try:
            open(p, 'wb').write(src[:m['start']] + m['new'].encode() + src[m['end']:])
            e = dict(os.environ, VERIF_REPO=d, VERIF_DIR=os.path.join(HERE, '..'), GOMEMLIMIT='6GiB')
            try:
                x = subprocess.run([CHECKER, 'all'], capture_output=True, text=True, env=e, timeout=300)
                o = x.stdout + x.stderr
            except subprocess.TimeoutExpired:
                o = 'TIMEOUT'
        finally:
            open(p, 'wb').write(src)
        if 'LOAD:' in o: st = 'nocompile'
        elif 'panic:' in o or 'TIMEOUT' in o: st = 'CRASH'
        else:
            props = sorted({q for l in o.split('\n') if l.startswith('FAIL') for q in l.split()[1].split(',')})
            st = ','.join(props) or 'survived'
        m['st'] = st
        if st == 'CRASH': m['out'] = o[-1500:]
        with lock:
            open(out, 'a').write(json.dumps(m) + '\n')
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
for t in ts: t.start()
for t in ts: t.join()
