#!/usr/bin/env python3
"""Runs all rules against edits that keep the behaviour (checker refsites) and
writes the ones something is reported for. Several edits are tried at once and
split where they are not quiet. Usage: refsweep.py REFS.json OUT.jsonl [N] [BATCH] [ops,...]"""
import json, os, shutil, subprocess, sys, threading, random
HERE = os.path.dirname(os.path.abspath(__file__))
CHECKER = os.environ.get('CHECKER', os.path.join(HERE, '..', 'bin', 'checker'))
refs = [json.loads(l) for l in open(sys.argv[1])]
out = sys.argv[2]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 4
size = int(sys.argv[4]) if len(sys.argv) > 4 else 10
if len(sys.argv) > 5:
    refs = [m for m in refs if m['op'] in sys.argv[5].split(',')]
def key(m): return (m['file'], m['start'], m['end'], m['new'])
done = set()
if os.path.exists(out):
    done = {key(json.loads(l)) for l in open(out)}
refs = [m for m in refs if key(m) not in done]
random.Random(7).shuffle(refs)
lock = threading.Lock()
batches = []
for m in refs:
    for b in batches[-60:]:
        if len(b) < size and all(x['file'] != m['file'] or x['end'] <= m['start'] or m['end'] <= x['start'] for x in b):
            b.append(m)
            break
    else:
        batches.append([m])
stack = list(reversed(batches))
pending = 0
def judge(d, ms):
    files = {}
    for m in ms: files.setdefault(m['file'], []).append(m)
    saved = {}
    for f, es in files.items():
        p = os.path.join(d, f)
        src = saved[p] = open(p, 'rb').read()
        app = b''
        for m in sorted(es, key=lambda m: -m['start']):
            src = src[:m['start']] + m['new'].encode() + src[m['end']:]
            app += m.get('app', '').encode()
        open(p, 'wb').write(src + app)
    e = dict(os.environ, VERIF_REPO=d, VERIF_DIR=os.path.join(HERE, '..'), GOMEMLIMIT='5GiB')
    try:
        x = subprocess.run([CHECKER, 'all'], capture_output=True, text=True, env=e, timeout=400)
        o = x.stdout + x.stderr
    except subprocess.TimeoutExpired:
        o = 'TIMEOUT'
    for p, src in saved.items(): open(p, 'wb').write(src)
    if 'LOAD:' in o: return 'nocompile', o[:300]
    if 'panic:' in o or 'TIMEOUT' in o: return 'CRASH', o[-1500:]
    fs = [l for l in o.split('\n') if l.startswith('FAIL')]
    props = sorted({q for l in fs for q in l.split()[1].split(',')})
    return (','.join(props) or 'quiet'), '\n'.join(fs[:3])[:700]
def work(i):
    global pending
    d = '/tmp/rsweep.%d.%d' % (os.getpid(), i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    while True:
        with lock:
            if not stack:
                if pending == 0: break
                ms = None
            else:
                ms = stack.pop(); pending += 1
        if ms is None:
            import time; time.sleep(1); continue
        st, o = judge(d, ms)
        with lock:
            if st == 'quiet' or len(ms) == 1:
                for m in ms:
                    m['st'] = st
                    if len(ms) == 1: m['out'] = o
                    open(out, 'a').write(json.dumps(m) + '\n')
            else:
                h = len(ms) // 2
                stack.append(ms[:h]); stack.append(ms[h:])
            pending -= 1
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
for t in ts: t.start()
for t in ts: t.join()
