#!/usr/bin/env python3
"""Sensitivity and specificity of the checks, on small edits of /repo.

Usage: mutate.py [-v] [-k NAME] FILE...

Each FILE defines bugs and refactorings in a small text format:

    bug NAME PROPS            (or: ref NAME)
    file PATH
    <<<<
    old text
    ====
    new text
    >>>>

An edit replaces the single occurrence of the old text. For a bug one of the
PROPS (comma separated) has to be reported, for a refactoring nothing may be.
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
CHECKER = os.path.join(HERE, '..', 'bin', 'checker')
REPO = '/repo'

def parse(path):
    out, cur, fname = [], None, None
    lines = open(path).read().split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('bug '):
            _, n, p = l.split()
            cur = dict(kind='bug', name=n, props=p.split(','), edits=[])
            out.append(cur)
        elif l.startswith('ref '):
            cur = dict(kind='ref', name=l.split()[1], props=[], edits=[])
            out.append(cur)
        elif l.startswith('file '):
            fname = l.split()[1]
        elif l == '<<<<':
            old, new, dst = [], [], None
            i += 1
            dst = old
            while lines[i] != '>>>>':
                if lines[i] == '====':
                    dst = new
                else:
                    dst.append(lines[i])
                i += 1
            cur['edits'].append((fname, '\n'.join(old), '\n'.join(new)))
        i += 1
    return out

def run(m):
    if KEEP:
        shutil.rmtree('/tmp/mm', ignore_errors=True)
        os.mkdir('/tmp/mm')
    d = '/tmp/mm' if KEEP else tempfile.mkdtemp(prefix='mut.')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in m['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return m, 'BAD', 'old text found %d times in %s: %.60s' % (n, f, old)
            open(p, 'w').write(s.replace(old, new))
            if f.startswith('pkg/') and os.path.exists(os.path.join(r, 'core', f)):
                q = os.path.join(r, 'core', f)
                open(q, 'w').write(open(p).read())
        e = dict(os.environ, VERIF_REPO=r, VERIF_DIR=os.path.join(HERE, '..'))
        x = subprocess.run([CHECKER, 'all'], capture_output=True, text=True, env=e, timeout=600)
        o = x.stdout + x.stderr
        if 'LOAD:' in o or 'panic:' in o:
            return m, 'BAD', o[:600]
        fails = [l for l in o.split('\n') if l.startswith('FAIL')]
        props = set()
        for l in fails:
            props.update(l.split()[1].split(','))
        if m['kind'] == 'bug':
            st = 'caught' if props & set(m['props']) else 'MISSED'
            if st == 'MISSED' and props:
                st = 'OTHER '
        else:
            st = 'ALARM ' if props else 'quiet '
        return m, st, ' '.join(sorted(props)) + '\n' + '\n'.join(f[:330] for f in fails[:8])
    finally:
        if not KEEP:
            shutil.rmtree(d, ignore_errors=True)

KEEP = False

def main():
    global KEEP
    args = sys.argv[1:]
    KEEP = '-o' in args  # keep the changed copy in /tmp/mm (one mutant)
    args = [a for a in args if a != '-o']
    verbose = '-v' in args
    args = [a for a in args if a != '-v']
    key = None
    if '-k' in args:
        i = args.index('-k'); key = args[i+1]; del args[i:i+2]
    ms = []
    for a in args:
        ms += parse(a)
    if key:
        ms = [m for m in ms if re.search(key, m['name'])]
    cnt = {}
    with ThreadPoolExecutor(4) as ex:
        for m, st, info in ex.map(run, ms):
            st = st.strip()
            cnt[st] = cnt.get(st, 0) + 1
            first, _, rest = info.partition('\n')
            if st in ('caught', 'quiet') and not verbose:
                continue
            print(st, m['kind'], m['name'], ','.join(m['props']), '->', first)
            if st in ('ALARM', 'OTHER', 'BAD') or verbose:
                print('     ' + rest.replace('\n', '\n     '))
            sys.stdout.flush()
    print(cnt)

main()
